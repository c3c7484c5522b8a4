//! Harnesses: assertions over the public API of psbt-v2 with symbolic inputs.
#[macro_use]
pub mod sym;
pub mod checks;
pub mod comb;
pub mod errors;
pub mod extract;
pub mod fee;
pub mod fields;
pub mod finalize;
pub mod gen;
pub mod keys;
pub mod lock;
pub mod pairs;
pub mod roles;
pub mod round;
pub mod ser;
pub mod sighash;
pub mod sign;
pub mod text;
pub mod wire;

pub fn entries() -> impl Iterator<Item = &'static (&'static str, extern "C" fn())> {
    [lock::E, pairs::E, wire::E, round::E, comb::E, fee::E, extract::E, roles::E, sighash::E, sign::E, checks::E, finalize::E, text::E, ser::E, errors::E].into_iter().flatten()
}
