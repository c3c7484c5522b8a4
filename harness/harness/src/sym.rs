//! Interface to the symbolic executor (and, natively, to the replay binary).
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nn: usize);
    fn sym_assume(c: u8);
    fn sym_fail(p: *const u8, n: usize) -> !;
    fn sym_known(p: *const u8, n: usize) -> !;
    fn sym_cover(p: *const u8, n: usize);
    fn sym_concretize(v: u64) -> u64;
    fn sym_shard() -> u64;
    fn sym_tier() -> u64;
    fn sym_done() -> !;
    fn sym_native() -> u64;
    fn sym_token(msg: *const u8, key: *const u8, kind: u64, out: *mut u8);
    fn sym_assert(c: u8, p: *const u8, n: usize);
}

#[inline(never)]
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sym_bytes(b.as_mut_ptr(), N, name.as_ptr(), name.len()) };
    b
}
pub fn u8(name: &str) -> u8 { bytes::<1>(name)[0] }
pub fn u16(name: &str) -> u16 { u16::from_le_bytes(bytes(name)) }
pub fn u32(name: &str) -> u32 { if all_fixed() { return [0, u32::MAX, 0xbe99_744f][pattern() as usize] } u32::from_le_bytes(bytes(name)) }
pub fn u64(name: &str) -> u64 { if all_fixed() { return [0, u64::MAX, 0xbe99_744f][pattern() as usize] } u64::from_le_bytes(bytes(name)) }
/// A symbolic boolean (both values are explored on separate paths once branched on).
pub fn flag(name: &str) -> bool { u8(name) & 1 == 1 }
/// A symbolic choice in 0..n, made concrete (one path per value).
pub fn choice(name: &str, n: u64) -> u64 {
    let v = u8(name) as u64;
    assume(v < n);
    concrete(v)
}
pub fn concrete(v: u64) -> u64 { unsafe { sym_concretize(v) } }
static SHOW: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// From now on, `seen` shows errors and ends the path.
pub fn show_errors() { SHOW.store(true, std::sync::atomic::Ordering::Relaxed) }
struct Len(usize);
impl core::fmt::Write for Len { fn write_str(&mut self, s: &str) -> core::fmt::Result { self.0 += s.len(); Ok(()) } }
/// An error an operation returned.
pub fn look<E: std::error::Error>(e: &E) { if SHOW.load(std::sync::atomic::Ordering::Relaxed) { show(e) } }
/// The same; the path need not go on.
pub fn seen<E: std::error::Error>(e: &E) { if SHOW.load(std::sync::atomic::Ordering::Relaxed) { show(e); unsafe { sym_done() } } }
#[inline(never)]
fn show(e: &dyn std::error::Error) {
    use core::fmt::Write;
    let mut at = Some(e);
    let mut n = 0;
    while let Some(e) = at {
        let mut l = Len(0);
        check(write!(l, "{}", e).is_ok(), "an error cannot be displayed");
        check(l.0 > 0, "an error is displayed as nothing");
        check(write!(l, "{:?}", e).is_ok(), "an error cannot be shown for debugging");
        n += 1;
        check(n < 12, "an error has no last source");
        at = e.source();
    }
    cover("shown");
}
static THIN: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
/// From now on, `vec` gives corner cases, with one symbolic byte (level 1) or none (level 3, 4: also in integers); one fixed pattern (level 2).
pub fn thin(level: u8) { THIN.store(level, std::sync::atomic::Ordering::Relaxed) }
fn all_fixed() -> bool { THIN.load(std::sync::atomic::Ordering::Relaxed) >= 4 }
pub fn fixed() -> bool { THIN.load(std::sync::atomic::Ordering::Relaxed) >= 2 }
static PATTERN: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(9);
fn pattern() -> u8 {
    use std::sync::atomic::Ordering::Relaxed;
    if PATTERN.load(Relaxed) == 9 { PATTERN.store(choice("pattern", 3) as u8, Relaxed); }
    PATTERN.load(Relaxed)
}
pub fn vec(name: &str, len: usize) -> Vec<u8> {
    let t = THIN.load(std::sync::atomic::Ordering::Relaxed);
    if t > 0 {
        let k = if t == 2 { 2 } else { pattern() };
        let mut v: Vec<u8> = (0..len).map(|i| match k { 0 => 0, 1 => 0xff, _ => (i as u8).wrapping_mul(37).wrapping_add(0x4f) }).collect();
        if t == 1 && k == 2 && (len == 2 || len > 8) { unsafe { sym_bytes(v.as_mut_ptr().add(len - 1), 1, name.as_ptr(), name.len()) }; }
        return v;
    }
    let mut v = vec![0u8; len];
    unsafe { sym_bytes(v.as_mut_ptr(), len, name.as_ptr(), name.len()) };
    v
}
pub fn assume(c: bool) { unsafe { sym_assume(c as u8) } }
pub fn fail(msg: &str) -> ! { unsafe { sym_fail(msg.as_ptr(), msg.len()) } }
pub fn known(id: &str) -> ! { unsafe { sym_known(id.as_ptr(), id.len()) } }
pub fn cover(msg: &str) { unsafe { sym_cover(msg.as_ptr(), msg.len()) } }
pub fn shard() -> u64 { unsafe { sym_shard() } }
#[inline]
pub fn check(c: bool, msg: &str) {
    if !c {
        fail(msg)
    }
}

/// Branch-free assertion: the executor always puts its negation to the solver.
pub fn ck(c: bool, msg: &str) { unsafe { sym_assert(c as u8, msg.as_ptr(), msg.len()) } }
/// 0 = quick, 1 = thorough.
pub fn tier() -> u64 { unsafe { sym_tier() } }
/// True in the replay binary.
pub fn native() -> bool { unsafe { sym_native() != 0 } }

/// Declares a signature of `msg` under the public key (as libsecp256k1 represents it), which only it validates.
pub fn token(msg: &[u8], key: [u8; 64], schnorr: bool) -> [u8; 64] {
    let mut b = [0; 64];
    unsafe { sym_token(msg.as_ptr(), key.as_ptr(), schnorr as u64, b.as_mut_ptr()) };
    b
}

/// Defines harness entry points and the table the replay binary looks them up in.
#[macro_export]
macro_rules! harnesses {
    ($(fn $n:ident() $b:block)*) => {
        $(#[no_mangle] pub extern "C" fn $n() $b)*
        pub const E: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n as extern "C" fn())),*];
    };
}
