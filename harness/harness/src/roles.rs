//! Creator, constructor, updater and the modifiable flags.
use psbt_v2::bitcoin::{absolute::LockTime, sighash::EcdsaSighashType, transaction::Version, Sequence};
use psbt_v2::v2::{Constructor, Creator, Input, InputBuilder, InputsOnlyModifiable, Modifiable, Output, OutputBuilder, OutputsOnlyModifiable, Psbt, Signer, Updater};

use crate::fields;
use crate::gen::{self, cs, kv, name, Kv};
use crate::round::{others, Ps};
use crate::sym::{self, ck, cover};

fn le32(b: &[u8]) -> u32 { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) }
/// Any constructor.
enum C { B(Constructor<Modifiable>), I(Constructor<InputsOnlyModifiable>), O(Constructor<OutputsOnlyModifiable>) }
macro_rules! each { ($c:expr, $x:ident => $e:expr) => { match $c { C::B($x) => C::B($e), C::I($x) => C::I($e), C::O($x) => C::O($e) } } }
impl C {
    fn new(kind: u64, p: Psbt) -> Option<C> {
        match kind {
            0 => Constructor::<Modifiable>::new(p).map_err(|e| sym::seen(&e)).ok().map(C::B),
            1 => Constructor::<InputsOnlyModifiable>::new(p).map_err(|e| sym::seen(&e)).ok().map(C::I),
            _ => Constructor::<OutputsOnlyModifiable>::new(p).map_err(|e| sym::seen(&e)).ok().map(C::O),
        }
    }
    fn finish(self, how: u64) -> Psbt {
        let r = match (self, how) {
            (C::B(x), 0) => x.psbt(), (C::I(x), 0) => x.psbt(), (C::O(x), 0) => x.psbt(),
            (C::B(x), _) => x.updater().map(|u| u.psbt()), (C::I(x), _) => x.updater().map(|u| u.psbt()), (C::O(x), _) => x.updater().map(|u| u.psbt()),
        };
        match r { Ok(p) => p, Err(_) => sym::fail("construction cannot be finished") }
    }
}
/// An input to be added, and its pairs.
fn input(i: usize) -> (Input, Vec<Kv>) {
    let (txid, vout) = (sym::vec(&name("txid", i), 32), sym::vec(&name("vout", i), 4));
    let op = psbt_v2::bitcoin::OutPoint { txid: psbt_v2::bitcoin::hashes::Hash::from_byte_array(fields::a32(&txid)), vout: le32(&vout) };
    let mut m = vec![kv(0x0e, &[], &txid), kv(0x0f, &[], &vout)];
    let x = match sym::choice(&name("what", i), 5) {
        0 => Input::new(&op),
        1 => {
            let (a, s) = (sym::vec(&name("fund", i), 8), sym::vec(&name("fspk", i), 2));
            m.push(kv(1, &[], &[&a[..], &[2], &s].concat()));
            InputBuilder::new(&op).segwit_fund(fields::txout(&[&a[..], &[2], &s].concat())).build()
        }
        2 => { let h = sym::u32(&name("lock", i)); m.push(kv(0x12, &[], &h.to_le_bytes())); InputBuilder::new(&op).minimum_required_height_based_lock_time(gen::height(h)).build() }
        3 => {
            let (h, t) = (sym::u32(&name("lock", i)), sym::u32(&name("time", i)));
            m.push(kv(0x12, &[], &h.to_le_bytes()));
            m.push(kv(0x11, &[], &t.to_le_bytes()));
            InputBuilder::new(&op).minimum_required_time_based_lock_time(gen::time(t)).minimum_required_height_based_lock_time(gen::height(h)).build()
        }
        _ => {
            let tx = gen::v0_tx_bytes(1, 2);
            m.push(kv(0, &[], &tx));
            m.push(kv(0xf0, &[1], &[2]));
            let mut x = InputBuilder::new(&op).legacy_fund(fields::tx(&tx)).build();
            fields::set_input(&mut x, 0xf0, &[1], &[2]);
            x
        }
    };
    (x, m)
}
fn output(i: usize) -> (Output, Vec<Kv>) {
    let (amt, spk) = (sym::vec(&name("amt", i), 8), sym::vec(&name("spk", i), i + 1));
    let o = gen::txout(u64::from_le_bytes([amt[0], amt[1], amt[2], amt[3], amt[4], amt[5], amt[6], amt[7]]), &spk);
    let mut m = vec![kv(3, &[], &amt), kv(4, &[], &spk)];
    let mut x = if sym::choice(&name("ob", i), 2) == 1 { OutputBuilder::new(o).build() } else { Output::new(o) };
    if i == 1 { let v = sym::vec("ounk", 2); m.push(kv(0xf1, &[], &v)); fields::set_output(&mut x, 0xf1, &[], &v); }
    (x, m)
}
/// Pairs of all optional global fields but the flags.
fn globals(p: &mut Psbt) -> Vec<Kv> {
    let mut q = Ps::A(p.clone());
    let mut r = vec![];
    for (m, x) in others(false, 0, 6) { if m == 0 { q.set(0, &x); r.push(x); } }
    if let Ps::A(q) = q { *p = q; }
    r
}
fn expect(p: &Psbt, g: &[Kv], flags: u8, ins: &[Vec<Kv>], outs: &[Vec<Kv>]) {
    ck(p.global.input_count == ins.len() && p.inputs.len() == ins.len(), "the input count is not the number of inputs");
    ck(p.global.output_count == outs.len() && p.outputs.len() == outs.len(), "the output count is not the number of outputs");
    let mut gl = vec![kv(0xfb, &[], &[2, 0, 0, 0]), kv(4, &[], &cs(ins.len() as u64)), kv(5, &[], &cs(outs.len() as u64)), kv(6, &[], &[flags])];
    gl.extend_from_slice(g);
    let maps = match gen::maps(&p.serialize()) { Some(m) => m, None => sym::fail("not a PSBT") };
    ck(maps.len() == 1 + ins.len() + outs.len(), "another number of maps");
    gen::same_map(&maps[0], &gl, "construction changes an unrelated global field");
    for (i, m) in ins.iter().enumerate() { gen::same_map(&maps[1 + i], m, "an input is not as given"); }
    for (i, m) in outs.iter().enumerate() { gen::same_map(&maps[1 + ins.len() + i], m, "an output is not as given"); }
}

fn construct(flags_only: bool) {
    let kind = sym::shard() % 3;
    let mut p = gen::empty_psbt();
    let flags = sym::u8("flags");
    p.global.tx_modifiable_flags = flags;
    let (mut ins, mut outs) = (vec![], vec![]);
    let mut g = vec![kv(2, &[], &[2, 0, 0, 0])];
    if sym::choice("from", 2) == 1 {
        g.extend(globals(&mut p));
        if !flags_only {
            let (x, m) = input(0);
            p.inputs.push(x);
            ins.push(m);
            let (x, m) = output(0);
            p.outputs.push(x);
            outs.push(m);
            p.global.input_count = 1;
            p.global.output_count = 1;
        }
    }
    let need = [3, 1, 2][kind as usize];
    let mut c = match C::new(kind, p) {
        Some(c) => { ck(flags & need == need, "a constructor although the PSBT is not modifiable so"); cover("constructor"); c }
        None => { ck(flags & need != need, "no constructor although the PSBT is modifiable so"); cover("refused"); return; }
    };
    let mut want = flags;
    for s in 0..if flags_only { 3 } else { 2 } + sym::tier() as usize {
        match sym::choice(&name("step", s), if flags_only { 4 } else { 5 }) {
            0 => break,
            1 => { c = each!(c, x => x.no_more_inputs()); want &= !1; }
            2 => { c = each!(c, x => x.no_more_outputs()); want &= !2; }
            3 => if want & 1 == 1 {
                let (x, m) = input(s + 1);
                c = match c { C::B(c) => C::B(c.input(x)), C::I(c) => C::I(c.input(x)), c => { sym::assume(false); c } };
                ins.push(m);
            },
            _ => if want & 2 == 2 {
                let (x, m) = output(s + 1);
                c = match c { C::B(c) => C::B(c.output(x)), C::O(c) => C::O(c.output(x)), c => { sym::assume(false); c } };
                outs.push(m);
            },
        }
    }
    let how = sym::choice("finish", 2);
    if how == 1 { want &= !3; }
    let p = c.finish(how);
    if flags_only { ck(p.global.tx_modifiable_flags == want, "the modifiable flags are not what was declared"); }
    expect(&p, &g, if flags_only { want } else { p.global.tx_modifiable_flags }, &ins, &outs);
    cover("finished");
}

harnesses! {
    fn h_creator() {
        let mut c = if sym::choice("how", 2) == 0 { Creator::new() } else { Creator::default() };
        let mut flags = 0u8;
        let mut ver = 2u32;
        let mut lock = None;
        for s in 0..4 {
            match sym::choice(&name("step", s), 6) {
                0 => break,
                1 => { c = c.sighash_single(); flags |= 4; }
                2 => { c = c.inputs_modifiable(); flags |= 1; }
                3 => { c = c.outputs_modifiable(); flags |= 2; }
                4 => { ver = sym::u32("ver"); c = c.transaction_version(Version(ver as i32)); }
                _ => { let l = sym::u32("lock"); lock = Some(l); c = c.fallback_lock_time(LockTime::from_consensus(l)); }
            }
        }
        let p = match sym::choice("end", 4) {
            0 => { cover("psbt"); c.psbt() }
            1 => { flags |= 3; cover("both"); C::B(c.constructor_modifiable()).finish(0) }
            2 => { flags = flags & !2 | 1; cover("inputs only"); C::I(c.constructor_inputs_only_modifiable()).finish(0) }
            _ => { flags = flags & !1 | 2; cover("outputs only"); C::O(c.constructor_outputs_only_modifiable()).finish(0) }
        };
        ck(p.global.tx_modifiable_flags == flags, "the creator sets other modifiable flags than asked for");
        let mut g = vec![kv(2, &[], &ver.to_le_bytes())];
        if let Some(l) = lock { g.push(kv(3, &[], &l.to_le_bytes())); }
        expect(&p, &g, flags, &[], &[]);
    }
    fn h_default_ctor() {
        let (c, f) = match sym::shard() { 0 => (C::B(Default::default()), 3), 1 => (C::I(Default::default()), 1), _ => (C::O(Default::default()), 2) };
        let how = sym::choice("finish", 2);
        expect(&c.finish(how), &[kv(2, &[], &[2, 0, 0, 0])], if how == 1 { 0 } else { f }, &[], &[]);
        cover("finished");
    }
    fn h_flags() { construct(true) }
    fn h_construct() { construct(false) }
    fn h_set_sequence() {
        let n = sym::shard() as usize;
        let mut p = gen::empty_psbt();
        let flags = sym::u8("flags");
        p.global.tx_modifiable_flags = flags;
        let mut g = vec![kv(2, &[], &[2, 0, 0, 0])];
        g.extend(globals(&mut p));
        let mut ins = vec![];
        for i in 0..n {
            let (mut x, mut m) = (Input::new(&gen::outpoint(i as u8)), gen::v2_input(i as u8));
            for (k, q) in others(false, 1, 0x10) { if k == 1 && i == 0 && !(q.k[0] == 0x11) { fields::set_input(&mut x, q.k[0], &q.k[1..], &q.v); m.push(q); } }
            if sym::choice(&name("has", i), 2) == 1 { let s = sym::vec(&name("old", i), 4); fields::set_input(&mut x, 0x10, &[], &s); m.push(kv(0x10, &[], &s)); }
            p.inputs.push(x);
            ins.push(m);
        }
        p.global.input_count = n;
        let (o, om) = output(0);
        p.outputs.push(o);
        p.global.output_count = 1;
        let i = if sym::choice("far", 2) == 1 { let i = sym::u64("index"); sym::assume(i >= n as u64); i } else { sym::choice("index", n as u64 + 1) };
        let s = sym::vec("seq", 4);
        let u = match Updater::new(p) { Ok(u) => u, Err(_) => sym::fail("updater refused") };
        match u.set_sequence(Sequence(le32(&s)), i as usize) {
            Ok(u) => {
                sym::check(i < n as u64, "a sequence is set for an input that does not exist");
                ins[i as usize].retain(|q| q.k[0] != 0x10);
                ins[i as usize].push(kv(0x10, &[], &s));
                expect(&u.psbt(), &g, flags, &ins, &[om]);
                cover("set");
            }
            Err(e) => { sym::seen(&e); sym::check(i >= n as u64, "a sequence is refused for an existing input"); cover("refused"); }
        }
    }
    // Flags after a signature of the given type.
    fn h_signer_flags() {
        let (ty, b) = ty(sym::choice("type", 6));
        let mut p = gen::empty_psbt();
        let f = sym::u8("flags");
        p.global.tx_modifiable_flags = f;
        let mut g = vec![kv(2, &[], &[2, 0, 0, 0])];
        g.extend(globals(&mut p));
        let mut s = match Signer::new(p) { Ok(s) => s, Err(_) => sym::fail("signer refused") };
        s.ecdsa_clear_tx_modifiable(ty);
        let p = s.psbt();
        ck(p.global.tx_modifiable_flags == after(f, b), "the flags after signing are not those of BIP-370");
        expect(&p, &g, after(f, b), &[], &[]);
        cover("flags");
    }
}
/// The six standard types and their bytes.
pub fn ty(n: u64) -> (EcdsaSighashType, u8) {
    use EcdsaSighashType::*;
    [(All, 1), (None, 2), (Single, 3), (AllPlusAnyoneCanPay, 0x81), (NonePlusAnyoneCanPay, 0x82), (SinglePlusAnyoneCanPay, 0x83)][n as usize]
}
/// BIP-370: the flags after adding a signature of type `t`.
pub fn after(f: u8, t: u8) -> u8 {
    let mut r = f & !3;
    if t & 0x80 != 0 { r |= f & 1; }
    if t & 0x1f == 2 { r |= f & 2; }
    if t & 0x1f == 3 { r |= 4; }
    r
}
