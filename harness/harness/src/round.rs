//! Encoding of PSBT values whose fields are set directly, against pairs written down independently, and back.
use psbt_v2::{v0, v2};

use crate::fields;
use crate::gen::{self, cs, kv, Kv};
use crate::pairs::{self, Kd, Va};
use crate::sym::{self, ck, cover};
use crate::wire::{good_kd, good_val};

pub fn base2(ni: usize, no: usize) -> v2::Psbt {
    let ins = (0..ni).map(|i| v2::Input::new(&gen::outpoint(i as u8))).collect();
    let outs = (0..no).map(|i| v2::Output::new(gen::txout(0x101 + i as u64 - if i > 254 { 0x100 } else { 0 }, &[0x51, i as u8]))).collect();
    gen::psbt(ins, outs)
}
pub fn base0(ni: u8, no: u8) -> v0::Psbt {
    use psbt_v2::bitcoin::{absolute::LockTime, transaction::Version, Sequence, Transaction, TxIn};
    let t = Transaction {
        version: Version(2), lock_time: LockTime::ZERO,
        input: (0..ni).map(|i| TxIn { previous_output: gen::outpoint(i), script_sig: Default::default(), sequence: Sequence::MAX, witness: Default::default() }).collect(),
        output: (0..no).map(|i| gen::txout(0x101 + i as u64, &[0x51, i])).collect(),
    };
    match v0::Psbt::from_unsigned_tx(t) { Ok(p) => p, Err(_) => sym::fail("v0 creation") }
}
/// All optional types of all maps but `(m, t)`.
pub fn others(v0: bool, m: u8, t: u8) -> Vec<(u8, Kv)> {
    let n = if v0 { pairs::NTYPES0 } else { pairs::NTYPES };
    let mut r = vec![];
    for s in 0..n {
        let (m2, t2) = if v0 { pairs::type0_of(s) } else { pairs::type_of(s) };
        if (m2, t2) == (m, t) { continue; }
        let (kd, va, ok) = if v0 { pairs::form0(m2, t2) } else { let (k, v) = pairs::form(m2, t2); (k, v, true) };
        if ok && va != Va::Tree && !(v0 && (m2, t2) == (0, 0xfb)) { let k = if kd == Kd::Prop { [&[2][..], &sym::vec("kdo", 4)].concat() } else { good_kd(kd, va, 0) };
            r.push((m2, kv(t2, &k, &good_val(va, 0)))); }
    }
    r
}
#[derive(Clone, PartialEq)]
pub enum Ps { A(v2::Psbt), B(v0::Psbt) }
impl Ps {
    pub fn new(v0: bool, n: usize) -> Ps { if v0 { Ps::B(base0(n as u8, n as u8)) } else { Ps::A(base2(n, n)) } }
    pub fn set(&mut self, m: u8, p: &Kv) { self.set_at(m, 0, p) }
    pub fn set_at(&mut self, m: u8, i: usize, p: &Kv) {
        let done = match self { Ps::A(x) => fields::set2(x, m, i, p.k[0], &p.k[1..], &p.v), Ps::B(x) => fields::set0(x, m, i, p.k[0], &p.k[1..], &p.v) };
        sym::check(done, "harness: no such field");
    }
    pub fn bytes(&self) -> Vec<u8> { match self { Ps::A(x) => x.serialize(), Ps::B(x) => x.serialize() } }
    pub fn combine(self, other: Ps) -> Option<Ps> {
        match (self, other) {
            (Ps::A(x), Ps::A(y)) => x.combine_with(y).map_err(|e| sym::seen(&e)).ok().map(Ps::A),
            (Ps::B(mut x), Ps::B(y)) => match x.combine(y) { Ok(()) => Some(Ps::B(x)), Err(e) => { sym::seen(&e); None } },
            _ => sym::fail("harness: versions"),
        }
    }
    pub fn back(&self, b: &[u8]) -> bool {
        match self {
            Ps::A(x) => matches!(v2::Psbt::deserialize(b), Ok(y) if *x == y),
            Ps::B(x) => matches!(v0::Psbt::deserialize(b), Ok(y) if *x == y),
        }
    }
}
fn base_maps(v0: bool) -> Vec<Vec<Kv>> {
    if v0 { vec![vec![gen::v0_tx(1, 1)], vec![], vec![]] } else { vec![gen::v2_global(1, 1), gen::v2_input(0), gen::v2_output(0)] }
}

fn field(v0: bool) {
    let (m, t) = if v0 { pairs::type0_of(sym::shard()) } else { pairs::type_of(sym::shard()) };
    let (kd, va, allowed) = if v0 { pairs::form0(m, t) } else { let (k, v) = pairs::form(m, t); (k, v, true) };
    if !allowed || v0 && (m, t) == (0, 0xfb) { cover("parsed"); cover("full"); return; }
    let mut p = Ps::new(v0, 1);
    let mut maps = base_maps(v0);
    let mut add = |p: &mut Ps, m: u8, q: Kv| { p.set(m, &q); maps[m as usize].retain(|x| x.k != q.k); maps[m as usize].push(q); };
    let how = sym::choice("others", 3);
    if how == 1 {
        cover("full");
        for (m2, q) in others(v0, m, t) { add(&mut p, m2, q); }
        add(&mut p, m, kv(t, &good_kd(kd, va, 0), &good_val(va, 0)));
    } else {
        if let Some(q) = pairs::partner(v0, m, t) { add(&mut p, m, q); }
        let k = pairs::keydata(kd);
        sym::assume(k.ok);
        let val = pairs::value(va, &k.b);
        sym::assume(val.ok);
        if how == 2 && kd != Kd::None {
            let k2 = good_kd(kd, va, 1);
            sym::assume(!gen::same(&k.b, &k2));
            add(&mut p, m, kv(t, &k2, &good_val(va, 1)));
        }
        add(&mut p, m, kv(t, &k.b, &val.b));
    }
    let b = p.bytes();
    let want = if v0 { maps } else { gen::with_defaults(&maps, 1) };
    pairs::compare(&b, &want, 1, va == Va::Tree);
    if v0 { if let Some(g) = gen::maps(&b) { ck(g[0][0].k == [0], "the unsigned transaction does not come first"); } }
    ck(p.back(&b), "parsing the serialized PSBT does not give back an equal one");
    cover("parsed");
}

harnesses! {
    fn h_ser() { field(false) }
    fn h_ser0() { field(true) }
    // Numbers of maps and mandatory fields.
    fn h_ser_mand() {
        const N: [(usize, usize); 9] = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (3, 3), (253, 1), (1, 252)];
        let (ni, no) = N[sym::shard() as usize];
        let mut p = base2(ni, no);
        let ver = sym::vec("txver", 4);
        let flags = sym::vec("flags", 1);
        fields::set_global(&mut p.global, 2, &[], &ver);
        fields::set_global(&mut p.global, 6, &[], &flags);
        let mut maps = vec![vec![kv(0xfb, &[], &[2, 0, 0, 0]), kv(2, &[], &ver), kv(4, &[], &cs(ni as u64)), kv(5, &[], &cs(no as u64)), kv(6, &[], &flags)]];
        for i in 0..ni {
            let (a, b) = if i < 2 || i + 1 == ni { (sym::vec("txid", 32), sym::vec("vout", 4)) } else { (vec![i as u8; 32], vec![i as u8; 4]) };
            fields::set_input(&mut p.inputs[i], 0x0e, &[], &a);
            fields::set_input(&mut p.inputs[i], 0x0f, &[], &b);
            maps.push(vec![kv(0x0e, &[], &a), kv(0x0f, &[], &b)]);
        }
        for i in 0..no {
            let a = if i < 2 || i + 1 == no { sym::vec("amt", 8) } else { vec![i as u8; 8] };
            let s = if i == 0 { let n = [0, 2, 252, 253][sym::choice("spk", 4) as usize]; sym::vec("spk", n) } else { vec![i as u8; 3] };
            fields::set_output(&mut p.outputs[i], 3, &[], &a);
            fields::set_output(&mut p.outputs[i], 4, &[], &s);
            maps.push(vec![kv(3, &[], &a), kv(4, &[], &s)]);
        }
        let b = p.serialize();
        gen::same_stream(&b, &maps, "the mandatory fields are not encoded as specified");
        ck(matches!(v2::Psbt::deserialize(&b), Ok(q) if q == p), "parsing the serialized PSBT does not give back an equal one");
        cover("parsed");
    }
    // v0: the unsigned transaction and the version.
    fn h_ser0_mand() {
        const N: [(u8, u8); 6] = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (3, 1)];
        let (ni, no) = N[sym::shard() as usize];
        let mut tx = sym::vec("ver", 4);
        tx.push(ni);
        for _ in 0..ni { tx.extend(sym::vec("prev", 36)); tx.push(0); tx.extend(sym::vec("seq", 4)); }
        tx.push(no);
        for _ in 0..no { tx.extend(sym::vec("amt", 8)); tx.extend([2]); tx.extend(sym::vec("spk", 2)); }
        tx.extend(sym::vec("lock", 4));
        let mut t = psbt_v2::bitcoin::Transaction { version: psbt_v2::bitcoin::transaction::Version(0), lock_time: psbt_v2::bitcoin::absolute::LockTime::ZERO, input: vec![], output: vec![] };
        t.version = psbt_v2::bitcoin::transaction::Version(i32::from_le_bytes([tx[0], tx[1], tx[2], tx[3]]));
        let n = tx.len();
        t.lock_time = psbt_v2::bitcoin::absolute::LockTime::from_consensus(u32::from_le_bytes([tx[n - 4], tx[n - 3], tx[n - 2], tx[n - 1]]));
        for i in 0..ni as usize {
            use psbt_v2::bitcoin::hashes::Hash;
            let a = 5 + 41 * i;
            t.input.push(psbt_v2::bitcoin::TxIn {
                previous_output: psbt_v2::bitcoin::OutPoint { txid: psbt_v2::bitcoin::Txid::from_byte_array(fields::a32(&tx[a..])), vout: u32::from_le_bytes([tx[a + 32], tx[a + 33], tx[a + 34], tx[a + 35]]) },
                script_sig: Default::default(),
                sequence: psbt_v2::bitcoin::Sequence(u32::from_le_bytes([tx[a + 37], tx[a + 38], tx[a + 39], tx[a + 40]])),
                witness: Default::default(),
            });
        }
        for i in 0..no as usize {
            let a = 6 + 41 * ni as usize + 11 * i;
            t.output.push(fields::txout(&tx[a..a + 11]));
        }
        let p = match v0::Psbt::from_unsigned_tx(t) { Ok(p) => p, Err(_) => sym::fail("v0 creation") };
        let mut maps = vec![vec![kv(0, &[], &tx)]];
        for _ in 0..ni + no { maps.push(vec![]); }
        let b = p.serialize();
        gen::same_stream(&b, &maps, "the unsigned transaction is not encoded as specified");
        ck(matches!(v0::Psbt::deserialize(&b), Ok(q) if q == p), "parsing the serialized PSBT does not give back an equal one");
        cover("parsed");
    }
}
