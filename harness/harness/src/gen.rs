//! Building blocks shared by the harnesses.
use psbt_v2::bitcoin::absolute;
use psbt_v2::bitcoin::hashes::Hash;
use psbt_v2::bitcoin::{Amount, OutPoint, ScriptBuf, TxOut, Txid};
use psbt_v2::v2::{Input, Output, Psbt};

use crate::sym;

/// Threshold between height and time lock times (consensus).
pub const THRESHOLD: u32 = 500_000_000;

pub fn name(base: &str, i: usize) -> String {
    let mut s = String::from(base);
    s.push((b'0' + i as u8) as char);
    s
}
pub fn height(n: u32) -> absolute::Height {
    sym::assume(n < THRESHOLD);
    match absolute::Height::from_consensus(n) { Ok(h) => h, Err(_) => sym::fail("height constructor") }
}
pub fn time(n: u32) -> absolute::Time {
    sym::assume(n >= THRESHOLD);
    match absolute::Time::from_consensus(n) { Ok(t) => t, Err(_) => sym::fail("time constructor") }
}
pub fn outpoint(i: u8) -> OutPoint { OutPoint { txid: Txid::from_byte_array([i + 1; 32]), vout: i as u32 } }
pub fn txout(v: u64, script: &[u8]) -> TxOut { TxOut { value: Amount::from_sat(v), script_pubkey: ScriptBuf::from(script.to_vec()) } }
pub fn empty_psbt() -> Psbt { psbt_v2::v2::Creator::new().psbt() }
pub fn psbt(ins: Vec<Input>, outs: Vec<Output>) -> Psbt {
    let mut p = empty_psbt();
    p.global.input_count = ins.len();
    p.global.output_count = outs.len();
    p.inputs = ins;
    p.outputs = outs;
    p
}

// ---------- byte streams, written down independently of the code under test ----------

/// Compact size.
pub fn cs(n: u64) -> Vec<u8> {
    if n < 0xfd { vec![n as u8] }
    else if n <= 0xffff { let mut v = vec![0xfd]; v.extend_from_slice(&(n as u16).to_le_bytes()); v }
    else if n <= 0xffff_ffff { let mut v = vec![0xfe]; v.extend_from_slice(&(n as u32).to_le_bytes()); v }
    else { let mut v = vec![0xff]; v.extend_from_slice(&n.to_le_bytes()); v }
}

/// One key-value pair: full key (type byte and key data) and value.
#[derive(Clone)]
pub struct Kv { pub k: Vec<u8>, pub v: Vec<u8> }
pub fn kv(t: u8, kd: &[u8], v: &[u8]) -> Kv {
    let mut k = vec![t];
    k.extend_from_slice(kd);
    Kv { k, v: v.to_vec() }
}
pub fn push_pair(out: &mut Vec<u8>, p: &Kv) {
    out.extend_from_slice(&cs(p.k.len() as u64));
    out.extend_from_slice(&p.k);
    out.extend_from_slice(&cs(p.v.len() as u64));
    out.extend_from_slice(&p.v);
}
/// `psbt\xff` followed by the maps, each terminated.
pub fn stream(maps: &[Vec<Kv>]) -> Vec<u8> {
    let mut out = vec![0x70, 0x73, 0x62, 0x74, 0xff];
    for m in maps {
        for p in m { push_pair(&mut out, p); }
        out.push(0);
    }
    out
}
fn rd_cs(b: &[u8], at: &mut usize) -> Option<u64> {
    let f = *b.get(*at)?;
    *at += 1;
    let n = match f { 0xfd => 2, 0xfe => 4, 0xff => 8, _ => return Some(f as u64) };
    let mut v = 0u64;
    for i in 0..n { v |= (*b.get(*at + i)? as u64) << (8 * i); }
    *at += n;
    Some(v)
}
/// Splits a serialized PSBT into its maps: an independent reader of the container format.
pub fn maps(b: &[u8]) -> Option<Vec<Vec<Kv>>> {
    if b.len() < 5 || b[..5] != [0x70, 0x73, 0x62, 0x74, 0xff] { return None; }
    let mut at = 5;
    let mut out = vec![];
    while at < b.len() {
        let mut m = vec![];
        loop {
            let n = sym::concrete(rd_cs(b, &mut at)?) as usize;
            if n == 0 { break; }
            let k = b.get(at..at + n)?.to_vec();
            at += n;
            let n = sym::concrete(rd_cs(b, &mut at)?) as usize;
            let v = b.get(at..at + n)?.to_vec();
            at += n;
            m.push(Kv { k, v });
        }
        out.push(m);
    }
    Some(out)
}
/// Equality without early exit (one symbolic condition).
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a == b }
/// `p` occurs in `m` (no branching on symbolic data).
pub fn has(m: &[Kv], p: &Kv) -> bool {
    let mut r = false;
    for q in m {
        if q.k.len() == p.k.len() && q.v.len() == p.v.len() { r = r | (same(&q.k, &p.k) & same(&q.v, &p.v)); }
    }
    r
}
/// The two maps hold exactly the same pairs (each side free of repeated keys or not).
pub fn same_map(got: &[Kv], want: &[Kv], msg: &str) {
    sym::ck(got.len() == want.len(), msg);
    for p in want { sym::ck(has(got, p), msg); }
    for p in got { sym::ck(has(want, p), msg); }
}
/// Checks that `got` (a serialized PSBT) consists of exactly these maps.
pub fn same_stream(got: &[u8], want: &[Vec<Kv>], msg: &str) {
    let g = match maps(got) { Some(g) => g, None => sym::fail(msg) };
    sym::ck(g.len() == want.len(), msg);
    for (g, w) in g.iter().zip(want) { same_map(g, w, msg); }
}

// ---------- mandatory v2 pairs ----------
pub fn v2_global(nin: u64, nout: u64) -> Vec<Kv> {
    vec![kv(0xfb, &[], &[2, 0, 0, 0]), kv(0x02, &[], &[2, 0, 0, 0]), kv(0x04, &[], &cs(nin)), kv(0x05, &[], &cs(nout))]
}
pub fn v2_input(i: u8) -> Vec<Kv> { vec![kv(0x0e, &[], &[i + 1; 32]), kv(0x0f, &[], &[i, 0, 0, 0])] }
pub fn v2_output(i: u8) -> Vec<Kv> { vec![kv(0x03, &[], &[i + 1, 1, 0, 0, 0, 0, 0, 0]), kv(0x04, &[], &[0x51, i])] }
/// Pairs the serializer writes although they may be absent in the stream.
pub fn with_defaults(maps: &[Vec<Kv>], nin: usize) -> Vec<Vec<Kv>> {
    let mut m = maps.to_vec();
    if !m[0].iter().any(|p| p.k[0] == 0x06 && p.k.len() == 1) { m[0].push(kv(0x06, &[], &[0])); }
    for o in m[1 + nin..].iter_mut() {
        if !o.iter().any(|p| p.k[0] == 0x04 && p.k.len() == 1) { o.push(kv(0x04, &[], &[])); }
    }
    m
}

// ---------- v0 ----------
/// The unsigned transaction with the same inputs and outputs as `v2_input`, `v2_output`.
pub fn v0_tx_bytes(nin: u8, nout: u8) -> Vec<u8> {
    let mut t = vec![2, 0, 0, 0, nin];
    for i in 0..nin { t.extend_from_slice(&[i + 1; 32]); t.extend_from_slice(&[i, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff]); }
    t.push(nout);
    for i in 0..nout { t.extend_from_slice(&[i + 1, 1, 0, 0, 0, 0, 0, 0, 2, 0x51, i]); }
    t.extend_from_slice(&[0, 0, 0, 0]);
    t
}
pub fn v0_tx(nin: u8, nout: u8) -> Kv { kv(0x00, &[], &v0_tx_bytes(nin, nout)) }

// ---------- tap trees ----------
/// The leaves of an encoded tap tree, each as key (depth) and value (version, script).
pub fn leaves(b: &[u8]) -> Option<Vec<Kv>> {
    let mut at = 0;
    let mut r = vec![];
    while at < b.len() {
        let d = *b.get(at)?;
        let v = *b.get(at + 1)?;
        at += 2;
        let n = sym::concrete(rd_cs(b, &mut at)?) as usize;
        let s = b.get(at..at + n)?;
        at += n;
        let mut val = vec![v];
        val.extend_from_slice(s);
        r.push(Kv { k: vec![d], v: val });
    }
    Some(r)
}
/// Merkle root of the leaves in depth-first order (BIP-341).
pub fn root(l: &[Kv]) -> [u8; 32] {
    use psbt_v2::bitcoin::hashes::{sha256, HashEngine};
    let tagged = |tag: &str, parts: &[&[u8]]| -> [u8; 32] {
        let t = sha256::Hash::hash(tag.as_bytes()).to_byte_array();
        let mut e = sha256::Hash::engine();
        e.input(&t);
        e.input(&t);
        for p in parts { e.input(p); }
        sha256::Hash::from_engine(e).to_byte_array()
    };
    let mut stack: Vec<(u8, [u8; 32])> = vec![];
    for p in l {
        let h = tagged("TapLeaf", &[&p.v[..1], &cs(p.v.len() as u64 - 1), &p.v[1..]]);
        stack.push((p.k[0], h));
        while stack.len() >= 2 && stack[stack.len() - 1].0 == stack[stack.len() - 2].0 {
            let (d, b) = stack[stack.len() - 1];
            let a = stack[stack.len() - 2].1;
            stack.pop();
            stack.pop();
            let h = if a < b { tagged("TapBranch", &[&a, &b]) } else { tagged("TapBranch", &[&b, &a]) };
            stack.push((d.wrapping_sub(1), h));
        }
    }
    match stack.first() { Some(x) => x.1, None => [0; 32] }
}

// ---------- transactions ----------
/// One input of a transaction, as plain bytes.
#[derive(Clone)]
pub struct I { pub txid: Vec<u8>, pub vout: Vec<u8>, pub ss: Vec<u8>, pub seq: Vec<u8>, pub wit: Vec<Vec<u8>> }
/// One output: amount and script, as plain bytes.
#[derive(Clone)]
pub struct O { pub amt: Vec<u8>, pub spk: Vec<u8> }
/// Consensus encoding, with witnesses where there are any (or where there is no input).
pub fn tx_bytes(ver: &[u8], ins: &[I], outs: &[O], lock: &[u8]) -> Vec<u8> {
    let seg = ins.is_empty() || ins.iter().any(|i| !i.wit.is_empty());
    let mut b = ver.to_vec();
    if seg { b.extend([0, 1]); }
    b.extend(cs(ins.len() as u64));
    for i in ins { b.extend(&i.txid); b.extend(&i.vout); b.extend(cs(i.ss.len() as u64)); b.extend(&i.ss); b.extend(&i.seq); }
    b.extend(cs(outs.len() as u64));
    for o in outs { b.extend(&o.amt); b.extend(cs(o.spk.len() as u64)); b.extend(&o.spk); }
    if seg { for i in ins { b.extend(cs(i.wit.len() as u64)); for w in &i.wit { b.extend(cs(w.len() as u64)); b.extend(w); } } }
    b.extend(lock);
    b
}
/// Encoding without witnesses (what the txid hashes).
pub fn tx_base(ver: &[u8], ins: &[I], outs: &[O], lock: &[u8]) -> Vec<u8> {
    let mut b = ver.to_vec();
    b.extend(cs(ins.len() as u64));
    for i in ins { b.extend(&i.txid); b.extend(&i.vout); b.extend(cs(i.ss.len() as u64)); b.extend(&i.ss); b.extend(&i.seq); }
    b.extend(cs(outs.len() as u64));
    for o in outs { b.extend(&o.amt); b.extend(cs(o.spk.len() as u64)); b.extend(&o.spk); }
    b.extend(lock);
    b
}
/// Weight (BIP-141).
pub fn weight(ins: &[I], outs: &[O]) -> u64 {
    let (base, all) = (tx_base(&[0; 4], ins, outs, &[0; 4]).len(), tx_bytes(&[0; 4], ins, outs, &[0; 4]).len());
    (3 * base + all) as u64
}
pub fn ser(tx: &psbt_v2::bitcoin::Transaction) -> Vec<u8> { psbt_v2::bitcoin::consensus::serialize(tx) }
