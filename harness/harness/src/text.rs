//! Text form of PSBTs and the silent-payment fields.
use std::fmt::Display;
use std::str::FromStr;

use psbt_v2::{v0, v2};

use crate::gen::{self, cs, kv, Kv};
use crate::pairs;
use crate::sym::{self, ck, cover};

// ---------- base64 (RFC 4648) ----------
fn digit(x: u8) -> u8 {
    let x = x & 63;
    let is = |lo: u8, hi: u8| ((x >= lo) & (x <= hi)) as u8;
    is(0, 25) * (b'A' + x) | is(26, 51) * (b'a'.wrapping_sub(26).wrapping_add(x)) | is(52, 61) * (b'0'.wrapping_sub(52).wrapping_add(x)) | is(62, 62) * b'+' | is(63, 63) * b'/'
}
fn encode(b: &[u8]) -> Vec<u8> {
    let mut r = vec![];
    for c in b.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { r.push(if i <= c.len() { digit((x >> (18 - 6 * i)) as u8) } else { b'=' }); }
    }
    r
}
/// Value of a digit, 64 for anything else (no branches).
fn value(c: u8) -> u8 {
    let within = |lo: u8, hi: u8, v: u8| ((c >= lo) & (c <= hi)) as u8 * (c.wrapping_sub(lo).wrapping_add(v));
    let any = ((c >= b'A') & (c <= b'Z')) | ((c >= b'a') & (c <= b'z')) | ((c >= b'0') & (c <= b'9')) | (c == b'+') | (c == b'/');
    within(b'A', b'Z', 0) | within(b'a', b'z', 26) | within(b'0', b'9', 52) | within(b'+', b'+', 62) | within(b'/', b'/', 63) | (!any as u8) << 6
}
/// The bytes of a canonical base64 text.
fn decode(t: &[u8]) -> Option<Vec<u8>> {
    if t.len() % 4 != 0 { return None; }
    let pad = if t.is_empty() || t[t.len() - 1] != b'=' { 0 } else if t[t.len() - 2] != b'=' { 1 } else { 2 };
    let n = t.len() - pad;
    let mut bad = false;
    let d: Vec<u8> = t[..n].iter().map(|c| { let v = value(*c); bad |= v == 64; v }).collect();
    let mut r = vec![];
    for q in d.chunks(4) {
        let x = q.iter().enumerate().fold(0u32, |x, (i, v)| x | ((*v & 63) as u32) << (18 - 6 * i));
        let bytes = [(x >> 16) as u8, (x >> 8) as u8, x as u8];
        r.extend(&bytes[..q.len() - 1]);
        if q.len() == 2 { bad |= bytes[1] != 0; }
        if q.len() == 3 { bad |= bytes[2] != 0; }
    }
    if bad { None } else { Some(r) }
}

/// A PSBT whose encoding has length 0, 1 or 2 modulo 3 according to `pad`, with symbolic scripts.
fn sample(v0: bool, pad: usize) -> Vec<u8> {
    let mut m = if v0 { vec![vec![gen::v0_tx(1, 1)], vec![], vec![]] } else { vec![gen::v2_global(1, 1), gen::v2_input(0), gen::v2_output(0)] };
    m[2].push(kv(0x01, &[], &sym::vec("script", 3 + pad)));
    gen::stream(&m)
}
fn show<T: Display>(p: &T) -> Vec<u8> { format!("{}", p).into_bytes() }
fn text(v0: bool, t: &[u8], b: Option<&[u8]>) {
    let s = unsafe { std::str::from_utf8_unchecked(t) };
    macro_rules! go { ($P:ty) => {
        match (<$P>::from_str(s), b.and_then(|b| <$P>::deserialize(b).ok())) {
            (Ok(p), Some(q)) => { ck(p == q, "the text is parsed to something else than its bytes"); cover("accepted"); }
            (Err(e), None) => { sym::seen(&e); cover("rejected") },
            (Ok(_), None) => sym::fail("a text is accepted that is not canonical base64 of a PSBT"),
            (Err(_), Some(_)) => sym::fail("the text of a PSBT is rejected"),
        }
    } }
    if v0 { go!(v0::Psbt) } else { go!(v2::Psbt) }
}

fn forms(v0: bool) {
    let pad = sym::choice("pad", 3) as usize;
    let b = sample(v0, pad);
    let (bin, t, hex) = if v0 {
        let p = match v0::Psbt::deserialize(&b) { Ok(p) => p, Err(_) => sym::fail("sample") };
        (p.serialize(), show(&p), None)
    } else {
        let p = match v2::Psbt::deserialize(&b) { Ok(p) => p, Err(_) => sym::fail("sample") };
        (p.serialize(), show(&p), Some(p.serialize_hex().into_bytes()))
    };
    let want = encode(&bin);
    ck(t.len() == want.len(), "the text has another length than base64 gives");
    for (a, b) in t.iter().zip(&want) { ck(a == b, "the text is not the base64 encoding of the binary form"); }
    if let Some(h) = hex {
        ck(h.len() == 2 * bin.len(), "the hexadecimal form has another length");
        let nib = |x: u8| b'0' + x + 39 * (x > 9) as u8;
        for (i, x) in bin.iter().enumerate() { ck((h[2 * i] == nib(x >> 4)) & (h[2 * i + 1] == nib(x & 15)), "the hexadecimal form is not that of the binary form"); }
    }
    text(v0, &want, Some(&bin));
    cover("forms");
}
/// The text of a PSBT with one character replaced by any ASCII character.
fn replaced(v0: bool, part: usize, parts: usize) {
    let mut m = if v0 { vec![vec![gen::v0_tx(1, 1)], vec![], vec![]] } else { vec![gen::v2_global(1, 1), gen::v2_input(0), gen::v2_output(0)] };
    m[2].push(kv(0x01, &[], &[7; 3][..1 + part % 3]));
    let mut t = encode(&gen::stream(&m));
    let n = t.len();
    let k = (n + parts - 1) / parts;
    let at = (part * k + sym::choice("at", k as u64) as usize).min(n - 1);
    t[at] = sym::u8("char");
    sym::assume(t[at] < 0x80);
    text(v0, &t, decode(&t).as_deref());
}
/// The last four characters replaced, and characters appended or removed.
fn tail(v0: bool) {
    let mut m = if v0 { vec![vec![gen::v0_tx(1, 1)], vec![], vec![]] } else { vec![gen::v2_global(1, 1), gen::v2_input(0), gen::v2_output(0)] };
    let pad = sym::choice("pad", 3) as usize;
    m[2].push(kv(0x01, &[], &[7; 3][..1 + pad]));
    let mut t = encode(&gen::stream(&m));
    match sym::choice("how", 4) {
        0 => { let n = t.len() - 4 + sym::choice("where", 3) as usize; for (i, c) in sym::vec("end", 2).into_iter().enumerate() { sym::assume(c < 0x80); t[n + i] = c; } }
        1 => { let k = 1 + sym::choice("cut", 5) as usize; t.truncate(t.len() - k); }
        2 => { let k = 1 + sym::choice("more", 4) as usize; for c in sym::vec("end", k) { sym::assume(c < 0x80); t.push(c); } }
        _ => { let c = sym::u8("start"); sym::assume(c < 0x80); t.insert(0, c); }
    }
    text(v0, &t, decode(&t).as_deref());
}

// ---------- silent payments ----------
#[cfg(feature = "sp")]
mod sp {
    use super::*;
    use crate::keys::{BADX, K33};
    /// Shares or proofs of a subset of two scan keys; at most one of them malformed.
    fn some(name: &str, t: u8, proof: bool, bad: usize) -> (Vec<Kv>, bool) {
        let set = sym::choice(name, 4);
        let mut r = vec![];
        let mut ok = true;
        for i in 0..2usize {
            if set >> i & 1 == 0 { continue; }
            let mut k = K33[1 + i].to_vec();
            let n = gen::name(name, i);
            let mut v = if proof { sym::vec(&n, 64) } else { K33[3 + i].to_vec() };
            if bad > 0 && r.is_empty() {
                ok = false;
                match bad {
                    1 => { v.pop(); }
                    2 => v.push(sym::u8("more")),
                    3 => { k.pop(); }
                    4 => k.push(sym::u8("keymore")),
                    5 => { k = vec![2]; k.extend(BADX); }
                    6 => k.clear(),
                    7 => v.clear(),
                    8 => k[0] = 4,
                    _ if proof => ok = true,
                    9 => { v = vec![3]; v.extend(BADX); }
                    _ => v[0] = 5,
                }
            }
            r.push(kv(t, &k, &v));
        }
        (r, ok)
    }
    fn mix(maps: &mut [Vec<Kv>], m: usize, l: Vec<Kv>) { for q in l { if sym::choice("front", 2) == 0 { maps[m].push(q) } else { maps[m].insert(0, q) } } }
    /// Shares and proofs in the global map and both inputs.
    pub fn shares() {
        let m = sym::shard() as usize % 3; // which map has the malformed field
        let mut maps = vec![gen::v2_global(2, 1), gen::v2_input(0), gen::v2_input(1), gen::v2_output(0)];
        let mut ok = true;
        let bad = sym::choice("bad", 11) as usize;
        let second = sym::shard() / 3 == 1;
        for i in 0..3usize {
            let (ts, tp) = if i == 0 { (7, 8) } else { (0x1d, 0x1e) };
            if i != m {
                let l = vec![kv(ts, &K33[1], &K33[2]), kv(tp, &K33[1], &sym::vec(&gen::name("other", i), 64))];
                match sym::choice(&gen::name("has", i), 4) { 0 => {} 1 => maps[i].extend(l), 2 => { ok = false; maps[i].push(l[0].clone()) } _ => { ok = false; maps[i].push(l[1].clone()) } }
                continue;
            }
            let (s, a) = some("shares", ts, false, if second { 0 } else { bad });
            let (p, b) = some("proofs", tp, true, if second { bad } else { 0 });
            ok &= a & b & (s.is_empty() == p.is_empty());
            if bad == 0 { mix(&mut maps, i, s); } else { maps[i].extend(s); }
            maps[i].extend(p);
        }
        both(&maps, ok, 2);
    }
    fn both(maps: &[Vec<Kv>], ok: bool, nin: usize) {
        match pairs::parse(false, &gen::stream(maps)) {
            Some(p) => {
                cover("accepted");
                sym::check(ok, "malformed or incomplete silent-payment fields are accepted");
                pairs::compare(&pairs::write(&p), &gen::with_defaults(maps, nin), nin, false);
            }
            None => { cover("rejected"); sym::check(!ok, "complete silent-payment fields are rejected"); }
        }
    }
    /// Address info, label and script of an output.
    pub fn output() {
        let mut maps = vec![gen::v2_global(1, 2), gen::v2_input(0), gen::v2_output(0), gen::v2_output(1)];
        let at = 2 + sym::choice("at", 2) as usize;
        let script = sym::choice("script", 2) == 1;
        let info = [None, Some(66usize), Some(65), Some(67), Some(0)][sym::choice("info", 5) as usize];
        let label = [None, Some(4usize), Some(3), Some(5), Some(0)][sym::choice("label", 5) as usize];
        if !script { maps[at].retain(|q| q.k[0] != 4); }
        let (ki, kl) = (sym::choice("infokey", 2) as usize, sym::choice("labelkey", 2) as usize);
        let mut l = vec![];
        if let Some(n) = info { l.push(kv(9, &sym::vec("ik", ki), &sym::vec("iv", n))); }
        if let Some(n) = label { l.push(kv(10, &sym::vec("lk", kl), &sym::vec("lv", n))); }
        mix(&mut maps, at, l);
        let good = info.map_or(true, |n| n == 66 && ki == 0) && label.map_or(true, |n| n == 4 && kl == 0);
        both(&maps, good && (label.is_none() || info.is_some()) && (script || info.is_some()), 1);
    }
    /// The proof type itself: only of 64 bytes.
    pub fn proof() {
        use psbt_v2::v2::DleqProof;
        let n = [64usize, 0, 1, 63, 65, 128][sym::choice("len", 6) as usize];
        let b = sym::vec("proof", n);
        let r = if sym::choice("by", 2) == 0 { DleqProof::try_from(&b[..]) } else { DleqProof::try_from(b.clone()) };
        match r {
            Ok(p) => { sym::check(n == 64, "a proof of another length is accepted"); ck(gen::same(p.as_bytes(), &b) & gen::same(p.as_ref(), &b), "the proof changes"); cover("accepted"); }
            Err(e) => { sym::check(n != 64 && e.got == n && e.expected == 64, "a proof is refused or the error wrong"); cover("rejected"); }
        }
    }
}
#[cfg(not(feature = "sp"))]
mod sp { pub fn shares() {} pub fn output() {} pub fn proof() {} }

harnesses! {
    fn h_text() {
        let (v0, s) = (sym::shard() % 2 == 1, sym::shard() / 2);
        match s { 0 => forms(v0), 1 => tail(v0), s => replaced(v0, s as usize - 2, 9) }
    }
    fn h_sp_shares() { let _ = cs(0); sp::shares() }
    fn h_sp_output() { sp::output() }
    fn h_sp_proof() { sp::proof() }
}
