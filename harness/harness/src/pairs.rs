//! One typed key-value pair with symbolic content in every map kind: accepted exactly when it has the
//! specified form, and kept byte for byte.
use psbt_v2::bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use psbt_v2::v0::Psbt as V0;
use psbt_v2::v2::Psbt;

use crate::gen::{self, kv, Kv};
use crate::keys::{BADX, K33, K65, XO};
use crate::sym::{self, ck, cover};

fn depth(name: &str) -> u8 { [0u8, 1, 2, 3, 127, 128, 129, 255][sym::choice(name, 8) as usize] }
/// Bytes together with whether they have the specified form.
pub struct V { pub b: Vec<u8>, pub ok: bool }
fn v(b: Vec<u8>, ok: bool) -> V { V { b, ok } }

#[derive(Clone, Copy, PartialEq)]
pub enum Kd { None, Pub, Pub33, Xo, XoLeaf, Xpub, H20, H32, Ctrl, Prop, Any }
#[derive(Clone, Copy, PartialEq)]
pub enum Va { U8, U32, U64, Time, Height, Script, Tx, TxOut, Witness, Ecdsa, Schnorr, Source, XpubSource, LeafSource, Xo, H32, Pre20r, Pre32, Pre20h, Pre32d, LeafScript, Tree, Pub33, Proof, Info, Any }

fn take(n: usize, name: &str) -> Vec<u8> { sym::vec(name, n) }
fn cat(a: &[&[u8]]) -> Vec<u8> { a.concat() }
/// A symbolic length picked from a list (one path each).
fn pick(name: &str, l: &[usize]) -> usize { l[sym::choice(name, l.len() as u64) as usize] }

/// Not DER, not minimal, a negative integer, an integer beyond the group order, trailing bytes.
const BADDER: [&[u8]; 5] = [
    &[0x31, 0x06, 0x02, 0x01, 0x05, 0x02, 0x01, 0x07],
    &[0x30, 0x07, 0x02, 0x02, 0x00, 0x05, 0x02, 0x01, 0x07],
    &[0x30, 0x06, 0x02, 0x01, 0x85, 0x02, 0x01, 0x07],
    &[0x30, 0x26, 0x02, 0x21, 0x00, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe,
      0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41, 0x02, 0x01, 0x07],
    &[0x30, 0x06, 0x02, 0x01, 0x05, 0x02, 0x01, 0x07, 0x00],
];

pub fn keydata(k: Kd) -> V {
    match k {
        Kd::None => { let n = pick("kdlen", &[0, 1, 2, 33]); v(take(n, "kd"), n == 0) }
        Kd::Any => v(take(pick("kdlen", &[0, 1, 5, 33]), "kd"), true),
        Kd::Pub | Kd::Pub33 => match sym::choice("kdshape", 9) {
            0 => v(K33[0].to_vec(), true),
            1 => v(K33[1].to_vec(), true),
            2 => { let mut b = K33[0]; b[0] = sym::u8("kdprefix"); let ok = (b[0] == 2) | (b[0] == 3); v(b.to_vec(), ok) }
            3 => v(K65[0].to_vec(), k == Kd::Pub),
            4 => { let mut b = K65[0].to_vec(); b[0] = sym::u8("kdprefix"); let ok = b[0] == 4; v(b, ok && k == Kd::Pub) }
            5 => v(take(pick("kdlen", &[0, 1, 32, 34, 64, 66]), "kd"), false),
            6 => v(cat(&[&[2], &BADX]), false),
            7 => v(cat(&[&K33[1], &take(1, "kdtrail")]), false),
            _ => { let mut b = K65[0].to_vec(); b[64] ^= 1; v(b, false) }
        },
        Kd::Xo => match sym::choice("kdshape", 4) {
            0 => v(XO[0].to_vec(), true),
            1 => v(XO[3].to_vec(), true),
            2 => v(BADX.to_vec(), false),
            _ => v(take(pick("kdlen", &[0, 1, 31, 33]), "kd"), false),
        },
        Kd::XoLeaf => match sym::choice("kdshape", 4) {
            0 => v(cat(&[&XO[1], &take(32, "leaf")]), true),
            1 => v(cat(&[&BADX, &take(32, "leaf")]), false),
            2 => v(cat(&[&XO[1], &take(pick("leaflen", &[0, 1, 31, 33]), "leaf")]), false),
            _ => v(take(pick("kdlen", &[0, 1, 31]), "kd"), false),
        },
        Kd::Xpub => {
            // version, depth, parent fingerprint, child number, chain code, key
            let ver = pick("xver", &[0, 1]);
            let ver: [u8; 4] = if ver == 0 { [0x04, 0x88, 0xb2, 0x1e] } else { [0x04, 0x35, 0x87, 0xcf] };
            match sym::choice("kdshape", 4) {
                0 => v(cat(&[&ver, &take(41, "xpub"), &K33[0]]), true),
                1 => { let x = sym::bytes::<4>("xverbytes");
                       let ok = (x == [0x04, 0x88, 0xb2, 0x1e]) | (x == [0x04, 0x35, 0x87, 0xcf]);
                       v(cat(&[&x, &take(41, "xpub"), &K33[0]]), ok) }
                2 => v(cat(&[&ver, &take(41, "xpub"), &[2], &BADX]), false),
                _ => { let n = pick("kdlen", &[0, 1, 77, 79]); let b = cat(&[&ver, &take(41, "xpub"), &K33[0], &[0]]); v(b[..n].to_vec(), false) }
            }
        }
        Kd::H20 => { let n = pick("kdlen", &[20, 0, 19, 21, 32]); v(take(n, "kd"), n == 20) }
        Kd::H32 => { let n = pick("kdlen", &[32, 0, 20, 31, 33]); v(take(n, "kd"), n == 32) }
        Kd::Ctrl => match sym::choice("kdshape", 3) {
            // one byte leaf version and parity, internal key, merkle path
            0 => { let c = sym::u8("ctrl"); let m = pick("path", &[0, 1, 2]); let ok = (c & 0xfe) != 0x50;
                   v(cat(&[&[c], &XO[2], &take(32 * m, "nodes")]), ok) }
            1 => { let n = pick("kdlen", &[0, 1, 32, 34, 64, 66]); let b = cat(&[&[0xc0], &XO[2], &take(33, "nodes")]); v(b[..n].to_vec(), false) }
            _ => v(cat(&[&[0xc1], &BADX]), false),
        },
        Kd::Prop => match sym::choice("kdshape", 3) {
            0 => { let n = pick("pfx", &[0, 1, 4]); let m = pick("pkd", &[0, 1, 3]);
                   v(cat(&[&[n as u8], &take(n, "prefix"), &take(1, "subtype"), &take(m, "pkey")]), true) }
            1 => { let n = pick("pfx", &[1, 4]); v(cat(&[&[n as u8], &take(n, "prefix")]), false) } // no subtype
            _ => { let n = pick("short", &[0, 1, 2]); // prefix longer than what follows
                   v(if n == 0 { vec![] } else { cat(&[&[3], &take(n - 1, "prefix")]) }, false) }
        },
    }
}

fn source(name: &str) -> V {
    let n = pick(name, &[4, 8, 12, 256, 0, 1, 3, 5, 7]);
    // (each step forks on its hardened bit, so long paths are concrete after the first)
    if n == 256 { return v(cat(&[&take(8, "src"), &[0x81; 248]]), true); }
    v(take(n, "src"), n >= 4 && n % 4 == 0)
}

/// Values; `kd` is the key data they belong to and `kdok` whether it is well-formed.
pub fn value(f: Va, kd: &[u8]) -> V {
    let fixed = |n: usize, l: &[usize]| { let k = pick("vlen", l); v(take(k, "val"), k == n) };
    match f {
        Va::Any | Va::Script => v(take(pick("vlen", &[0, 1, 7, 252, 253]), "val"), true),
        Va::U8 => fixed(1, &[1, 0, 2]),
        Va::U32 => fixed(4, &[4, 0, 3, 5, 8]),
        Va::U64 => fixed(8, &[8, 0, 4, 7, 9]),
        Va::H32 => fixed(32, &[32, 0, 31, 33]),
        Va::Proof => fixed(64, &[64, 0, 63, 65]),
        Va::Info => fixed(66, &[66, 0, 65, 67]),
        Va::Time | Va::Height => {
            let mut r = fixed(4, &[4, 0, 3, 5]);
            if r.ok {
                let n = u32::from_le_bytes([r.b[0], r.b[1], r.b[2], r.b[3]]);
                r.ok = if f == Va::Time { n >= gen::THRESHOLD } else { n < gen::THRESHOLD };
            }
            r
        }
        Va::Tx => {
            let full = cat(&[&take(4, "ver"), &[1], &take(36, "outpoint"), &[2], &take(2, "ssig"), &take(4, "seq"), &[2], &take(8, "amt"), &[1], &take(1, "spk"),
                             &take(8, "amtb"), &[0], &take(4, "lock")]);
            match sym::choice("vshape", 4) {
                0 => v(full, true),
                1 => { let n = full.len() - pick("cut", &[1, 4, 5, 20]); v(full[..n].to_vec(), false) }
                2 => v(cat(&[&full, &take(1, "trail")]), false),
                // with witness: marker, flag, one non-empty witness
                _ => v(cat(&[&full[..4], &[0, 1], &full[4..full.len() - 4], &[1, 2], &take(2, "wit"), &full[full.len() - 4..]]), true),
            }
        }
        Va::TxOut => {
            let n = pick("spklen", &[0, 2, 22]);
            let full = cat(&[&take(8, "amt"), &[n as u8], &take(n, "spk")]);
            match sym::choice("vshape", 5) {
                4 => v(cat(&[&full[..8], &[0xfd, 253, 0], &take(253, "spk")]), true),
                0 => v(full, true),
                1 => v(cat(&[&full, &take(1, "trail")]), false),
                2 => { let k = pick("vlen", &[0, 7, 8]); v(full[..k].to_vec(), false) }
                _ => v(cat(&[&full[..8], &[n as u8 + 1], &full[9..]]), false),
            }
        }
        Va::Witness => {
            let full = cat(&[&[2, 1], &take(1, "wa"), &[2], &take(2, "wb")]);
            match sym::choice("vshape", 7) {
                5 => v(cat(&[&[2, 0, 0xfd, 253, 0], &take(253, "wa")]), true),
                6 => v(cat(&[&[0xfd, 253, 0], &take(1, "wa")[..0], &[0; 252], &[1], &take(1, "wb")]), true),
                0 => v(full, true),
                1 => v(vec![0], true),
                2 => v(cat(&[&full, &take(1, "trail")]), false),
                3 => { let k = pick("vlen", &[0, 1, 2, 5]); v(full[..k].to_vec(), false) }
                _ => v(vec![1, 0], true),
            }
        }
        Va::Ecdsa => {
            let der = [0x30, 0x06, 0x02, 0x01, 0x05, 0x02, 0x01, 0x07];
            match sym::choice("vshape", 5) {
                0 => { let t = sym::u8("shtype"); let ok = (t == 1) | (t == 2) | (t == 3) | (t == 0x81) | (t == 0x82) | (t == 0x83); v(cat(&[&der, &[t]]), ok) }
                1 => v(vec![], false),
                2 => v(cat(&[&der[..7], &[1]]), false),
                3 => { let n = sym::choice("dershape", 5); v(cat(&[BADDER[n as usize], &[1]]), false) }
                _ => v(vec![sym::u8("shtype")], false),
            }
        }
        Va::Schnorr => match sym::choice("vshape", 3) {
            0 => v(take(64, "sig"), true),
            1 => { let t = sym::u8("shtype"); let ok = (t == 1) | (t == 2) | (t == 3) | (t == 0x81) | (t == 0x82) | (t == 0x83); v(cat(&[&take(64, "sig"), &[t]]), ok) }
            _ => v(take(pick("vlen", &[0, 1, 63, 66]), "sig"), false),
        },
        Va::Source | Va::XpubSource => source("vlen"),
        Va::LeafSource => {
            let n = pick("leaves", &[0, 1, 2]);
            match sym::choice("vshape", 4) {
                3 => { let n = pick("many", &[252, 253]); v(cat(&[&if n < 253 { vec![252] } else { vec![0xfd, 253, 0] }, &take(32, "leafs"), &vec![7; 32 * (n - 2)], &take(32, "leafs"), &take(8, "src")]), true) }
                0 => { let s = source("vlen"); v(cat(&[&[n as u8], &take(32 * n, "leafs"), &s.b]), s.ok) }
                1 => v(cat(&[&[n as u8 + 1], &take(32 * n, "leafs"), &take(4, "src")]), false),
                _ => v(vec![], false),
            }
        }
        Va::Xo => match sym::choice("vshape", 3) {
            0 => v(XO[4].to_vec(), true),
            1 => v(BADX.to_vec(), false),
            _ => v(take(pick("vlen", &[0, 31, 33]), "val"), false),
        },
        Va::Pub33 => match sym::choice("vshape", 5) {
            0 => v(K33[2].to_vec(), true),
            1 => v(K65[0].to_vec(), false),
            2 => v(cat(&[&[3], &BADX]), false),
            3 => { let mut b = K33[1]; b[0] = sym::u8("vprefix"); let ok = (b[0] == 2) | (b[0] == 3); v(b.to_vec(), ok) }
            _ => v(take(pick("vlen", &[0, 32, 34]), "val"), false),
        },
        Va::Pre20r | Va::Pre32 | Va::Pre20h | Va::Pre32d => {
            // concrete preimages against symbolic hashes; symbolic preimages are covered in h_preimage
            let n = pick("vlen", &[0, 1, 32, 33]);
            let b: Vec<u8> = (0..n).map(|i| i as u8 * 7 + 3).collect();
            let h: Vec<u8> = match f {
                Va::Pre20r => ripemd160::Hash::hash(&b).to_byte_array().to_vec(),
                Va::Pre32 => sha256::Hash::hash(&b).to_byte_array().to_vec(),
                Va::Pre20h => hash160::Hash::hash(&b).to_byte_array().to_vec(),
                _ => sha256d::Hash::hash(&b).to_byte_array().to_vec(),
            };
            let ok = gen::same(&h, kd);
            v(b, ok)
        }
        Va::LeafScript => {
            let n = pick("vlen", &[0, 1, 4, 254]);
            let b = take(n, "val");
            let ok = n > 0 && { let t = b[n - 1]; (t & 1 == 0) & (t != 0x50) };
            v(b, ok)
        }
        Va::Tree => {
            // Sibling hashes are sorted, so trees of several leaves have concrete leaves; a lone leaf is symbolic.
            let lv = |s: &str| { let t = [0xc0u8, 0x00, 0xfe, 0x50, 0xc1, 0x01][sym::choice(s, 6) as usize]; (t, (t & 1 == 0) & (t != 0x50)) };
            match sym::choice("vshape", 10) {
                9 => v(cat(&[&[0, 0xc4, 0xfd, 253, 0], &take(253, "sa")]), true),
                0 => { let t = sym::u8("lva"); v(cat(&[&[0, t, 2], &take(2, "sa")]), (t & 1 == 0) & (t != 0x50)) }
                1 => { let (a, oka) = lv("lva"); let (b, okb) = lv("lvb"); v(vec![1, a, 1, 0x51, 1, b, 0], oka & okb) }
                2 => v(vec![1, 0xc0, 1, 0x51, 2, 0xc0, 1, 0x52, 2, 0xc2, 0], true),
                3 => v(vec![2, 0xc0, 1, 0x51, 2, 0xc0, 1, 0x52, 1, 0xc0, 1, 0x53], true),
                4 => v(vec![], false),
                5 => { let d = depth("depth"); v(cat(&[&[d, 0xc0, 1], &take(1, "sa")]), d == 0) }
                6 => v(vec![1, 0xc0, 1, 0x51, 1, 0xc0, 1, 0x52, 1, 0xc0, 0], false),
                7 => { let full = [1, 0xc0, 1, 0x51, 1, 0xc0, 2, 0x51, 0x52]; let n = pick("vlen", &[1, 2, 3, 4, 5, 6, 7, 8]); v(full[..n].to_vec(), false) }
                _ => { let d = depth("depth"); let e = depth("depthb"); v(vec![d, 0xc0, 1, 0x51, e, 0xc0, 1, 0x52], (d == 1) & (e == 1)) }
            }
        }
    }
}

/// The specified form of every known key type (BIP-174, 370, 371, 375); `None`: unknown type, any form.
pub fn form(map: u8, t: u8) -> (Kd, Va) {
    match (map, t) {
        (0, 0x01) => (Kd::Xpub, Va::XpubSource),
        (0, 0x03) => (Kd::None, Va::U32),
        (0, 0x06) => (Kd::None, Va::U8),
        #[cfg(feature = "sp")]
        (0, 0x07) | (1, 0x1d) => (Kd::Pub33, Va::Pub33),
        #[cfg(feature = "sp")]
        (0, 0x08) | (1, 0x1e) => (Kd::Pub33, Va::Proof),
        (1, 0x00) => (Kd::None, Va::Tx),
        (1, 0x01) => (Kd::None, Va::TxOut),
        (1, 0x02) => (Kd::Pub, Va::Ecdsa),
        (1, 0x03) => (Kd::None, Va::U32),
        (1, 0x04) | (1, 0x05) | (1, 0x07) | (2, 0x00) | (2, 0x01) => (Kd::None, Va::Script),
        (1, 0x06) | (2, 0x02) => (Kd::Pub33, Va::Source),
        (1, 0x08) => (Kd::None, Va::Witness),
        (1, 0x0a) => (Kd::H20, Va::Pre20r),
        (1, 0x0b) => (Kd::H32, Va::Pre32),
        (1, 0x0c) => (Kd::H20, Va::Pre20h),
        (1, 0x0d) => (Kd::H32, Va::Pre32d),
        (1, 0x10) => (Kd::None, Va::U32),
        (1, 0x11) => (Kd::None, Va::Time),
        (1, 0x12) => (Kd::None, Va::Height),
        (1, 0x13) => (Kd::None, Va::Schnorr),
        (1, 0x14) => (Kd::XoLeaf, Va::Schnorr),
        (1, 0x15) => (Kd::Ctrl, Va::LeafScript),
        (1, 0x16) | (2, 0x07) => (Kd::Xo, Va::LeafSource),
        (1, 0x17) | (2, 0x05) => (Kd::None, Va::Xo),
        (1, 0x18) => (Kd::None, Va::H32),
        (2, 0x06) => (Kd::None, Va::Tree),
        #[cfg(feature = "sp")]
        (2, 0x09) => (Kd::None, Va::Info),
        #[cfg(feature = "sp")]
        (2, 0x0a) => (Kd::None, Va::U32),
        (_, 0xfc) => (Kd::Prop, Va::Any),
        _ => (Kd::Any, Va::Any),
    }
}

/// Optional key types with their own form, plus sample unknown types.
const TYPES: [&[u8]; 3] = [
    &[0x01, 0x03, 0x06, 0x07, 0x08, 0xfc, 0x09, 0xfa, 0xff],
    &[0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1d, 0x1e, 0xfc, 0xfb, 0xff],
    &[0x00, 0x01, 0x02, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0xfc, 0xfb, 0xff],
];
pub const NTYPES: u64 = 9 + 29 + 12;



/// The same for v0 maps (BIP-174, 371); `false`: refused in any form.
pub fn form0(map: u8, t: u8) -> (Kd, Va, bool) {
    match (map, t) {
        (0, 0x02..=0x06) | (1, 0x0e..=0x12) | (2, 0x03) | (2, 0x04) => (Kd::Any, Va::Any, false),
        (0, 0x07) | (0, 0x08) | (1, 0x1d) | (1, 0x1e) | (2, 0x09) | (2, 0x0a) => (Kd::Any, Va::Any, true),
        _ => { let (k, v) = form(map, t); (k, v, true) }
    }
}
const TYPES0: [&[u8]; 3] = [
    &[0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0xfc, 0x09, 0xfa, 0xff],
    &[0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1d, 0x1e, 0xfc, 0xfb, 0xff],
    &[0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0xfc, 0xfb, 0xff],
];
pub const NTYPES0: u64 = 12 + 31 + 14;

fn nth(l: &[&[u8]; 3], mut s: u64) -> (u8, u8) {
    for (m, l) in l.iter().enumerate() {
        if s < l.len() as u64 { return (m as u8, l[s as usize]); }
        s -= l.len() as u64;
    }
    (0, 0xff)
}

/// A stream of one global, one input and one output map with `extra` put at one of three places in map `m`.
pub fn place(v0: bool, m: u8, extra: &[Kv], at: u64) -> Vec<Vec<Kv>> {
    let mut maps = if v0 { vec![vec![gen::v0_tx(1, 1)], vec![kv(0xf0, &[1], &[2])], vec![kv(0xf0, &[1], &[2])]] }
        else { vec![gen::v2_global(1, 1), gen::v2_input(0), gen::v2_output(0)] };
    let n = maps[m as usize].len();
    let i = match at { 0 => n, 1 => 0, _ => 1 };
    for (j, e) in extra.iter().enumerate() { maps[m as usize].insert(i + j, e.clone()); }
    maps
}

pub enum P { V2(Psbt), V0(V0) }
pub fn parse(v0: bool, b: &[u8]) -> Option<P> {
    if v0 { V0::deserialize(b).map_err(|e| sym::seen(&e)).ok().map(P::V0) } else { Psbt::deserialize(b).map_err(|e| sym::seen(&e)).ok().map(P::V2) }
}
pub fn write(p: &P) -> Vec<u8> { match p { P::V2(p) => p.serialize(), P::V0(p) => p.serialize() } }

#[derive(Clone, Copy, PartialEq)]
pub enum Mode { Form, Kept }

/// The serialized PSBT `w` consists of exactly the maps `want`.
pub fn compare(w: &[u8], want: &[Vec<Kv>], nin: usize, tree: bool) {
    if !tree { gen::same_stream(w, want, "a key-value pair was lost, added or altered"); return; }
    // The children of a tap tree node have no order: compare the leaves and the Merkle root.
    let got = match gen::maps(w) { Some(g) => g, None => sym::fail("serialized stream") };
    ck(got.len() == want.len(), "a map was lost");
    let f = |m: &[Kv]| -> Vec<Kv> { m.iter().filter(|p| p.k != [6]).cloned().collect() };
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if i <= nin { gen::same_map(g, w, "a key-value pair was lost, added or altered"); continue; }
        gen::same_map(&f(g), &f(w), "a key-value pair was lost, added or altered");
        match (g.iter().find(|p| p.k == [6]), w.iter().find(|p| p.k == [6])) {
            (Some(g), Some(w)) => match (gen::leaves(&g.v), gen::leaves(&w.v)) {
                (Some(a), Some(b)) => {
                    gen::same_map(&a, &b, "tap tree leaves were lost, added or altered");
                    ck(gen::same(&gen::root(&a), &gen::root(&b)), "the tap tree has another Merkle root");
                }
                _ => sym::fail("a malformed tap tree was accepted or written"),
            },
            (None, None) => {}
            _ => sym::fail("the tap tree was lost"),
        }
    }
}

/// Decodes `maps`: accepted iff `ok` (Form), and then everything is kept (Kept).
pub fn decide(v0: bool, maps: &[Vec<Kv>], ok: bool, nin: usize, mode: Mode, tree: bool) {
    let b = gen::stream(maps);
    match parse(v0, &b) {
        Some(p) => {
            cover("accepted");
            if mode == Mode::Form { ck(ok, "a malformed pair was accepted"); return; }
            let want = if v0 { maps.to_vec() } else { gen::with_defaults(maps, nin) };
            compare(&write(&p), &want, nin, tree);
        }
        None => { cover("rejected"); if mode == Mode::Form { ck(!ok, "a well-formed pair was rejected"); } }
    }
}

/// Silent-payment shares and proofs come together, a label with address info: the pair needed beside one of type `t`.
#[allow(unused_variables)]
pub fn partner(v0: bool, m: u8, t: u8) -> Option<Kv> {
    #[cfg(feature = "sp")]
    if !v0 {
        match (m, t) {
            (0, 0x07) | (1, 0x1d) => return Some(kv(t + 1, &K33[5], &[9; 64])),
            (0, 0x08) | (1, 0x1e) => return Some(kv(t - 1, &K33[5], &K33[4])),
            (2, 0x0a) => return Some(kv(9, &[], &[9; 66])),
            _ => {}
        }
    }
    None
}

fn pair(v0: bool, mode: Mode) {
    let (m, t) = nth(if v0 { &TYPES0 } else { &TYPES }, sym::shard());
    let (kd, va, allowed) = if v0 { form0(m, t) } else { let (k, v) = form(m, t); (k, v, true) };
    let k = keydata(kd);
    let val = value(va, &k.b);
    let at = sym::choice("at", 3);
    let mut extra = vec![kv(t, &k.b, &val.b)];
    extra.extend(partner(v0, m, t));
    decide(v0, &place(v0, m, &extra, at), k.ok & val.ok & allowed, 1, mode, va == Va::Tree);
}

harnesses! {
    fn h_pair_form() { pair(false, Mode::Form) }
    fn h_pair_kept() { pair(false, Mode::Kept) }
    fn h_pair0_form() { pair(true, Mode::Form) }
    fn h_pair0_kept() { pair(true, Mode::Kept) }
}
pub fn type_of(s: u64) -> (u8, u8) { nth(&TYPES, s) }
pub fn type0_of(s: u64) -> (u8, u8) { nth(&TYPES0, s) }
