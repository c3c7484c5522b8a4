//! Signing, for v2 and v0.
use std::collections::{BTreeMap, HashMap};

use psbt_v2::bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, Xpriv};
use psbt_v2::bitcoin::hashes::{hash160, sha256, sha512, Hash, HashEngine, Hmac, HmacEngine};
use psbt_v2::bitcoin::key::{Keypair, Secp256k1, TapTweak};
use psbt_v2::bitcoin::taproot::{self, TapLeafHash, TapNodeHash};
use psbt_v2::bitcoin::secp256k1::{self, All, Message, Scalar, SecretKey, Signing};
use psbt_v2::bitcoin::sighash::{EcdsaSighashType, TapSighashType};
use psbt_v2::bitcoin::{ecdsa, Network, PrivateKey, PublicKey, ScriptBuf, XOnlyPublicKey};
use psbt_v2::{v2, PsbtSighashType};

use crate::gen::{self, cs, name, O};
use crate::roles;
use crate::sighash::{self, le64, prescribed, spend, wpkh, Spend, SIX};
use crate::sym::{self, cover};

/// Private key `n` (times the generator is the public key `K33[n - 1]` for small n).
pub fn sk(n: u8) -> PrivateKey {
    let mut b = [0; 32];
    b[31] = n;
    PrivateKey::new(SecretKey::from_slice(&b).unwrap(), Network::Bitcoin)
}
/// What a key source says about a listed key.
#[derive(Clone, Copy, PartialEq)]
enum Say { No, Refuse, ByPath, ByKey, Other }
/// A key source with any answers: `keys[i]` is (fingerprint, key number, what it says).
struct Src { keys: Vec<(Fingerprint, u8, Say)> }
impl Src {
    fn path(&self, f: &Fingerprint) -> Result<Option<PrivateKey>, ()> {
        match self.keys.iter().find(|x| x.0 == *f) {
            Some((_, n, Say::ByPath)) => Ok(Some(sk(*n))),
            Some((_, _, Say::Other)) => Ok(Some(sk(9))),
            Some((_, _, Say::Refuse)) => Err(()),
            _ => Ok(None),
        }
    }
    fn key(&self, k: &PublicKey) -> Result<Option<PrivateKey>, ()> {
        match self.keys.iter().find(|x| pk(x.1) == *k) { Some((_, n, Say::ByKey)) => Ok(Some(sk(*n))), Some((_, _, Say::Refuse)) => Err(()), _ => Ok(None) }
    }
    fn with(&self, n: u8) -> Option<u8> {
        match self.keys.iter().find(|x| x.1 == n) { Some((_, _, Say::ByPath | Say::ByKey)) => Some(n), Some((_, _, Say::Other)) => Some(9), _ => None }
    }
}
macro_rules! get_key { ($v:ident) => {
    impl $v::GetKey for Src {
        type Error = ();
        fn get_key<C: Signing>(&self, r: $v::KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, ()> {
            match r { $v::KeyRequest::Bip32((f, _)) => self.path(&f), $v::KeyRequest::Pubkey(k) => self.key(&k), _ => Ok(None) }
        }
    }
} }
use psbt_v2::v0::bitcoin as v0b;
get_key!(v2);
get_key!(v0b);

const G9: [u8; 33] = [0x03, 0xac, 0xd4, 0x84, 0xe2, 0xf0, 0xc7, 0xf6, 0x53, 0x09, 0xad, 0x17, 0x8a, 0x9f, 0x55, 0x9a, 0xbd, 0xe0, 0x97, 0x96, 0x97, 0x4c, 0x57, 0xe7, 0x14, 0xc3, 0x5f, 0x11, 0x0d, 0xfc, 0x27, 0xcc, 0xbe];
/// Public key number `n`, as bytes known beforehand.
pub fn pk(n: u8) -> PublicKey {
    let b: &[u8] = if n == 9 { &G9 } else { &crate::keys::K33[n as usize - 1] };
    PublicKey::from_slice(b).unwrap()
}
fn fp(n: u8) -> Fingerprint { Fingerprint::from([n, 0, 0, n]) }

/// One input to be signed.
struct Todo { s: Spend, amount: Vec<u8>, funded: bool, ty: Option<u32>, listed: Vec<u8> }
const KINDS: [u64; 10] = [0, 3, 5, 6, 7, 9, 10, 11, 15, 12];
pub fn ecdsa_sig(secp: &Secp256k1<All>, hash: &[u8], n: u8, t: u8) -> ecdsa::Signature {
    let m = Message::from_digest(crate::fields::a32(hash));
    ecdsa::Signature { signature: secp.sign_ecdsa(&m, &sk(n).inner), sighash_type: EcdsaSighashType::from_standard(t as u32).unwrap() }
}
fn old_sig() -> ecdsa::Signature {
    ecdsa::Signature { signature: secp256k1::ecdsa::Signature::from_compact(&[7; 64]).unwrap(), sighash_type: EcdsaSighashType::NonePlusAnyoneCanPay }
}

fn sign(is0: bool) {
    let secp = Secp256k1::new();
    let kind = sym::shard();
    let nin = 1 + sym::choice("inputs", 2) as usize;
    let at = sym::choice("at", nin as u64) as usize;
    let nout = if sym::tier() > 0 { sym::choice("outputs", 3) as usize } else { 1 };
    let c = sighash::case(nin, nout);
    let mut todo: Vec<Todo> = vec![];
    for i in 0..nin {
        if i == at {
            let s = spend(KINDS[kind as usize % KINDS.len()]);
            let t = sym::choice("type", 3);
            let ty = match t { 0 => None, 1 => Some(SIX[sym::choice("std", 6) as usize] as u32), _ => Some(sym::choice("bad", 2) as u32 * 0x80) };
            let listed = match sym::choice("listed", 3) { 0 => vec![], 1 => vec![1], _ => vec![1, 2] };
            todo.push(Todo { s, amount: sym::vec("amount", 8), funded: kind < KINDS.len() as u64, ty, listed });
        } else {
            todo.push(Todo { s: spend(9), amount: sym::vec("amount2", 8), funded: true, ty: Some(0x82), listed: vec![3] });
        }
    }
    let says = |n: &str, c| match sym::choice(n, c) { 0 => Say::No, 1 => Say::ByPath, 2 => Say::ByKey, 3 => Say::Other, _ => Say::Refuse };
    let mut src = Src { keys: vec![] };
    if todo[at].listed.len() > 0 { src.keys.push((fp(1), 1, says("first", 5))); }
    if todo[at].listed.len() > 1 { src.keys.push((fp(2), 2, says("second", 2))); }
    if nin > 1 { src.keys.push((fp(3), 3, says("third", 2))); }

    // what is to be expected
    let mut sigs: Vec<Vec<(u8, ecdsa::Signature)>> = vec![];
    let mut errs: Vec<Option<bool>> = vec![]; // Some(true): an error; None: either
    for (i, t) in todo.iter().enumerate() {
        let n = t.ty.unwrap_or(1);
        let std = n < 256 && SIX.contains(&(n as u8));
        let found: Vec<u8> = t.listed.iter().filter_map(|k| src.with(*k)).collect();
        let what = KINDS[kind as usize % KINDS.len()];
        let known = t.funded && what != 15 && what != 12 || i != at;
        match (&t.s.how, t.funded && std) {
            (Some(how), true) => {
                let h = prescribed(how, &c.ver, &c.ins, &c.outs, &c.lock, i, &t.amount, n as u8);
                sigs.push(found.iter().map(|k| (*k, ecdsa_sig(&secp, &h, *k, n as u8))).collect());
                errs.push(Some(false));
            }
            _ => {
                sigs.push(vec![]);
                errs.push(Some(if known { !found.is_empty() } else { is0 && (what != 12 || !t.funded) }));
            }
        }
    }
    let failing = errs.iter().any(|e| *e == Some(true));
    // the PSBT
    macro_rules! fill { ($p:ident, $d:ident) => {
        for (x, t) in $p.inputs.iter_mut().zip(&todo) {
            if t.funded { x.witness_utxo = Some(gen::txout(le64(&t.amount), &t.s.spk)); }
            x.sighash_type = t.ty.map(PsbtSighashType::from_u32);
            x.redeem_script = t.s.redeem.clone().map(ScriptBuf::from);
            x.witness_script = t.s.wscript.clone().map(ScriptBuf::from);
            for k in &t.listed { x.$d.insert(pk(*k).inner, (fp(*k), DerivationPath::default())); }
            x.partial_sigs.insert(pk(5), old_sig());
            if t.listed.len() > 1 { x.partial_sigs.insert(pk(1), old_sig()); }
        }
    } }
    let used_keys = |i: usize| -> Vec<PublicKey> { sigs[i].iter().map(|(k, _)| pk(*k)).collect() };
    if is0 {
        let mut p = sighash::to0(&c);
        fill!(p, bip32_derivation);
        let mut want = p.clone();
        for (x, s) in want.inputs.iter_mut().zip(&sigs) { for (k, s) in s { x.partial_sigs.insert(pk(*k), *s); } }
        let r = p.sign(&src, &secp);
        sym::check(r.is_err() == failing, "the result does not tell whether all inputs could be signed");
        let (used, errors) = match r { Ok(u) => (u, BTreeMap::new()), Err(x) => { x.1.values().for_each(|e| sym::look(e)); x } };
        report(nin, &errs, |i| errors.contains_key(&i), |i| match used.get(&i) { None => Some(vec![]), Some(v0b::SigningKeys::Ecdsa(k)) => Some(k.clone()), Some(v0b::SigningKeys::Schnorr(k)) if k.is_empty() && i == at && kind == 9 => Some(vec![]), _ => None }, &used_keys);
        sym::check(p == want, "the PSBT is not the old one with exactly the expected signatures");
    } else {
        let mut p = sighash::to2(&c);
        fill!(p, bip32_derivations);
        let flags = sym::u8("flags");
        p.global.tx_modifiable_flags = flags;
        let mut want = p.clone();
        let mut f = flags;
        for (i, s) in sigs.iter().enumerate() { for (k, s) in s { want.inputs[i].partial_sigs.insert(pk(*k), *s); f = roles::after(f, s.sighash_type as u8); } }
        want.global.tx_modifiable_flags = f;
        let s = match v2::Signer::new(p) { Ok(s) => s, Err(_) => sym::fail("signer refused") };
        match s.sign(&src, &secp) {
            Ok((p, used)) => {
                sym::check(!failing, "inputs could not be signed but no error is reported");
                report(nin, &errs, |_| false, |i| Some(used.get(&i).cloned().unwrap_or_default()), &used_keys);
                sym::ck(p.global.tx_modifiable_flags == f, "the modifiable flags are not what BIP-370 demands after these signatures");
                sym::check(p == want, "the PSBT is not the old one with exactly the expected signatures");
            }
            Err((used, errors)) => {
                errors.values().for_each(|e| sym::look(e));
                sym::check(failing, "an error although all inputs could be signed");
                report(nin, &errs, |i| errors.contains_key(&i), |i| Some(used.get(&i).cloned().unwrap_or_default()), &used_keys);
            }
        }
    }
    if sigs.iter().any(|s| !s.is_empty()) { cover("signed"); } else { cover("nothing to sign"); }
    if failing { cover("error"); }
}
fn report(n: usize, errs: &[Option<bool>], err: impl Fn(usize) -> bool, used: impl Fn(usize) -> Option<Vec<PublicKey>>, want: &dyn Fn(usize) -> Vec<PublicKey>) {
    for i in 0..n {
        if let Some(e) = errs[i] { sym::check(err(i) == e, if e { "an input that cannot be signed is not reported" } else { "an error is reported for an input without one" }); }
        match used(i) { Some(k) => sym::check(k == want(i), "the keys reported as used are not those that signed"), None => sym::fail("keys of another kind are reported as used") }
    }
}


/// Extended private key number `n` (with any depth, parent and child number: they say nothing about the key itself).
fn xpriv(n: u8, parent: [u8; 4]) -> Xpriv {
    Xpriv {
        network: psbt_v2::bitcoin::NetworkKind::Main,
        depth: n,
        parent_fingerprint: Fingerprint::from(parent),
        child_number: ChildNumber::from_normal_idx(n as u32).unwrap(),
        private_key: sk(n).inner,
        chain_code: [n; 32].into(),
    }
}
/// The fingerprint of extended key `n`: the start of the hash of its public key.
fn print(n: u8) -> [u8; 4] {
    let h = hash160::Hash::hash(&crate::keys::K33[n as usize - 1]).to_byte_array();
    [h[0], h[1], h[2], h[3]]
}
/// BIP-32 derivation of a private child key, from plain hashes and curve arithmetic.
fn child(k: (SecretKey, Vec<u8>), i: u32) -> (SecretKey, Vec<u8>) {
    let secp = Secp256k1::new();
    let mut e = HmacEngine::<sha512::Hash>::new(&k.1);
    if i >> 31 == 1 { e.input(&[0]); e.input(&k.0.secret_bytes()); } else { e.input(&secp256k1::PublicKey::from_secret_key(&secp, &k.0).serialize()); }
    e.input(&i.to_be_bytes());
    let h = Hmac::<sha512::Hash>::from_engine(e).to_byte_array();
    let t = Scalar::from_be_bytes(crate::fields::a32(&h[..32])).unwrap();
    (k.0.add_tweak(&t).unwrap(), h[32..].to_vec())
}
const PATHS: [&[u32]; 5] = [&[], &[0], &[0x8000_0000], &[7, 0x8000_0001], &[0x7fff_ffff, 0, 1]];
macro_rules! lookup { ($v:ident, $src:expr, $keys:expr, $map:expr) => { {
    let secp = Secp256k1::new();
    let keys: Vec<u8> = $keys;
    match sym::choice("request", 2) {
        0 => {
            let f = sym::bytes::<4>("fingerprint");
            let p = PATHS[sym::choice("path", 5) as usize];
            let d: DerivationPath = p.iter().map(|x| ChildNumber::from(*x)).collect::<Vec<_>>().into();
            let got = $src.get_key($v::KeyRequest::Bip32((Fingerprint::from(f), d)), &secp).map_err(|e| sym::look(&e)).ok().flatten();
            let mut want = None;
            if !$map { for n in keys { if gen::same(&f, &print(n)) { want = Some(p.iter().fold((sk(n).inner, vec![n; 32]), |k, i| child(k, *i)).0); } } }
            match (got, want) {
                (Some(g), Some(w)) => { sym::check(g.inner == w && g.compressed, "another key than the one at the requested path"); cover("found"); }
                (None, None) => cover("not found"),
                (Some(_), None) => sym::fail("a key although no stored key has the requested fingerprint"),
                (None, Some(_)) => sym::fail("the requested key is not found"),
            }
        }
        _ => {
            let n = sym::choice("key", 6) as u8 + 1;
            let got = $src.get_key($v::KeyRequest::Pubkey(pk(n)), &secp).map_err(|e| sym::look(&e)).ok().flatten();
            let want = $map && keys.contains(&n);
            match got {
                Some(g) => { sym::check(want && g.inner == sk(n).inner, "another key than the one stored for the requested public key"); cover("found"); }
                None => { sym::check(!want, "the requested key is not found"); cover("not found"); }
            }
        }
    }
} } }
macro_rules! lookups { ($v:ident) => { {
    let own = || match sym::choice("parent", 3) { 0 => [0; 4], 1 => print(2), _ => sym::bytes("parent4") };
    match sym::shard() % 3 {
        0 => { let k = xpriv(1, own()); lookup!($v, k, vec![1], false) }
        n => {
            let ks: Vec<u8> = [vec![], vec![3], vec![1, 4], vec![5, 2, 6]][sym::choice("size", 4) as usize].clone();
            let it = ks.iter().map(|n| (pk(*n), sk(*n)));
            if n == 1 { let s: BTreeMap<PublicKey, PrivateKey> = it.collect(); lookup!($v, s, ks, true) } else { let s: HashMap<PublicKey, PrivateKey> = it.collect(); lookup!($v, s, ks, true) }
        }
    }
} } }


pub fn sha(b: &[u8]) -> Vec<u8> { sha256::Hash::hash(b).to_byte_array().to_vec() }
pub fn tagged(tag: &str, b: &[u8]) -> Vec<u8> { let t = sha(tag.as_bytes()); sha(&[&t[..], &t, b].concat()) }
/// The BIP-341 signature hash of input `i` (`None` when there is none); `spent` are the spent outputs.
pub fn prescribed_tr(c: &sighash::Case, spent: &[O], i: usize, ty: u8, leaf: Option<&[u8]>) -> Option<Vec<u8>> {
    let (acp, base) = (ty & 0x80 != 0, if ty == 0 { 1 } else { ty & 3 });
    let spk = |o: &O| [&cs(o.spk.len() as u64)[..], &o.spk].concat();
    let out = |o: &O| [&o.amt[..], &spk(o)].concat();
    let mut m = [&[0, ty][..], &c.ver, &c.lock].concat();
    if !acp {
        m.extend(sha(&c.ins.iter().flat_map(|x| [&x.txid[..], &x.vout].concat()).collect::<Vec<u8>>()));
        m.extend(sha(&spent.iter().flat_map(|x| x.amt.clone()).collect::<Vec<u8>>()));
        m.extend(sha(&spent.iter().flat_map(spk).collect::<Vec<u8>>()));
        m.extend(sha(&c.ins.iter().flat_map(|x| x.seq.clone()).collect::<Vec<u8>>()));
    }
    if base == 1 { m.extend(sha(&c.outs.iter().flat_map(out).collect::<Vec<u8>>())); }
    m.push(if leaf.is_some() { 2 } else { 0 });
    let x = &c.ins[i];
    if acp { m.extend([&x.txid[..], &x.vout, &out(&spent[i]), &x.seq].concat()); } else { m.extend((i as u32).to_le_bytes()); }
    if base == 3 { m.extend(sha(&out(c.outs.get(i)?))); }
    if let Some(l) = leaf { m.extend_from_slice(l); m.extend([0, 0xff, 0xff, 0xff, 0xff]); }
    Some(tagged("TapSighash", &m))
}
pub fn xo(n: u8) -> XOnlyPublicKey { pk(n).inner.x_only_public_key().0 }
const SEVEN: [u8; 7] = [0, 1, 2, 3, 0x81, 0x82, 0x83];
/// Two inputs: a taproot one with up to two listed keys, and another one. Shards: the sighash type of the former.
fn sign_tr() {
    let secp = Secp256k1::new();
    let shard = sym::shard();
    let ty: Option<u32> = match shard { 0 => None, n @ 1..=7 => Some(SEVEN[n as usize - 1] as u32), _ => { let t = [4, 0x101, 0x80, 0x84, 0xff][sym::choice("bad", if sym::tier() > 0 { 5 } else { 2 }) as usize]; Some(t) } };
    let at = sym::choice("at", 2) as usize;
    let nout = 1 + at * sym::choice("outputs", 2) as usize;
    let c = sighash::case(2, nout);
    let mut spent = vec![];
    for i in 0..2 { spent.push(O { amt: sym::vec(&name("amount", i), 8), spk: if i == at { [&[0x51, 32][..], &sym::vec("out", 32)].concat() } else { wpkh(&sym::vec("h20", 20)) } }); }
    let other = sym::choice("other", 2) == 1; // whether the other input has its UTXO
    let leaf = [sym::vec("leaf", 32), vec![0x33; 32]]; // in this order in the map of signatures or not
    sym::assume(leaf[0][0] != 0x33);
    let full = sym::tier() > 0;
    let scripts = full || sym::choice("scripts", 2) == 1;
    let keys = full || !scripts;
    let root = if keys && sym::choice("root", 2) == 1 { Some(TapNodeHash::from_byte_array([0x44; 32])) } else { None };
    let internal = [None, Some(1u8), Some(4)][sym::choice("internal", if keys { 3 } else { 2 }) as usize];
    let first = if full { sym::choice("first", 6) } else { sym::choice("first", 3) + if keys { 0 } else { 3 } };
    let second = if scripts { sym::choice("second", 3) } else { 0 };
    let had = if full { sym::choice("had", 3) } else { sym::choice("had", 2) * if keys { 1 } else { 2 } };
    let mut src = Src { keys: vec![] };
    let mut listed: Vec<(u8, Vec<usize>)> = vec![];
    if first > 0 { listed.push((1, [vec![], vec![], vec![0], vec![0, 1], vec![0]][first as usize - 1].clone())); src.keys.push((fp(1), 1, [Say::ByPath, Say::No, Say::ByPath, Say::ByPath, Say::Refuse][first as usize - 1])); }
    if second > 0 { listed.push((2, vec![0])); src.keys.push((fp(2), 2, [Say::ByPath, Say::No][second as usize - 1])); }
    let lh = |n: usize| TapLeafHash::from_byte_array(crate::fields::a32(&leaf[n]));

    let mut p = sighash::to0(&c);
    for i in 0..2 { if i == at || other { p.inputs[i].witness_utxo = Some(gen::txout(le64(&spent[i].amt), &spent[i].spk)); } }
    {
        let x = &mut p.inputs[at];
        x.sighash_type = ty.map(PsbtSighashType::from_u32);
        x.tap_internal_key = internal.map(xo);
        x.tap_merkle_root = root;
        for (k, l) in &listed { x.tap_key_origins.insert(xo(*k), (l.iter().map(|n| lh(*n)).collect(), (fp(*k), DerivationPath::default()))); }
        if had == 1 { x.tap_key_sig = Some(old_tap()); }
        if had == 2 { x.tap_script_sigs.insert((xo(1), lh(0)), old_tap()); }
    }
    let n = ty.unwrap_or(0);
    let valid = n < 256 && SEVEN.contains(&(n as u8));
    let mut want = p.clone();
    let mut used = vec![];
    let mut failed = false;
    for (k, l) in &listed {
        if src.with(*k) != Some(*k) { continue; }
        let pair = Keypair::from_secret_key(&secp, &sk(*k).inner);
        let mut todo: Vec<(Option<usize>, Keypair)> = vec![];
        if l.is_empty() {
            if internal == Some(*k) && had != 1 { todo.push((None, pair.tap_tweak(&secp, root).to_keypair())); }
        } else {
            for n in l { if !(had == 2 && *k == 1 && *n == 0) { todo.push((Some(*n), pair)); } }
        }
        if !todo.is_empty() { used.push(xo(*k)); }
        for (l, pair) in todo {
            let h = if valid && (other || n & 0x80 != 0) { prescribed_tr(&c, &spent, at, n as u8, l.map(|l| &leaf[l][..])) } else { None };
            match h {
                None => failed = true,
                Some(h) => {
                    let m = Message::from_digest(crate::fields::a32(&h));
                    let s = taproot::Signature { signature: secp.sign_schnorr_no_aux_rand(&m, &pair), sighash_type: TapSighashType::from_consensus_u8(n as u8).unwrap() };
                    match l { None => want.inputs[at].tap_key_sig = Some(s), Some(l) => { want.inputs[at].tap_script_sigs.insert((xo(*k), lh(l)), s); } }
                }
            }
        }
    }
    if failed { want.inputs[at] = p.inputs[at].clone(); used.clear(); }
    let r = p.sign(&src, &secp);
    sym::check(r.is_ok() == (other && !failed), "the result does not tell whether all inputs could be signed");
    let (got, errors) = match r { Ok(u) => (u, BTreeMap::new()), Err(x) => { x.1.values().for_each(|e| sym::look(e)); x } };
    sym::check(errors.contains_key(&at) == failed, "the error of the taproot input is not reported under its index");
    sym::check(errors.contains_key(&(1 - at)) == !other, "the error of the other input is not reported under its index");
    match got.get(&at) {
        None => sym::check(used.is_empty(), "the keys used are not reported"),
        Some(v0b::SigningKeys::Schnorr(k)) => sym::check(*k == used, "the keys reported as used are not those that signed"),
        _ => sym::fail("keys of another kind are reported as used"),
    }
    sym::check(p == want, "the PSBT is not the old one with exactly the expected signatures");
    if failed { cover("error"); } else if used.is_empty() { cover("nothing to sign"); } else { cover("signed"); }
}
fn old_tap() -> taproot::Signature { taproot::Signature { signature: secp256k1::schnorr::Signature::from_slice(&[9; 64]).unwrap(), sighash_type: TapSighashType::None } }

harnesses! {
    fn h_sign2() { sign(false) }
    fn h_sign0() { sign(true) }
    fn h_sign0_tr() { sign_tr() }
    // Shards: extended key, map, hash map; for v2 and v0.
    fn h_keys() { if sym::shard() < 3 { use v2::GetKey; lookups!(v2) } else { use v0b::GetKey; lookups!(v0b) } }
}
