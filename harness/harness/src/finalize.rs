//! Finalizing, for v2 and v0.
use psbt_v2::bitcoin::hashes::{hash160, Hash};
use psbt_v2::bitcoin::key::{Keypair, Secp256k1, TapTweak};
use psbt_v2::bitcoin::secp256k1::{All, Message};
use psbt_v2::bitcoin::sighash::{EcdsaSighashType, TapSighashType};
use psbt_v2::bitcoin::taproot::{self, ControlBlock, LeafVersion, TapLeafHash, TapNodeHash};
use psbt_v2::bitcoin::{absolute, ecdsa, ScriptBuf, Sequence};
use psbt_v2::v0::miniscript::PsbtExt;
use psbt_v2::v2::{self, Extractor, Finalizer, Signer};
use psbt_v2::{v0, PsbtSighashType};

use crate::extract::witness;
use crate::fields;
use crate::gen::{self, name, I, O};
use crate::sighash::{self, le64, prescribed, Case, How};
use crate::sign::{self, pk, sha, sk, tagged, xo};
use crate::sym::{self, ck, cover};

fn h160(b: &[u8]) -> Vec<u8> { hash160::Hash::hash(b).to_byte_array().to_vec() }
fn k33(n: u8) -> Vec<u8> { pk(n).inner.serialize().to_vec() }
fn k32(n: u8) -> Vec<u8> { xo(n).serialize().to_vec() }
fn push(b: &[u8]) -> Vec<u8> { if b.len() < 76 { [&[b.len() as u8][..], b].concat() } else { [&[0x4c, b.len() as u8][..], b].concat() } }
fn multi(m: u8, keys: &[u8]) -> Vec<u8> { [vec![0x50 + m], keys.iter().flat_map(|k| push(&k33(*k))).collect(), vec![0x50 + keys.len() as u8, 0xae]].concat() }
fn checksig(k: &[u8]) -> Vec<u8> { [&push(k)[..], &[0xac]].concat() }
fn hashlock(h: &[u8]) -> Vec<u8> { [&[0x82, 1, 32, 0x88, 0xa8][..], &push(h), &[0x87]].concat() }
pub fn wsh(s: &[u8]) -> Vec<u8> { sighash::wsh(&sha(s)) }
fn sh(s: &[u8]) -> Vec<u8> { sighash::sh(&h160(s)) }

/// How an input is signed.
enum Sigs { Ecdsa(How, Vec<u8>), Key(Option<[u8; 32]>), Leaf(Vec<u8>, u8) }
/// An input that can be finalized: what it spends, scripts, and where the signatures go.
struct Fin {
    spk: Vec<u8>,
    redeem: Option<Vec<u8>>,
    wscript: Option<Vec<u8>>,
    sigs: Sigs,
    /// Leaf scripts with control blocks.
    leaves: Vec<(Vec<u8>, Vec<u8>)>,
    legacy: bool,
}
pub const FINS: u64 = 18;
fn leaf_hash(s: &[u8]) -> Vec<u8> { tagged("TapLeaf", &[&[0xc0][..], &gen::cs(s.len() as u64), s].concat()) }
fn branch(a: &[u8], b: &[u8]) -> Vec<u8> { if a < b { tagged("TapBranch", &[a, b].concat()) } else { tagged("TapBranch", &[b, a].concat()) } }
/// Output key of internal key `n` with this Merkle root, and its parity.
fn output_key(n: u8, root: Option<[u8; 32]>) -> (Vec<u8>, u8) {
    let (k, parity) = xo(n).tap_tweak(&Secp256k1::new(), root.map(TapNodeHash::from_byte_array));
    (k.serialize().to_vec(), parity.to_u8())
}
fn p2tr(k: &[u8]) -> Vec<u8> { [&[0x51, 32][..], k].concat() }
fn fin(kind: u64) -> Fin {
    let f = |spk: Vec<u8>, redeem: Option<Vec<u8>>, wscript: Option<Vec<u8>>, how, keys: &[u8], legacy| Fin { spk, redeem, wscript, sigs: Sigs::Ecdsa(how, keys.to_vec()), leaves: vec![], legacy };
    let pkh = sighash::p2pkh(&h160(&k33(1)));
    match kind {
        0 => f(pkh.clone(), None, None, How::Legacy(pkh), &[1], true),
        1 => { let s = checksig(&k33(1)); f(s.clone(), None, None, How::Legacy(s), &[1], true) }
        2 => f(sighash::wpkh(&h160(&k33(1))), None, None, How::Segwit(pkh), &[1], false),
        3 => { let r = sighash::wpkh(&h160(&k33(1))); f(sh(&r), Some(r), None, How::Segwit(pkh), &[1], false) }
        4 => { let s = checksig(&k33(1)); f(wsh(&s), None, Some(s.clone()), How::Segwit(s), &[1], false) }
        5 => { let s = multi(2, &[1, 2, 3]); f(wsh(&s), None, Some(s.clone()), How::Segwit(s), &[1, 3], false) }
        6 => { let s = multi(2, &[2, 1]); let r = wsh(&s); f(sh(&r), Some(r), Some(s.clone()), How::Segwit(s), &[2, 1], false) }
        7 => { let s = multi(2, &[1, 2, 3]); f(sh(&s), Some(s.clone()), None, How::Legacy(s), &[2, 3], true) }
        8 => { let s = multi(1, &[2, 1]); f(s.clone(), None, None, How::Legacy(s), &[1], true) }
        9 | 10 => { // the key of a taproot output, with or without scripts
            let root = if kind == 9 { None } else { Some([0x44; 32]) };
            Fin { spk: p2tr(&output_key(1, root).0), redeem: None, wscript: None, sigs: Sigs::Key(root), leaves: vec![], legacy: false }
        }
        11 | 12 | 13 => { // one leaf, two leaves of which one can be satisfied, two leaves of which the shorter is to be taken
            let a = checksig(&k32(1));
            let b = if kind == 12 { checksig(&k32(2)) } else { [&push(&k32(1))[..], &[0xad], &push(&k32(1)), &[0xac]].concat() };
            let (ha, hb) = (leaf_hash(&a), leaf_hash(&b));
            let (root, pa, pb) = if kind == 11 { (ha.clone(), vec![], vec![]) } else { (branch(&ha, &hb), hb, ha.clone()) };
            let (q, parity) = output_key(4, Some(fields::a32(&root)));
            let cb = |p: &[u8]| [&[0xc0 + parity][..], &k32(4), p].concat();
            let mut leaves = vec![(a, cb(&pa))];
            if kind != 11 { leaves.push((b, cb(&pb))); }
            Fin { spk: p2tr(&q), redeem: None, wscript: None, sigs: Sigs::Leaf(ha, 1), leaves, legacy: false }
        }
        14 => f(wsh(&pkh), None, Some(pkh.clone()), How::Segwit(pkh), &[1], false),
        15 => f(sh(&pkh), Some(pkh.clone()), None, How::Legacy(pkh), &[1], true),
        17 => { // two ways, neither of which needs a signature: only to be satisfied malleably
            let s = [&[0x63][..], &hashlock(&sha(&PRE)), &[0x67], &hashlock(&[0x61; 32]), &[0x68]].concat();
            f(wsh(&s), None, Some(s.clone()), How::Segwit(s), &[], false)
        }
        _ => { let s = [&push(&k33(2))[..], &[0xad], &push(&k33(1)), &[0xac]].concat(); f(wsh(&s), None, Some(s.clone()), How::Segwit(s), &[2, 1], false) }
    }
}
/// The final script sig and witness, given the signatures in the order of their keys.
fn finals(kind: u64, f: &Fin, s: &[Vec<u8>]) -> (Vec<u8>, Vec<Vec<u8>>) {
    let sc = |x: &Option<Vec<u8>>| x.clone().unwrap();
    let p = |v: Vec<Vec<u8>>| v.concat();
    match kind {
        0 => (p(vec![push(&s[0]), push(&k33(1))]), vec![]),
        1 => (push(&s[0]), vec![]),
        2 => (vec![], vec![s[0].clone(), k33(1)]),
        3 => (push(&sc(&f.redeem)), vec![s[0].clone(), k33(1)]),
        4 => (vec![], vec![s[0].clone(), sc(&f.wscript)]),
        5 => (vec![], vec![vec![], s[0].clone(), s[1].clone(), sc(&f.wscript)]),
        6 => (push(&sc(&f.redeem)), vec![vec![], s[0].clone(), s[1].clone(), sc(&f.wscript)]),
        7 => (p(vec![vec![0], push(&s[0]), push(&s[1]), push(&sc(&f.redeem))]), vec![]),
        8 => (p(vec![vec![0], push(&s[0])]), vec![]),
        9 | 10 => (vec![], vec![s[0].clone()]),
        11 | 12 | 13 => (vec![], vec![s[0].clone(), f.leaves[0].0.clone(), f.leaves[0].1.clone()]),
        14 => (vec![], vec![s[0].clone(), k33(1), sc(&f.wscript)]),
        15 => (p(vec![push(&s[0]), push(&k33(1)), push(&sc(&f.redeem))]), vec![]),
        17 => (vec![], vec![PRE.to_vec(), vec![1], sc(&f.wscript)]),
        _ => (vec![], vec![s[1].clone(), s[0].clone(), sc(&f.wscript)]),
    }
}
/// The representation of keys in libsecp256k1.
fn raw<T>(k: &T) -> [u8; 64] { assert!(core::mem::size_of::<T>() == 64); unsafe { core::ptr::read(k as *const T as *const [u8; 64]) } }
/// A signature of key `n` for this hash: a real one, or one declared to be so.
fn ecdsa(secp: &Secp256k1<All>, h: &[u8], n: u8, t: u8) -> ecdsa::Signature {
    if sym::native() { return sign::ecdsa_sig(secp, h, n, t); }
    let b = sym::token(h, raw(&pk(n).inner), false);
    ecdsa::Signature { signature: psbt_v2::bitcoin::secp256k1::ecdsa::Signature::from_compact(&b).unwrap(), sighash_type: EcdsaSighashType::from_standard(t as u32).unwrap() }
}
/// A Schnorr signature as stored in a PSBT.
fn schnorr(secp: &Secp256k1<All>, h: &[u8], pair: &Keypair, ty: u8) -> taproot::Signature {
    if !sym::native() {
        let b = sym::token(h, raw(&pair.x_only_public_key().0), true);
        return taproot::Signature { signature: psbt_v2::bitcoin::secp256k1::schnorr::Signature::from_slice(&b).unwrap(), sighash_type: TapSighashType::from_consensus_u8(ty).unwrap() };
    }
    taproot::Signature { signature: secp.sign_schnorr_no_aux_rand(&Message::from_digest(fields::a32(h)), pair), sighash_type: TapSighashType::from_consensus_u8(ty).unwrap() }
}
fn pair(n: u8) -> Keypair { Keypair::from_secret_key(&Secp256k1::new(), &sk(n).inner) }

/// A transaction with one input of the given kind, possibly with another one before or after it, and everything needed to finalize it.
struct Todo { c: Case, f: Fin, at: usize, spent: Vec<O>, ty: Option<u32>, ecdsa: Vec<(u8, ecdsa::Signature)>, tap: Option<taproot::Signature>, want: Vec<(Vec<u8>, Vec<Vec<u8>>)>, ok: bool, height: Option<u32>, script: u64 }
const PRE: [u8; 32] = [9; 32];
fn todo(kind: u64, v0: bool) -> Todo {
    let secp = Secp256k1::new();
    let f = fin(kind);
    let nin = 1 + sym::choice("inputs", 2) as usize;
    let at = sym::choice("at", nin as u64) as usize;
    let taproot = matches!(f.sigs, Sigs::Key(_) | Sigs::Leaf(..));
    let types: &[Option<u32>] = if taproot { &[None, Some(0), Some(1), Some(0x82), Some(0x83)] } else { &[None, Some(1), Some(2), Some(0x81), Some(0x83)] };
    let ty = types[if v0 && sym::tier() == 0 { 2 * sym::choice("type", 3) } else { sym::choice("type", 5) } as usize];
    let height = if !v0 && nin == 1 && sym::choice("height", 2) == 1 { Some(77u32) } else { None };
    let lock = sym::vec("lock", 4);
    let c = Case {
        ver: sym::vec("ver", 4),
        ins: (0..nin).map(|i| I {
            txid: sym::vec(&name("txid", i), 32), vout: if i == at { vec![1, 0, 0, 0] } else { sym::vec("vout", 4) }, ss: vec![],
            seq: if i == at && height.is_some() { vec![0xff; 4] } else { sym::vec(&name("seq", i), 4) }, wit: vec![] }).collect(),
        outs: (0..if taproot { nin } else { 1 }).map(|i| O { amt: sym::vec(&name("amt", i), 8), spk: sym::vec(&name("spk", i), 3 - i) }).collect(),
        lock: match height { Some(h) => h.to_le_bytes().to_vec(), None => lock.clone() },
    };
    let hl = hashlock(&sha(&PRE));
    let spent: Vec<O> = (0..nin).map(|i| if i == at { O { amt: sym::vec("amount", 8), spk: f.spk.clone() } } else { O { amt: sym::vec("amount2", 8), spk: wsh(&hl) } }).collect();
    // signatures
    let t = ty.unwrap_or(if taproot { 0 } else { 1 });
    let scripts = f.redeem.is_some() || f.wscript.is_some();
    let defect = sym::choice("defect", if scripts { 5 } else { 3 });
    let other = |h: Vec<u8>| if defect == 2 { vec![3; 32] } else { h };
    let mut list = vec![];
    let mut tap = None;
    let mut bytes = vec![];
    match &f.sigs {
        Sigs::Ecdsa(how, keys) => {
            for (j, k) in keys.iter().enumerate() {
                let h = prescribed(how, &c.ver, &c.ins, &c.outs, &c.lock, at, &spent[at].amt, t as u8);
                let h = if j == 0 { other(h) } else { h };
                let s = ecdsa(&secp, &h, *k, t as u8);
                bytes.push(s.to_vec());
                if defect != 1 || j > 0 { list.push((*k, s)); }
            }
            list.push((5, ecdsa(&secp, &[8; 32], 5, t as u8)));
        }
        Sigs::Key(root) => {
            let h = sign::prescribed_tr(&c, &spent, at, t as u8, None).unwrap();
            let s = schnorr(&secp, &other(h), &pair(1).tap_tweak(&secp, root.map(TapNodeHash::from_byte_array)).to_keypair(), t as u8);
            bytes.push(s.to_vec());
            if defect != 1 { tap = Some(s); }
        }
        Sigs::Leaf(l, n) => {
            let h = sign::prescribed_tr(&c, &spent, at, t as u8, Some(l)).unwrap();
            let s = schnorr(&secp, &other(h), &pair(*n), t as u8);
            bytes.push(s.to_vec());
            if defect != 1 { tap = Some(s); }
        }
    }
    let want = (0..nin).map(|i| if i == at { finals(kind, &f, &bytes) } else { (vec![], vec![PRE.to_vec(), hl.clone()]) }).collect();
    Todo { c, f, at, spent, ty, ecdsa: list, tap, want, ok: defect == 0, height, script: defect }
}
/// Sets the fields of an input of either version.
macro_rules! fill { ($p:ident, $t:ident, $prevout:expr) => {
    for i in 0..$t.c.ins.len() {
        let x = &mut $p.inputs[i];
        let o = gen::txout(le64(&$t.spent[i].amt), &$t.spent[i].spk);
        let utxo = if i != $t.at { 0 } else if $t.f.legacy { 1 } else if !$t.ok { 0 } else { sym::choice("utxo", 3) };
        if utxo != 1 { x.witness_utxo = Some(o.clone()); }
        if utxo != 0 { x.non_witness_utxo = Some(sighash::prev(&[(3, vec![0x53]), (le64(&$t.spent[i].amt), $t.spent[i].spk.clone())])); }
        if i != $t.at {
            x.witness_script = Some(ScriptBuf::from(hashlock(&sha(&PRE))));
            x.sha256_preimages.insert(psbt_v2::bitcoin::hashes::sha256::Hash::hash(&PRE), PRE.to_vec());
            continue;
        }
        if $t.ecdsa.len() == 1 && $t.script != 1 { x.sha256_preimages.insert(psbt_v2::bitcoin::hashes::sha256::Hash::hash(&PRE), if $t.script == 2 { vec![8; 32] } else { PRE.to_vec() }); }
        x.sighash_type = $t.ty.map(PsbtSighashType::from_u32);
        let sc = |s: &Option<Vec<u8>>, w| match $t.script { 3 if w => None, 4 if w => Some(ScriptBuf::from(checksig(&k33(6)))), _ => s.clone().map(ScriptBuf::from) };
        x.redeem_script = sc(&$t.f.redeem, $t.f.wscript.is_none());
        x.witness_script = sc(&$t.f.wscript, $t.f.wscript.is_some());
        for (k, s) in &$t.ecdsa { x.partial_sigs.insert(pk(*k), *s); }
        for (s, cb) in &$t.f.leaves { x.tap_scripts.insert(ControlBlock::decode(cb).unwrap(), (ScriptBuf::from(s.clone()), LeafVersion::TapScript)); }
        match &$t.f.sigs {
            Sigs::Ecdsa(..) => {}
            Sigs::Key(r) => { x.tap_key_sig = $t.tap; x.tap_internal_key = Some(xo(1)); x.tap_merkle_root = r.map(TapNodeHash::from_byte_array); }
            Sigs::Leaf(l, n) => {
                x.tap_internal_key = Some(xo(4));
                let lh = |b: &[u8]| TapLeafHash::from_byte_array(fields::a32(b));
                if let Some(s) = $t.tap { x.tap_script_sigs.insert((xo(*n), lh(l)), s); if $t.f.leaves.len() > 1 { x.tap_script_sigs.insert((xo(*n), lh(&leaf_hash(&$t.f.leaves[1].0))), s); } }
            }
        }
    }
} }
/// Unrelated data in all maps.
fn rest2(p: &mut v2::Psbt) {
    match if p.inputs.len() > 1 { 1 } else { sym::choice("rest", 2) } {
        0 => {}
        _ => {
            for i in 0..p.inputs.len() {
                fields::set2(p, 1, i, 0x7e, &sym::vec("unk", 1), &sym::vec("unkv", 2));
                fields::set2(p, 1, i, 0xfc, &[&[1, 0x61, 7][..], &sym::vec("prop", 1)].concat(), &sym::vec("propv", 1));
            }
            for (m, x) in crate::round::others(false, 3, 0) { if m == 2 || m == 0 && x.k[0] > 3 { fields::set2(p, m, 0, x.k[0], &x.k[1..], &x.v); } }
        }
    }
}
fn id_of(p: &v2::Psbt) -> Vec<u8> {
    match Signer::new(p.clone()).ok().and_then(|s| s.id().ok()) { Some(t) => t.to_byte_array().to_vec(), None => sym::fail("no identifier") }
}
fn fin2() {
    let secp = Secp256k1::new();
    let t = todo(sym::shard() % FINS, false);
    let mut p = sighash::to2(&t.c);
    fill!(p, t, 2);
    if let Some(h) = t.height {
        p.inputs[t.at].sequence = None;
        p.inputs[t.at].min_height = absolute::Height::from_consensus(h).ok();
        p.global.fallback_lock_time = Some(absolute::LockTime::from_consensus(4321));
    }
    rest2(&mut p);
    p.global.tx_modifiable_flags = sym::u8("flags");
    let id = id_of(&p);
    let fz = match Finalizer::new(p.clone()) { Ok(f) => f, Err(_) => sym::fail("finalizer refuses a PSBT with spent outputs and right sighash types") };
    sym::check(fz.id().to_byte_array().to_vec() == id, "the finalizer sees another identifier");
    match fz.finalize(&secp) {
        Ok(q) => {
            sym::check(t.ok, "finalized without what the spent output demands");
            let mut want = p.clone();
            for (i, x) in want.inputs.iter_mut().enumerate() {
                let mut y = v2::Input::new(&gen::outpoint(0));
                y.previous_txid = x.previous_txid;
                y.spent_output_index = x.spent_output_index;
                y.sequence = x.sequence;
                y.min_time = x.min_time;
                y.min_height = x.min_height;
                y.witness_utxo = x.witness_utxo.clone();
                y.non_witness_utxo = x.non_witness_utxo.clone();
                y.unknowns = x.unknowns.clone();
                y.proprietaries = x.proprietaries.clone();
                y.final_script_sig = Some(ScriptBuf::from(t.want[i].0.clone()));
                y.final_script_witness = Some(witness(&t.want[i].1));
                sym::check(q.inputs[i].final_script_sig == y.final_script_sig, "another script sig than the spent output demands");
                sym::check(q.inputs[i].final_script_witness == y.final_script_witness, "another witness than the spent output demands");
                *x = y;
            }
            sym::check(q == want, "finalizing changed something else than the signing data of the inputs");
            sym::check(q.is_finalized(), "not finalized after finalizing");
            sym::check(id_of(&q) == id, "finalizing changes the identifier");
            match Extractor::new(q) {
                Ok(x) => {
                    let ins: Vec<I> = t.c.ins.iter().zip(&t.want).map(|(i, w)| I { ss: w.0.clone(), wit: w.1.clone(), ..i.clone() }).collect();
                    match x.extract_tx_unchecked_fee_rate() { Ok(tx) => ck(gen::same(&gen::ser(&tx), &gen::tx_bytes(&t.c.ver, &ins, &t.c.outs, &t.c.lock)), "the extracted transaction is not the signed one"), Err(_) => sym::fail("extraction fails") }
                }
                Err(_) => sym::fail("a finalized PSBT is refused by the extractor"),
            }
            cover("finalized");
        }
        Err(e) => { sym::seen(&e); sym::check(!t.ok, "a complete PSBT cannot be finalized"); cover("refused"); }
    }
}

/// v0 finalization by each of its operations.
fn fin0() {
    let secp = Secp256k1::new();
    let t = todo(sym::shard() % FINS, true);
    let nin = t.c.ins.len();
    let mut p = sighash::to0(&t.c);
    fill!(p, t, 0);
    if nin == 1 {
        fields::set0(&mut p, 1, 0, 0x7e, &sym::vec("unk", 1), &sym::vec("unkv", 2));
        fields::set0(&mut p, 1, 0, 0xfc, &[&[1, 0x61, 7][..], &sym::vec("prop", 1)].concat(), &sym::vec("propv", 1));
        for (m, x) in crate::round::others(true, 3, 0) { if m != 1 { fields::set0(&mut p, m, 0, x.k[0], &x.k[1..], &x.v); } }
    }
    let op = sym::choice("op", 4);
    // which inputs are asked for; the other input needs no signature
    let asked: Vec<bool> = (0..nin).map(|i| op < 2 || i == t.at).collect();
    let done: Vec<bool> = (0..nin).map(|i| asked[i] && if i == t.at { t.ok && (op % 2 == 1 || sym::shard() != 17) } else { true }).collect();
    let mut want = p.clone();
    for (i, x) in want.inputs.iter_mut().enumerate() {
        if !done[i] { continue; }
        let mut y = v0::Input::default();
        y.witness_utxo = x.witness_utxo.clone();
        y.non_witness_utxo = x.non_witness_utxo.clone();
        y.unknown = x.unknown.clone();
        y.proprietary = x.proprietary.clone();
        let (s, w) = &t.want[i];
        if !s.is_empty() { y.final_script_sig = Some(ScriptBuf::from(s.clone())); }
        if !w.is_empty() { y.final_script_witness = Some(witness(w)); }
        *x = y;
    }
    let owned = if nin == 1 { sym::choice("owned", 2) == 1 } else { t.at == 0 };
    let mut n = None;
    let (q, r) = if owned {
        let v = |r: Result<v0::Psbt, (v0::Psbt, Vec<v0::miniscript::Error>)>| match r { Ok(q) => (q, Ok(())), Err((q, e)) => { e.iter().for_each(|e| sym::look(e)); (q, Err(e.len())) } };
        let one = |r: Result<v0::Psbt, (v0::Psbt, v0::miniscript::Error)>| match r { Ok(q) => (q, Ok(())), Err((q, e)) => { sym::look(&e); (q, Err(1)) } };
        match op { 0 => v(p.finalize(&secp)), 1 => v(p.finalize_mall(&secp)), 2 => one(p.finalize_inp(&secp, t.at)), _ => one(p.finalize_inp_mall(&secp, t.at)) }
    } else {
        let r = match op { 0 => p.finalize_mut(&secp).map_err(|e| { e.iter().for_each(|e| sym::look(e)); e.len() }), 1 => p.finalize_mall_mut(&secp).map_err(|e| { e.iter().for_each(|e| sym::look(e)); e.len() }), 2 => p.finalize_inp_mut(&secp, t.at).map_err(|e| { sym::look(&e); 1 }), _ => p.finalize_inp_mall_mut(&secp, t.at).map_err(|e| { sym::look(&e); 1 }) };
        n = Some(p.finalize_inp_mut(&secp, nin).map_err(|e| sym::look(&e)).is_err() && p.finalize_inp_mall_mut(&secp, usize::MAX).is_err());
        (p, r)
    };
    if let Some(e) = n { sym::check(e, "an index out of bounds is accepted"); }
    let failed = (0..nin).filter(|i| asked[*i] && !done[*i]).count();
    sym::check(r.err().unwrap_or(0) == failed, "not exactly the inputs that cannot be finalized are reported");
    for i in 0..nin {
        if done[i] {
            sym::check(q.inputs[i].final_script_sig == want.inputs[i].final_script_sig, "another script sig than the spent output demands");
            sym::check(q.inputs[i].final_script_witness == want.inputs[i].final_script_witness, "another witness than the spent output demands");
        } else {
            sym::check(q.inputs[i] == want.inputs[i], "an input that is not finalized changes");
        }
    }
    sym::check(q == want, "finalizing changed something else than the signing data of the inputs");
    let all = done.iter().all(|x| *x);
    match q.extract(&secp) {
        Ok(tx) => {
            sym::check(all, "a PSBT that is not finalized is extracted");
            let ins: Vec<I> = t.c.ins.iter().zip(&t.want).map(|(i, w)| I { ss: w.0.clone(), wit: w.1.clone(), ..i.clone() }).collect();
            ck(gen::same(&gen::ser(&tx), &gen::tx_bytes(&t.c.ver, &ins, &t.c.outs, &t.c.lock)), "the extracted transaction is not the signed one");
            cover("finalized");
        }
        Err(e) => { sym::seen(&e); sym::check(!all, "a finalized PSBT cannot be extracted"); cover("refused"); }
    }
}

/// Minimal script number (positive, concrete length).
fn num(n: u32) -> Vec<u8> {
    if n >= 1 && n <= 16 { return vec![0x50 + n as u8]; }
    let mut b = n.to_le_bytes().to_vec();
    while b.len() > 1 && b[b.len() - 1] == 0 { b.pop(); }
    if b[b.len() - 1] & 0x80 != 0 { b.push(0); }
    push(&b)
}
/// Whether consensus takes `n OP_CHECKLOCKTIMEVERIFY` as satisfied.
fn after(n: u32, lock: u32, seq: u32) -> bool { ((n < gen::THRESHOLD) == (lock < gen::THRESHOLD)) & (n <= lock) & (seq != u32::MAX) }
/// Whether consensus takes `n OP_CHECKSEQUENCEVERIFY` as satisfied (`n` without the disable bit).
fn older(n: u32, seq: u32, ver: i32) -> bool { (ver >= 2) & (seq >> 31 == 0) & ((n ^ seq) >> 22 & 1 == 0) & (n & 0xffff <= seq & 0xffff) }
/// A timelock in a script: for every transaction, the input is finalized exactly if the timelock is satisfied.
fn timelock(v0: bool) {
    let secp = Secp256k1::new();
    let sh = sym::shard();
    let abs = sh % 2 == 0;
    const HARD: [u32; 18] = [1, 16, 17, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7f_ffff, 0x80_0000, 0x100_0000, 499_999_999, 500_000_000, 500_000_001, 0x4000_0000, 0x7fff_ffff];
    let (n, b) = match sh / 2 {
        _ if abs => { let n = HARD[(sh / 2 * 6 + sym::choice("n", 6)) as usize % 18]; (n, num(n)) }
        0 => { let v = sym::vec("n3", 3); sym::assume(v[2] >= 1 && v[2] < 0x80); (u32::from_le_bytes([v[0], v[1], v[2], 0]), push(&v)) }
        1 => { let v = sym::vec("n2", 2); sym::assume(v[1] >= 1 && v[1] < 0x80); (u32::from_le_bytes([v[0], v[1], 0, 0]), push(&v)) }
        _ => { let n = [1, 16, 17, 0x7f, 0x80, 0x8000, 0xffff, 0x40_0000, 0x40_0001, 0x40_ffff][sym::choice("n", 10) as usize]; (n, num(n)) }
    };
    if !abs { sym::assume(n >> 31 == 0); sym::assume(n & 0x7fbf_0000 == 0); } // bits without a meaning
    let s = [&b[..], &[if abs { 0xb1 } else { 0xb2 }]].concat();
    let spk = wsh(&s);
    let lock = sym::u32("lock");
    let ver = sym::u32("ver") as i32;
    sym::assume(ver >= 0);
    let seq = sym::u32("seq");
    let c = Case {
        ver: (ver as u32).to_le_bytes().to_vec(), lock: lock.to_le_bytes().to_vec(),
        ins: vec![I { txid: vec![1; 32], vout: vec![1, 0, 0, 0], ss: vec![], seq: seq.to_le_bytes().to_vec(), wit: vec![] }],
        outs: vec![O { amt: vec![1, 0, 0, 0, 0, 0, 0, 0], spk: vec![0x51] }],
    };
    let want = if abs { after(n, lock, seq) } else { older(n, seq, ver) };
    let yes = "a timelock is taken as satisfied although the transaction does not satisfy it";
    let no = "a timelock is not taken as satisfied although the transaction satisfies it";
    let w = vec![s.clone()];
    if v0 {
        let mut p = sighash::to0(&c);
        p.inputs[0].witness_utxo = Some(gen::txout(9, &spk));
        p.inputs[0].witness_script = Some(ScriptBuf::from(s));
        match p.finalize_mall_mut(&secp) {
            Ok(()) => { ck(want, yes); sym::check(p.inputs[0].final_script_witness == Some(witness(&w)), "another witness than the script alone"); cover("satisfied"); }
            Err(e) => { e.iter().for_each(|e| sym::look(e)); ck(!want, no); cover("not satisfied"); }
        }
    } else {
        let mut p = sighash::to2(&c);
        p.inputs[0].witness_utxo = Some(gen::txout(9, &spk));
        p.inputs[0].witness_script = Some(ScriptBuf::from(s));
        match sym::choice("by", 3) {
            0 => {}
            1 => { p.inputs[0].sequence = None; sym::assume(seq == u32::MAX); }
            _ => {
                p.global.fallback_lock_time = Some(absolute::LockTime::from_consensus(sym::u32("fallback")));
                if lock < gen::THRESHOLD { p.inputs[0].min_height = Some(gen::height(lock)); } else { p.inputs[0].min_time = Some(gen::time(lock)); }
            }
        }
        let f = match Finalizer::new(p) { Ok(f) => f, Err(_) => sym::fail("finalizer refuses the PSBT") };
        match f.finalize(&secp) {
            Ok(q) => { ck(want, yes); sym::check(q.inputs[0].final_script_witness == Some(witness(&w)), "another witness than the script alone"); cover("satisfied"); }
            Err(e) => { sym::seen(&e); ck(!want, no); cover("not satisfied"); }
        }
    }
}

/// What the satisfier of a v0 input serves, for every request.
fn satisfier() {
    use psbt_v2::bitcoin::hashes::{ripemd160, sha256, sha256d};
    use psbt_v2::bitcoin::key::{PublicKey, XOnlyPublicKey};
    use psbt_v2::miniscript::{hash256, Satisfier};
    use psbt_v2::v0::miniscript::PsbtInputSatisfier as S;
    type P = PublicKey;
    let mut p = crate::round::base0(2, 1);
    let at = sym::choice("at", 2) as usize;
    let l = |n: &str| TapLeafHash::from_byte_array(sym::bytes(n));
    let old = |n: u8| ecdsa::Signature { signature: psbt_v2::bitcoin::secp256k1::ecdsa::Signature::from_compact(&[n; 64]).unwrap(), sighash_type: EcdsaSighashType::All };
    let tap = |n: u8| taproot::Signature { signature: psbt_v2::bitcoin::secp256k1::schnorr::Signature::from_slice(&[n; 64]).unwrap(), sighash_type: TapSighashType::Default };
    let source = || (Default::default(), Default::default());
    let wrong = "served although it is not stored for the request";
    let lost = "data that is stored for the request is not served";
    macro_rules! same { ($got:expr, $want:expr) => { match ($got, $want) {
        (Some(g), Some(w)) => { sym::check(g == w, wrong); cover("served"); }
        (None, None) => cover("not served"),
        (Some(_), None) => sym::fail(wrong),
        (None, Some(_)) => sym::fail(lost),
    } } }
    let which: Vec<u8> = [vec![], vec![1], vec![1, 2]][sym::choice("stored", 3) as usize].clone();
    let ask = sym::choice("ask", 3) as u8 + 1;
    match sym::shard() {
        0 => {
            for k in &which { p.inputs[at].partial_sigs.insert(pk(*k), old(*k)); }
            p.inputs[1 - at].partial_sigs.insert(pk(3), old(9));
            p.inputs[1 - at].partial_sigs.insert(pk(1), old(9));
            let s = S::new(&p, at);
            same!(Satisfier::<P>::lookup_ecdsa_sig(&s, &pk(ask)), if which.contains(&ask) { Some(old(ask)) } else { None });
        }
        1 => { // by the hash of a key
            for k in &which { p.inputs[at].partial_sigs.insert(pk(*k), old(*k)); p.inputs[at].bip32_derivation.insert(pk(*k).inner, source()); }
            p.inputs[1 - at].partial_sigs.insert(pk(3), old(9));
            p.inputs[1 - at].bip32_derivation.insert(pk(3).inner, source());
            let h: [u8; 20] = sym::bytes("hash");
            let of = which.iter().copied().find(|k| gen::same(&h, &h160(&k33(*k))));
            let s = S::new(&p, at);
            same!(Satisfier::<P>::lookup_raw_pkh_pk(&s, &hash160::Hash::from_byte_array(h)), of.map(pk));
            same!(Satisfier::<P>::lookup_raw_pkh_ecdsa_sig(&s, &hash160::Hash::from_byte_array(h)), of.map(|k| (pk(k), old(k))));
        }
        2 => { // signatures for leaves
            let ls: Vec<TapLeafHash> = (0..which.len()).map(|i| l(&name("leaf", i))).collect();
            for (k, l) in which.iter().zip(&ls) { p.inputs[at].tap_script_sigs.insert((xo(*k), *l), tap(*k)); }
            p.inputs[1 - at].tap_script_sigs.insert((xo(3), TapLeafHash::from_byte_array([1; 32])), tap(9));
            let req = l("request");
            let i = which.iter().position(|k| *k == ask);
            let want = match i { Some(i) if gen::same(&ls[i].to_byte_array(), &req.to_byte_array()) => Some(tap(ask)), _ => None };
            let s = S::new(&p, at);
            same!(Satisfier::<XOnlyPublicKey>::lookup_tap_leaf_script_sig(&s, &xo(ask), &req), want);
            let h = h160(&k32(ask));
            same!(Satisfier::<XOnlyPublicKey>::lookup_raw_pkh_tap_leaf_script_sig(&s, &(hash160::Hash::from_slice(&h).unwrap(), req)), want.map(|t| (xo(ask), t)));
        }
        3 => {
            if which.len() > 0 { p.inputs[at].tap_key_sig = Some(tap(1)); }
            p.inputs[1 - at].tap_key_sig = Some(tap(2));
            let cb = ControlBlock::decode(&[&[0xc0][..], &k32(4)].concat()).unwrap();
            if which.len() > 1 { p.inputs[at].tap_scripts.insert(cb, (ScriptBuf::from(sym::vec("script", 2)), LeafVersion::TapScript)); }
            let want = p.inputs[at].clone();
            let s = S::new(&p, at);
            same!(Satisfier::<P>::lookup_tap_key_spend_sig(&s), want.tap_key_sig);
            same!(Satisfier::<P>::lookup_tap_control_block_map(&s).filter(|m| !m.is_empty()), if which.len() > 1 { Some(&want.tap_scripts) } else { None });
        }
        n @ 4..=7 => { // preimages
            let w = if n < 6 { 32 } else { 20 };
            let (a, b, req) = (sym::vec("stored0", w), sym::vec("stored1", w), sym::vec("request", w));
            let len = |x: &str| [31usize, 32, 33, 0][sym::choice(x, 4) as usize];
            let (pa, pb) = (sym::vec("first", len("len0")), sym::vec("second", 32));
            let two = which.len() > 1;
            if two { sym::assume(!gen::same(&a, &b)); }
            macro_rules! put { ($f:ident, $t:ty, $i:expr) => { {
                let h = |x: &[u8]| <$t>::from_slice(x).unwrap();
                if which.len() > 0 { p.inputs[$i].$f.insert(h(&a), pa.clone()); }
                if two { p.inputs[$i].$f.insert(h(&b), pb.clone()); }
                p.inputs[1 - $i].$f.insert(h(&vec![7; w]), vec![8; 32]);
            } } }
            let f = |x: &[u8]| { let mut r = [0; 32]; r.copy_from_slice(x); r };
            let want = if which.len() > 0 && gen::same(&a, &req) { if pa.len() == 32 { Some(f(&pa)) } else { None } } else if two && gen::same(&b, &req) { Some(f(&pb)) } else { None };
            let got = match n {
                4 => { put!(sha256_preimages, sha256::Hash, at); Satisfier::<P>::lookup_sha256(&S::new(&p, at), &sha256::Hash::from_slice(&req).unwrap()) }
                5 => { put!(hash256_preimages, sha256d::Hash, at); Satisfier::<P>::lookup_hash256(&S::new(&p, at), &hash256::Hash::from_slice(&req).unwrap()) }
                6 => { put!(hash160_preimages, hash160::Hash, at); Satisfier::<P>::lookup_hash160(&S::new(&p, at), &hash160::Hash::from_slice(&req).unwrap()) }
                _ => { put!(ripemd160_preimages, ripemd160::Hash, at); Satisfier::<P>::lookup_ripemd160(&S::new(&p, at), &ripemd160::Hash::from_slice(&req).unwrap()) }
            };
            match (got, want) {
                (Some(g), Some(w)) => { ck(gen::same(&g, &w), wrong); cover("served"); }
                (None, None) => cover("not served"),
                (Some(_), None) => sym::fail(wrong),
                (None, Some(_)) => sym::fail(lost),
            }
        }
        _ => { // timelocks
            let (lock, seq, ver) = (sym::u32("lock"), sym::u32("seq"), sym::u32("ver") as i32);
            p.unsigned_tx.lock_time = absolute::LockTime::from_consensus(lock);
            p.unsigned_tx.version = psbt_v2::bitcoin::transaction::Version(ver);
            p.unsigned_tx.input[at].sequence = Sequence(seq);
            p.unsigned_tx.input[1 - at].sequence = Sequence(0);
            let n = sym::u32("n");
            let s = S::new(&p, at);
            if ask == 1 {
                ck(Satisfier::<P>::check_after(&s, absolute::LockTime::from_consensus(n)) == after(n, lock, seq), "an absolute timelock is not taken as satisfied exactly when the transaction satisfies it");
            } else {
                let n = n & 0x40_ffff;
                let r = psbt_v2::bitcoin::relative::LockTime::from_consensus(n).unwrap();
                ck(Satisfier::<P>::check_older(&s, r) == older(n, seq, ver), "a relative timelock is not taken as satisfied exactly when the transaction satisfies it");
            }
            cover("served"); cover("not served");
        }
    }
}

/// Preimages when finalizing a v2 input: those stored for the hash in the script, and no others.
fn preimages() {
    use psbt_v2::bitcoin::hashes::{ripemd160, sha256, sha256d};
    let secp = Secp256k1::new();
    let kind = sym::shard() % 4;
    let case = sym::choice("case", 8);
    let pre = if case == 0 { sym::vec("preimage", 32) } else { vec![6; 32] };
    let hash = |x: &[u8]| match kind { 0 => sha(x), 1 => sha(&sha(x)), 2 => h160(x), _ => ripemd160::Hash::hash(x).to_byte_array().to_vec() };
    let h = hash(&pre);
    let op = [0xa8, 0xaa, 0xa9, 0xa6][kind as usize];
    let lock = [&[0x82, 1, 32, 0x88, op][..], &push(&h), &[0x87]].concat();
    let other = hashlock(&sha(&PRE));
    let c = Case {
        ver: vec![2, 0, 0, 0], lock: vec![0; 4],
        ins: (0..2).map(|i| I { txid: vec![i + 1; 32], vout: vec![i, 0, 0, 0], ss: vec![], seq: vec![0xff; 4], wit: vec![] }).collect(),
        outs: vec![],
    };
    let at = sym::choice("at", 2) as usize;
    let mut p = sighash::to2(&c);
    for i in 0..2 {
        let s = if i == at { &lock } else { &other };
        p.inputs[i].witness_utxo = Some(gen::txout(5, &wsh(s)));
        p.inputs[i].witness_script = Some(ScriptBuf::from(s.clone()));
    }
    p.inputs[1 - at].sha256_preimages.insert(sha256::Hash::hash(&PRE), PRE.to_vec());
    let put = |x: &mut v2::Input, kind: u64, h: &[u8], v: &[u8]| match kind {
        0 => { x.sha256_preimages.insert(sha256::Hash::from_slice(h).unwrap(), v.to_vec()); }
        1 => { x.hash256_preimages.insert(sha256d::Hash::from_slice(h).unwrap(), v.to_vec()); }
        2 => { x.hash160_preimages.insert(hash160::Hash::from_slice(h).unwrap(), v.to_vec()); }
        _ => { x.ripemd160_preimages.insert(ripemd160::Hash::from_slice(h).unwrap(), v.to_vec()); }
    };
    match case {
        0 => put(&mut p.inputs[at], kind, &h, &pre),
        7 => { put(&mut p.inputs[at], kind, &h, &pre); put(&mut p.inputs[at], kind, &vec![1; h.len()], &sym::vec("v1", 32)); put(&mut p.inputs[at], kind, &vec![0xfe; h.len()], &sym::vec("v2", 32)); }
        1 => {}
        2 => { let o = sym::vec("other", h.len()); sym::assume(!gen::same(&o, &h)); put(&mut p.inputs[at], kind, &o, &pre); }
        3 => { let n = [0, 31, 33][sym::choice("len", 3) as usize]; put(&mut p.inputs[at], kind, &h, &sym::vec("value", n)); }
        4 => put(&mut p.inputs[at], kind, &h, &[7; 32]),
        5 => { put(&mut p.inputs[at], kind ^ 1, &[&h[..], &[0; 32]].concat()[..if kind < 2 { 32 } else { 20 }], &pre); }
        _ => put(&mut p.inputs[1 - at], kind, &h, &pre),
    }
    let f = match Finalizer::new(p) { Ok(f) => f, Err(_) => sym::fail("finalizer refuses the PSBT") };
    match f.finalize(&secp) {
        Ok(q) => {
            sym::check(case == 0 || case == 7, "finalized although the preimage is not stored for this hash");
            sym::check(q.inputs[at].final_script_witness == Some(witness(&[pre, lock])), "another witness than the preimage and the script");
            cover("served");
        }
        Err(_) => { sym::check(case != 0 && case != 7, "a stored preimage is not used"); cover("not served"); }
    }
}
/// ECDSA sighash types of the signatures against that of the input.
fn types() {
    let n = 1 + sym::choice("inputs", 2) as usize;
    let at = sym::choice("at", n as u64) as usize;
    let mut p = crate::round::base2(n, 1);
    for i in &mut p.inputs { i.witness_utxo = Some(gen::txout(5, &sighash::wpkh(&[1; 20]))); }
    let sig = |t: u8, k: u8| ecdsa::Signature { signature: psbt_v2::bitcoin::secp256k1::ecdsa::Signature::from_compact(&[k; 64]).unwrap(), sighash_type: EcdsaSighashType::from_standard(t as u32).unwrap() };
    let ty = sym::u32("type");
    let has = sym::choice("has", 2) == 1;
    if has { p.inputs[at].sighash_type = Some(PsbtSighashType::from_u32(ty)); }
    let want = if has { ty } else { 1 };
    let nsig = sym::choice("signatures", 4) as usize;
    let mut ok = sighash::SIX.iter().any(|t| *t as u32 == want);
    for k in 0..nsig {
        let t = sighash::SIX[sym::choice(&name("sig", k), 6) as usize];
        p.inputs[at].partial_sigs.insert(pk(k as u8 + 1), sig(t, k as u8 + 1));
        ok &= t as u32 == want;
    }
    if n > 1 { p.inputs[1 - at].partial_sigs.insert(pk(1), sig(1, 1)); }
    if nsig == 0 { match sym::choice("taproot", 2) { 0 => { p.inputs[at].sighash_type = Some(PsbtSighashType::from_u32(0)); p.inputs[at].witness_utxo = Some(gen::txout(5, &p2tr(&[1; 32]))); ok = true; } _ => { cover("none"); return; } } }
    match Finalizer::new(p) {
        Ok(_) => { ck(ok, "signatures with another sighash type than the input demands are accepted"); cover("accepted"); }
        Err(e) => {
            sym::look(&e);
            ck(!ok, "signatures with the demanded sighash type are refused");
            use psbt_v2::v2::PartialSigsSighashTypeError as T;
            match std::error::Error::source(&e).and_then(|s| s.downcast_ref::<T>()) {
                Some(e) => {
                    let i = match *e { T::NonStandardInputSighashType { input_index, .. } => input_index, T::NonStandardPartialSigsSighashType { input_index, .. } => input_index, T::WrongSighashFlag { input_index, .. } => input_index };
                    sym::check(i == at, "the error names another input");
                }
                None => sym::fail("another error than that about sighash types"),
            }
            cover("refused");
        }
    }
}

harnesses! {
    fn h_fin2() { fin2() }
    fn h_sat2() { preimages() }
    fn h_fin_types() { types() }
    fn h_sat0() { satisfier() }
    fn h_tl2() { timelock(false) }
    fn h_tl0() { timelock(true) }
    fn h_fin0() { fin0() }
}
