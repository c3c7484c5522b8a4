//! Setting the typed field that a key-value pair stands for, without the code under test's decoding.
use psbt_v2::bitcoin::absolute::LockTime;
use psbt_v2::bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource, Xpub};
use psbt_v2::bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use psbt_v2::bitcoin::secp256k1;
use psbt_v2::bitcoin::sighash::{EcdsaSighashType, TapSighashType};
use psbt_v2::bitcoin::taproot::{self, ControlBlock, LeafVersion, TapLeafHash, TapNodeHash, TapTree, TaprootBuilder};
use psbt_v2::bitcoin::{ecdsa, Amount, PublicKey, ScriptBuf, Sequence, Transaction, TxOut, Witness, XOnlyPublicKey};
use psbt_v2::{v0, v2};

use crate::gen;
use crate::sym;

fn some<T, E>(r: Result<T, E>, what: &str) -> T { match r { Ok(x) => x, Err(_) => sym::fail(what) } }
fn le32(b: &[u8]) -> u32 { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) }
fn le64(b: &[u8]) -> u64 { u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]) }
pub fn a32(b: &[u8]) -> [u8; 32] { let mut r = [0; 32]; r.copy_from_slice(&b[..32]); r }
fn a20(b: &[u8]) -> [u8; 20] { let mut r = [0; 20]; r.copy_from_slice(&b[..20]); r }

pub fn pubkey(b: &[u8]) -> PublicKey { some(PublicKey::from_slice(b), "public key") }
pub fn spub(b: &[u8]) -> secp256k1::PublicKey { some(secp256k1::PublicKey::from_slice(b), "public key") }
pub fn xonly(b: &[u8]) -> XOnlyPublicKey { some(XOnlyPublicKey::from_slice(b), "x-only key") }
pub fn script(b: &[u8]) -> ScriptBuf { ScriptBuf::from(b.to_vec()) }
pub fn source(b: &[u8]) -> KeySource {
    let path: Vec<ChildNumber> = b[4..].chunks(4).map(|c| ChildNumber::from(le32(c))).collect();
    (Fingerprint::from([b[0], b[1], b[2], b[3]]), DerivationPath::from(path))
}
/// Compact size (concrete value).
fn cs(b: &[u8], at: &mut usize) -> usize {
    let f = b[*at];
    *at += 1;
    match f { 0xfd => { *at += 2; b[*at - 2] as usize | (b[*at - 1] as usize) << 8 } _ => f as usize }
}
pub fn tx(b: &[u8]) -> Transaction { some(psbt_v2::bitcoin::consensus::deserialize(b), "transaction") }
pub fn txout(b: &[u8]) -> TxOut {
    let mut at = 8;
    let n = cs(b, &mut at);
    TxOut { value: Amount::from_sat(le64(b)), script_pubkey: script(&b[at..at + n]) }
}
pub fn witness(b: &[u8]) -> Witness {
    let mut at = 0;
    let n = cs(b, &mut at);
    let mut w = Witness::new();
    for _ in 0..n { let k = cs(b, &mut at); w.push(&b[at..at + k]); at += k; }
    w
}
pub fn ecdsa_sig(b: &[u8]) -> ecdsa::Signature {
    let t = b[b.len() - 1];
    let ty = match sym::concrete(t as u64) {
        1 => EcdsaSighashType::All, 2 => EcdsaSighashType::None, 3 => EcdsaSighashType::Single,
        0x81 => EcdsaSighashType::AllPlusAnyoneCanPay, 0x82 => EcdsaSighashType::NonePlusAnyoneCanPay, _ => EcdsaSighashType::SinglePlusAnyoneCanPay,
    };
    ecdsa::Signature { signature: some(secp256k1::ecdsa::Signature::from_der(&b[..b.len() - 1]), "signature"), sighash_type: ty }
}
pub fn schnorr_sig(b: &[u8]) -> taproot::Signature {
    let ty = if b.len() == 64 { TapSighashType::Default } else { match sym::concrete(b[64] as u64) {
        1 => TapSighashType::All, 2 => TapSighashType::None, 3 => TapSighashType::Single,
        0x81 => TapSighashType::AllPlusAnyoneCanPay, 0x82 => TapSighashType::NonePlusAnyoneCanPay, _ => TapSighashType::SinglePlusAnyoneCanPay,
    } };
    taproot::Signature { signature: some(secp256k1::schnorr::Signature::from_slice(&b[..64]), "signature"), sighash_type: ty }
}
pub fn leaf_source(b: &[u8]) -> (Vec<TapLeafHash>, KeySource) {
    let mut at = 0;
    let n = cs(b, &mut at);
    let l = b[at..at + 32 * n].chunks(32).map(|c| TapLeafHash::from_byte_array(a32(c))).collect();
    (l, source(&b[at + 32 * n..]))
}
fn leaf_ver(b: u8) -> LeafVersion { some(LeafVersion::from_consensus(b), "leaf version") }
pub fn tree(b: &[u8]) -> TapTree {
    let mut t = TaprootBuilder::new();
    for l in gen::leaves(b).unwrap_or_default() { t = some(t.add_leaf_with_ver(l.k[0], script(&l.v[1..]), leaf_ver(l.v[0])), "leaf"); }
    some(TapTree::try_from(t), "tree")
}
pub fn xpub(b: &[u8]) -> Xpub { some(Xpub::decode(b), "xpub") }
fn prop(kd: &[u8]) -> (Vec<u8>, u8, Vec<u8>) {
    let mut at = 0;
    let n = cs(kd, &mut at);
    (kd[at..at + n].to_vec(), kd[at + n], kd[at + n + 1..].to_vec())
}
fn prop2(kd: &[u8]) -> psbt_v2::raw::ProprietaryKey { let (prefix, subtype, key) = prop(kd); psbt_v2::raw::ProprietaryKey { prefix, subtype, key } }
fn prop0(kd: &[u8]) -> v0::bitcoin::raw::ProprietaryKey { let (prefix, subtype, key) = prop(kd); v0::bitcoin::raw::ProprietaryKey { prefix, subtype, key } }

macro_rules! common_input {
    ($i:ident, $t:ident, $kd:ident, $v:ident, $bip32:ident) => {
        match $t {
            0x00 => $i.non_witness_utxo = Some(tx($v)),
            0x01 => $i.witness_utxo = Some(txout($v)),
            0x02 => { $i.partial_sigs.insert(pubkey($kd), ecdsa_sig($v)); }
            0x03 => $i.sighash_type = Some(psbt_v2::PsbtSighashType::from_u32(le32($v))),
            0x04 => $i.redeem_script = Some(script($v)),
            0x05 => $i.witness_script = Some(script($v)),
            0x06 => { $i.$bip32.insert(spub($kd), source($v)); }
            0x07 => $i.final_script_sig = Some(script($v)),
            0x08 => $i.final_script_witness = Some(witness($v)),
            0x0a => { $i.ripemd160_preimages.insert(ripemd160::Hash::from_byte_array(a20($kd)), $v.to_vec()); }
            0x0b => { $i.sha256_preimages.insert(sha256::Hash::from_byte_array(a32($kd)), $v.to_vec()); }
            0x0c => { $i.hash160_preimages.insert(hash160::Hash::from_byte_array(a20($kd)), $v.to_vec()); }
            0x0d => { $i.hash256_preimages.insert(sha256d::Hash::from_byte_array(a32($kd)), $v.to_vec()); }
            0x13 => $i.tap_key_sig = Some(schnorr_sig($v)),
            0x14 => { $i.tap_script_sigs.insert((xonly(&$kd[..32]), TapLeafHash::from_byte_array(a32(&$kd[32..]))), schnorr_sig($v)); }
            0x15 => { $i.tap_scripts.insert(some(ControlBlock::decode($kd), "control block"), (script(&$v[..$v.len() - 1]), leaf_ver($v[$v.len() - 1]))); }
            0x16 => { $i.tap_key_origins.insert(xonly($kd), leaf_source($v)); }
            0x17 => $i.tap_internal_key = Some(xonly($v)),
            0x18 => $i.tap_merkle_root = Some(TapNodeHash::from_byte_array(a32($v))),
            _ => return false,
        }
    };
}
macro_rules! common_output {
    ($o:ident, $t:ident, $kd:ident, $v:ident, $bip32:ident) => {
        match $t {
            0x00 => $o.redeem_script = Some(script($v)),
            0x01 => $o.witness_script = Some(script($v)),
            0x02 => { $o.$bip32.insert(spub($kd), source($v)); }
            0x05 => $o.tap_internal_key = Some(xonly($v)),
            0x06 => $o.tap_tree = Some(tree($v)),
            0x07 => { $o.tap_key_origins.insert(xonly($kd), leaf_source($v)); }
            _ => return false,
        }
    };
}

#[cfg(feature = "sp")]
fn ckey(b: &[u8]) -> psbt_v2::bitcoin::CompressedPublicKey { psbt_v2::bitcoin::CompressedPublicKey(spub(b)) }
#[cfg(feature = "sp")]
fn proof(b: &[u8]) -> v2::dleq::DleqProof { let mut a = [0; 64]; a.copy_from_slice(&b[..64]); v2::dleq::DleqProof(a) }

pub fn set_input(i: &mut v2::Input, t: u8, kd: &[u8], v: &[u8]) -> bool {
    match t {
        0x0e => i.previous_txid = psbt_v2::bitcoin::Txid::from_byte_array(a32(v)),
        0x0f => i.spent_output_index = le32(v),
        0x10 => i.sequence = Some(Sequence(le32(v))),
        0x11 => i.min_time = Some(gen::time(le32(v))),
        0x12 => i.min_height = Some(gen::height(le32(v))),
        #[cfg(feature = "sp")]
        0x1d => { i.sp_ecdh_shares.insert(ckey(kd), ckey(v)); }
        #[cfg(feature = "sp")]
        0x1e => { i.sp_dleq_proofs.insert(ckey(kd), proof(v)); }
        0xfc => { i.proprietaries.insert(prop2(kd), v.to_vec()); }
        0x09 | 0x19..=0xfb | 0xfd..=0xff => { i.unknowns.insert(psbt_v2::raw::Key { type_value: t, key: kd.to_vec() }, v.to_vec()); }
        _ => common_input!(i, t, kd, v, bip32_derivations),
    }
    true
}
pub fn set_output(o: &mut v2::Output, t: u8, kd: &[u8], v: &[u8]) -> bool {
    match t {
        0x03 => o.amount = Amount::from_sat(le64(v)),
        0x04 => o.script_pubkey = script(v),
        #[cfg(feature = "sp")]
        0x09 => o.sp_v0_info = Some(v.to_vec()),
        #[cfg(feature = "sp")]
        0x0a => o.sp_v0_label = Some(le32(v)),
        0xfc => { o.proprietaries.insert(prop2(kd), v.to_vec()); }
        0x08..=0xfb | 0xfd..=0xff => { o.unknowns.insert(psbt_v2::raw::Key { type_value: t, key: kd.to_vec() }, v.to_vec()); }
        _ => common_output!(o, t, kd, v, bip32_derivations),
    }
    true
}
pub fn set_global(g: &mut v2::Global, t: u8, kd: &[u8], v: &[u8]) -> bool {
    match t {
        0x01 => { g.xpubs.insert(xpub(kd), source(v)); }
        0x02 => g.tx_version = psbt_v2::bitcoin::transaction::Version(le32(v) as i32),
        0x03 => g.fallback_lock_time = Some(LockTime::from_consensus(le32(v))),
        0x06 => g.tx_modifiable_flags = v[0],
        #[cfg(feature = "sp")]
        0x07 => { g.sp_ecdh_shares.insert(ckey(kd), ckey(v)); }
        #[cfg(feature = "sp")]
        0x08 => { g.sp_dleq_proofs.insert(ckey(kd), proof(v)); }
        0xfc => { g.proprietaries.insert(prop2(kd), v.to_vec()); }
        0x07..=0xfa | 0xfd..=0xff => { g.unknowns.insert(psbt_v2::raw::Key { type_value: t, key: kd.to_vec() }, v.to_vec()); }
        _ => return false,
    }
    true
}
pub fn set2(p: &mut v2::Psbt, m: u8, n: usize, t: u8, kd: &[u8], v: &[u8]) -> bool {
    match m { 0 => set_global(&mut p.global, t, kd, v), 1 => set_input(&mut p.inputs[n], t, kd, v), _ => set_output(&mut p.outputs[n], t, kd, v) }
}

fn set_input0(i: &mut v0::bitcoin::Input, t: u8, kd: &[u8], v: &[u8]) -> bool {
    match t {
        0xfc => { i.proprietary.insert(prop0(kd), v.to_vec()); }
        0x09 | 0x19..=0xfb | 0xfd..=0xff => { i.unknown.insert(v0::bitcoin::raw::Key { type_value: t, key: kd.to_vec() }, v.to_vec()); }
        _ => common_input!(i, t, kd, v, bip32_derivation),
    }
    true
}
fn set_output0(o: &mut v0::bitcoin::Output, t: u8, kd: &[u8], v: &[u8]) -> bool {
    match t {
        0xfc => { o.proprietary.insert(prop0(kd), v.to_vec()); }
        0x08..=0xfb | 0xfd..=0xff => { o.unknown.insert(v0::bitcoin::raw::Key { type_value: t, key: kd.to_vec() }, v.to_vec()); }
        _ => common_output!(o, t, kd, v, bip32_derivation),
    }
    true
}
pub fn set0(p: &mut v0::Psbt, m: u8, n: usize, t: u8, kd: &[u8], v: &[u8]) -> bool {
    match m {
        0 => match t {
            0x01 => { p.xpub.insert(xpub(kd), source(v)); }
            0xfc => { p.proprietary.insert(prop0(kd), v.to_vec()); }
            0x07..=0xfa | 0xfd..=0xff => { p.unknown.insert(v0::bitcoin::raw::Key { type_value: t, key: kd.to_vec() }, v.to_vec()); }
            _ => return false,
        },
        1 => return set_input0(&mut p.inputs[n], t, kd, v),
        _ => return set_output0(&mut p.outputs[n], t, kd, v),
    }
    true
}
