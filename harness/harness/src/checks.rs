//! The v0 signer checks, against the conditions listed in BIP-174.
use psbt_v2::bitcoin::hashes::{hash160, sha256, sha256d, Hash};
use psbt_v2::bitcoin::{ScriptBuf, Transaction};

use crate::gen::{self, same};
use crate::sighash::{self, p2pkh, sh, wpkh, wsh};
use crate::sym::{self, cover};

fn h160(b: &[u8]) -> Vec<u8> { hash160::Hash::hash(b).to_byte_array().to_vec() }
fn h256(b: &[u8]) -> Vec<u8> { sha256::Hash::hash(b).to_byte_array().to_vec() }

struct In { spk: Vec<u8>, w: bool, n: u64, txid_ok: bool, redeem: Option<Vec<u8>>, ws: Option<Vec<u8>> }
/// The first input: everything; a second one: a plain or a nested segwit input that is fine, or one that is not.
fn first(prev: &Transaction, txid: &mut Vec<u8>) -> In {
    let shard = sym::shard();
    let ws = [None, Some(vec![]), Some(vec![0x51, 0xac]), Some([&[0, 20][..], &[5; 20]].concat())][sym::choice("ws", 4) as usize].clone();
    let code = ws.clone().unwrap_or(vec![0x52]);
    let redeem = match sym::choice("redeem", if shard == 1 { 5 } else { 6 }) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![0x51, 0x52, 0xae]),
        3 => Some(wpkh(&[5; 20])),
        4 => Some(wsh(&h256(&code))),
        _ => Some(wsh(&sym::vec("rh", 32))),
    };
    let r = redeem.clone().unwrap_or(vec![0x52]);
    let spk = match shard {
        0 => sh(&h160(&r)),
        1 => sh(&sym::vec("h20", 20)),
        2 => wsh(&sym::vec("h32", 32)),
        3 => wpkh(&sym::vec("h20", 20)),
        4 => [&[0x51, 32][..], &sym::vec("h32", 32)].concat(),
        5 => p2pkh(&sym::vec("h20", 20)),
        6 => { let s = sym::vec("bare", 2); s }
        _ => wsh(&h256(&r)),
    };
    let utxo = sym::choice("utxo", 6);
    let (w, n) = match utxo { 0 => (false, 0), 1 => (true, 0), 2 => (false, 1), 3 => (true, 1), 4 => (false, 2), _ => (true, 2) };
    let txid_ok = n == 0 || sym::choice("prev", 2) == 0;
    let own = txid_of(&with(prev, &spk));
    if n > 0 { if txid_ok { *txid = own; } else { sym::assume(!same(txid, &own)); } }
    In { spk, w, n, txid_ok, redeem, ws }
}
fn with(prev: &Transaction, spk: &[u8]) -> Transaction { let mut t = prev.clone(); t.output[1].script_pubkey = ScriptBuf::from(spk.to_vec()); t }
fn txid_of(t: &Transaction) -> Vec<u8> {
    let outs: Vec<gen::O> = t.output.iter().map(|o| gen::O { amt: o.value.to_sat().to_le_bytes().to_vec(), spk: o.script_pubkey.to_bytes() }).collect();
    let b = gen::tx_base(&[1, 0, 0, 0], &[], &outs, &[0; 4]);
    sha256d::Hash::hash(&b).to_byte_array().to_vec()
}
/// Whether BIP-174 lets a signer go on with this input.
fn fine(x: &In) -> bool {
    let p2sh = x.spk.len() == 23 && x.spk[0] == 0xa9 && x.spk[1] == 20 && x.spk[22] == 0x87;
    let program = x.spk.len() >= 4 && x.spk.len() <= 42 && (x.spk[0] == 0 || (x.spk[0] >= 0x51 && x.spk[0] <= 0x60)) && x.spk[1] as usize == x.spk.len() - 2;
    let r = x.redeem.as_ref();
    let nested = r.map_or(false, |r| (r.len() == 22 && r[0] == 0 && r[1] == 20) || (r.len() == 34 && r[0] == 0 && r[1] == 32));
    let have = x.w || x.n == 1;
    // a previous transaction is the one spent from
    if x.n > 0 && !x.txid_ok { return false; }
    // a witness UTXO is for witness signatures only
    if x.w && ((!p2sh && !program) || (p2sh && r.is_some() && !nested)) { return false; }
    if let Some(r) = r { if !have || !same(&x.spk, &sh(&h160(r))) { return false; } }
    if let Some(s) = &x.ws {
        let p = wsh(&h256(s));
        if !have || !(same(&x.spk, &p) || r.map_or(false, |r| same(r, &p))) { return false; }
    }
    true
}

harnesses! {
    // Shards: the kind of the spent output.
    fn h_checks0() {
        let nin = 1 + sym::choice("inputs", 2) as usize;
        let at = sym::choice("at", nin as u64) as usize;
        let mut c = sighash::case(nin, 1);
        let prev = sighash::prev(&[(7, vec![0x51]), (9, vec![])]);
        let x = first(&prev, &mut c.ins[at].txid);
        let other = if nin > 1 { sym::choice("other", 3) } else { 0 };
        // the outpoint's index: 1 where the previous transaction has the output, else beyond it
        if x.n == 2 { c.ins[at].vout = sym::vec("vout", 4); sym::assume(u32::from_le_bytes([c.ins[at].vout[0], c.ins[at].vout[1], c.ins[at].vout[2], c.ins[at].vout[3]]) >= 2); } else { c.ins[at].vout = vec![1, 0, 0, 0]; }
        let mut p = sighash::to0(&c);
        let y = &mut p.inputs[at];
        if x.w { y.witness_utxo = Some(gen::txout(5, &x.spk)); }
        if x.n > 0 { y.non_witness_utxo = Some(with(&prev, &x.spk)); }
        y.redeem_script = x.redeem.clone().map(ScriptBuf::from);
        y.witness_script = x.ws.clone().map(ScriptBuf::from);
        let mut ok = fine(&x);
        if nin > 1 {
            let y = &mut p.inputs[1 - at];
            match other {
                0 => y.witness_utxo = Some(gen::txout(5, &wpkh(&[3; 20]))),
                1 => { let code = vec![0x53]; let r = wsh(&h256(&code)); y.witness_utxo = Some(gen::txout(5, &sh(&h160(&r)))); y.redeem_script = Some(ScriptBuf::from(r)); y.witness_script = Some(ScriptBuf::from(code)); }
                _ => { y.witness_utxo = Some(gen::txout(5, &wpkh(&[3; 20]))); y.redeem_script = Some(ScriptBuf::from(vec![0x51])); ok = false; }
            }
        }
        let r = p.signer_checks().map_err(|e| sym::look(&e));
        sym::check(!r.is_ok() || ok, "the signer checks pass although a condition of BIP-174 is violated");
        sym::check(r.is_ok() || !ok, "the signer checks fail although all conditions of BIP-174 hold");
        cover(if ok { "pass" } else { "fail" });
    }
}
