//! Signature hashes, for v2 and v0, against BIP-143 and legacy messages assembled from plain bytes.
use psbt_v2::bitcoin::hashes::{sha256d, Hash};
use psbt_v2::bitcoin::sighash::SighashCache;
use psbt_v2::bitcoin::{absolute::LockTime, transaction::Version, ScriptBuf, Transaction, Txid};
use psbt_v2::{v0, v2, PsbtSighashType};

use crate::fields;
use crate::gen::{self, cs, name, I, O};
use crate::round::{base0, base2};
use crate::sym::{self, ck, cover};

/// What an input spends and how, in plain bytes.
#[derive(Clone)]
pub struct Spend {
    pub spk: Vec<u8>,
    pub redeem: Option<Vec<u8>>,
    pub wscript: Option<Vec<u8>>,
    /// How the signature hash is computed: `None` when it must be refused.
    pub how: Option<How>,
}
#[derive(Clone)]
pub enum How { Legacy(Vec<u8>), Segwit(Vec<u8>) }
pub fn p2pkh(h: &[u8]) -> Vec<u8> { [&[0x76, 0xa9, 20][..], h, &[0x88, 0xac]].concat() }
pub fn wpkh(h: &[u8]) -> Vec<u8> { [&[0, 20][..], h].concat() }
pub fn wsh(h: &[u8]) -> Vec<u8> { [&[0, 32][..], h].concat() }
pub fn sh(h: &[u8]) -> Vec<u8> { [&[0xa9, 20][..], h, &[0x87]].concat() }
pub const KINDS: u64 = 18;
/// A script without code separators.
fn script(what: &str, n: usize) -> Vec<u8> { let v = sym::vec(what, n); for b in &v { sym::assume(*b != 0xab); } v }
pub fn spend(kind: u64) -> Spend {
    let r = |spk: Vec<u8>, redeem: Option<Vec<u8>>, wscript: Option<Vec<u8>>, how| Spend { spk, redeem, wscript, how };
    let h20 = || sym::vec("h20", 20);
    let h32 = || sym::vec("h32", 32);
    match kind {
        0 => { let s = p2pkh(&h20()); r(s.clone(), None, None, Some(How::Legacy(s))) }
        1 => { let s = script("bare", 3); sym::assume(s[0] != 0 && (s[0] < 0x51 || s[0] > 0x60)); r(s.clone(), None, None, Some(How::Legacy(s))) }
        2 => r(vec![], Some(vec![0x51]), Some(vec![0x52]), Some(How::Legacy(vec![]))),
        3 => { let s = sh(&h20()); let c = script("redeem", 4); sym::assume(c[0] != 0); r(s, Some(c.clone()), None, Some(How::Legacy(c))) }
        4 => r(sh(&h20()), None, None, None),
        5 => r(sh(&h20()), None, Some(vec![0x51]), None),
        6 => { let k = h20(); r(sh(&sym::vec("s20", 20)), Some(wpkh(&k)), None, Some(How::Segwit(p2pkh(&k)))) }
        7 => { let w = script("ws", 3); r(sh(&h20()), Some(wsh(&h32())), Some(w.clone()), Some(How::Segwit(w))) }
        8 => r(sh(&h20()), Some(wsh(&h32())), None, None),
        9 => { let k = h20(); r(wpkh(&k), None, None, Some(How::Segwit(p2pkh(&k)))) }
        10 => { let w = script("ws", 3); r(wsh(&h32()), None, Some(w.clone()), Some(How::Segwit(w))) }
        11 => r(wsh(&h32()), Some(vec![0x51]), None, None),
        12 => r([&[0x51, 32][..], &h32()].concat(), None, None, None),
        13 => { let v = sym::choice("wver", 15) as u8; r([&[0x52 + v, 32][..], &h32()].concat(), None, None, None) }
        14 => r([&[0x51, 20][..], &h20()].concat(), Some(vec![0x51]), Some(vec![0x51]), None),
        15 => r([&[0, 2][..], &sym::vec("h2", 2)].concat(), None, None, None),
        16 => { let w = vec![0x53; 253]; r(wsh(&h32()), None, Some(w.clone()), Some(How::Segwit(w))) }
        _ => { let c = vec![0x51; 300]; r(sh(&h20()), Some(c.clone()), Some(vec![0x51]), Some(How::Legacy(c))) }
    }
}
fn dsha(b: &[u8]) -> Vec<u8> { sha256d::Hash::hash(b).to_byte_array().to_vec() }
/// The signature hash prescribed by consensus for input `i`, whose sighash type is one of the six standard ones.
pub fn prescribed(how: &How, ver: &[u8], ins: &[I], outs: &[O], lock: &[u8], i: usize, amount: &[u8], ty: u8) -> Vec<u8> {
    let (acp, base) = (ty & 0x80 != 0, ty & 0x1f);
    let tyb = [ty, 0, 0, 0];
    let out = |o: &O| [&o.amt[..], &cs(o.spk.len() as u64), &o.spk].concat();
    match how {
        How::Segwit(code) => {
            let z = vec![0; 32];
            let prevs: Vec<u8> = ins.iter().flat_map(|x| [&x.txid[..], &x.vout].concat()).collect();
            let seqs: Vec<u8> = ins.iter().flat_map(|x| x.seq.clone()).collect();
            let all: Vec<u8> = outs.iter().flat_map(out).collect();
            let hp = if acp { z.clone() } else { dsha(&prevs) };
            let hs = if acp || base != 1 { z.clone() } else { dsha(&seqs) };
            let ho = if base == 1 { dsha(&all) } else if base == 3 && i < outs.len() { dsha(&out(&outs[i])) } else { z };
            let x = &ins[i];
            dsha(&[ver, &hp, &hs, &x.txid, &x.vout, &cs(code.len() as u64), code, amount, &x.seq, &ho, lock, &tyb].concat())
        }
        How::Legacy(code) => {
            if base == 3 && i >= outs.len() { let mut one = vec![0; 32]; one[0] = 1; return one; }
            let mut is: Vec<I> = vec![];
            for (j, x) in ins.iter().enumerate() {
                if acp && j != i { continue; }
                let mut x = I { ss: if j == i { code.clone() } else { vec![] }, wit: vec![], ..x.clone() };
                if j != i && base != 1 { x.seq = vec![0; 4]; }
                is.push(x);
            }
            let os: Vec<O> = match base {
                1 => outs.to_vec(),
                2 => vec![],
                _ => (0..=i).map(|j| if j == i { outs[j].clone() } else { O { amt: vec![0xff; 8], spk: vec![] } }).collect(),
            };
            dsha(&[&gen::tx_base(ver, &is, &os, lock)[..], &tyb].concat())
        }
    }
}
fn le32(b: &[u8]) -> u32 { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) }
pub fn le64(b: &[u8]) -> u64 { u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]) }
pub const SIX: [u8; 6] = [1, 2, 3, 0x81, 0x82, 0x83];

/// A transaction with symbolic fields, as plain bytes and as PSBT.
pub struct Case { pub ver: Vec<u8>, pub ins: Vec<I>, pub outs: Vec<O>, pub lock: Vec<u8> }
pub fn case(nin: usize, nout: usize) -> Case {
    Case {
        ver: sym::vec("ver", 4),
        ins: (0..nin).map(|i| I { txid: sym::vec(&name("txid", i), 32), vout: if i == 0 { vec![1, 0, 0, 0] } else { sym::vec(&name("vout", i), 4) }, ss: vec![], seq: sym::vec(&name("seq", i), 4), wit: vec![] }).collect(),
        outs: (0..nout).map(|i| O { amt: sym::vec(&name("amt", i), 8), spk: sym::vec(&name("spk", i), i + 1) }).collect(),
        lock: sym::vec("lock", 4),
    }
}
pub fn to2(c: &Case) -> v2::Psbt {
    let mut p = base2(c.ins.len(), c.outs.len());
    p.global.tx_version = Version(le32(&c.ver) as i32);
    p.global.fallback_lock_time = Some(LockTime::from_consensus(le32(&c.lock)));
    for (x, y) in p.inputs.iter_mut().zip(&c.ins) {
        fields::set_input(x, 0x0e, &[], &y.txid);
        fields::set_input(x, 0x0f, &[], &y.vout);
        fields::set_input(x, 0x10, &[], &y.seq);
    }
    for (x, y) in p.outputs.iter_mut().zip(&c.outs) { fields::set_output(x, 3, &[], &y.amt); fields::set_output(x, 4, &[], &y.spk); }
    p
}
pub fn to0(c: &Case) -> v0::Psbt {
    let mut p = base0(c.ins.len() as u8, c.outs.len() as u8);
    p.unsigned_tx.version = Version(le32(&c.ver) as i32);
    p.unsigned_tx.lock_time = LockTime::from_consensus(le32(&c.lock));
    for (x, y) in p.unsigned_tx.input.iter_mut().zip(&c.ins) {
        x.previous_output.txid = Txid::from_byte_array(fields::a32(&y.txid));
        x.previous_output.vout = le32(&y.vout);
        x.sequence = psbt_v2::bitcoin::Sequence(le32(&y.seq));
    }
    for (x, y) in p.unsigned_tx.output.iter_mut().zip(&c.outs) { *x = gen::txout(le64(&y.amt), &y.spk); }
    p
}
pub fn prev(outs: &[(u64, Vec<u8>)]) -> Transaction {
    Transaction { version: Version(1), lock_time: LockTime::ZERO, input: vec![], output: outs.iter().map(|(a, s)| gen::txout(*a, s)).collect() }
}

fn sighash(v0: bool) {
    let s = spend(sym::shard());
    let nin = 1 + sym::choice("inputs", 2) as usize;
    let nout = sym::choice("outputs", 3) as usize;
    let at = sym::choice("at", nin as u64) as usize;
    let mut c = case(nin, nout);
    c.ins[at].vout = sym::vec("vout", 4);
    let amount = sym::vec("amount", 8);
    // the spent output
    let fund = sym::choice("fund", 5);
    let (mut w, mut n) = (None, None);
    let mut ok = true;
    match fund {
        0 => w = Some(gen::txout(le64(&amount), &s.spk)),
        1 => { n = Some(prev(&[(7, vec![0x51]), (le64(&amount), s.spk.clone())])); sym::assume(c.ins[at].vout == [1, 0, 0, 0]); }
        2 => { w = Some(gen::txout(le64(&amount), &s.spk)); n = Some(prev(&[(7, vec![0x51])])); }
        3 => { n = Some(prev(&[(le64(&amount), s.spk.clone()), (7, vec![0x51])])); sym::assume(le32(&c.ins[at].vout) >= 2); ok = false; }
        _ => ok = false,
    }
    let types = sym::choice("type", 3);
    let ty = match types { 0 => None, 1 => Some(SIX[sym::choice("std", 6) as usize] as u32), _ => { let t = sym::u32("ty"); for x in SIX { sym::assume(t != x as u32); } Some(t) } };
    let pty = ty.map(PsbtSighashType::from_u32);
    let index = match sym::choice("index", 3) { 0 => at as u64, 1 => nin as u64, _ => { let i = sym::u64("idx"); sym::assume(i > nin as u64); i } } as usize;
    let (red, ws) = (s.redeem.clone().map(ScriptBuf::from), s.wscript.clone().map(ScriptBuf::from));
    let got: Result<(Vec<u8>, u32), ()> = if v0 {
        let mut p = to0(&c);
        let x = &mut p.inputs[at];
        (x.witness_utxo, x.non_witness_utxo, x.sighash_type, x.redeem_script, x.witness_script) = (w, n, pty, red, ws);
        let tx = p.unsigned_tx.clone();
        match p.spend_utxo(index) {
            Ok(o) => { sym::check(ok && index == at, "a spent output is given although there is none"); ck(gen::same(o.script_pubkey.as_bytes(), &s.spk) && o.value.to_sat() == le64(&amount), "another output than the one spent"); }
            Err(e) => { sym::seen(&e); sym::check(!ok || index != at, "the spent output is refused") }
        }
        let r = p.sighash_ecdsa(index, &mut SighashCache::new(&tx));
        r.map(|(m, t)| (m.as_ref().to_vec(), t as u32)).map_err(|e| sym::look(&e))
    } else {
        let mut p = to2(&c);
        let x = &mut p.inputs[at];
        (x.witness_utxo, x.non_witness_utxo, x.sighash_type, x.redeem_script, x.witness_script) = (w, n, pty, red, ws);
        let tx = match v2::Signer::new(p.clone()) { Ok(s) => s.unsigned_tx(), Err(_) => sym::fail("signer refused") };
        let r = p.sighash_ecdsa(index, &mut SighashCache::new(&tx));
        r.map(|(m, t)| (m.as_ref().to_vec(), t as u32)).map_err(|e| sym::look(&e))
    };
    let fine = ok && index == at && types != 2;
    match (got, &s.how) {
        (Ok((m, t)), Some(how)) => {
            sym::check(fine, "a signature hash although the spent output or sighash type is not usable");
            let want = ty.unwrap_or(1);
            ck(t == want, "the signature hash is for another sighash type");
            ck(gen::same(&m, &prescribed(how, &c.ver, &c.ins, &c.outs, &c.lock, at, &amount, want as u8)), "the signature hash is not the one consensus prescribes");
            cover("hash");
        }
        (Ok(_), None) => sym::fail("a signature hash although script data is missing or the output is of another kind"),
        (Err(()), h) => { sym::check(!fine || h.is_none(), "the signature hash is refused"); cover("refused"); }
    }
}

harnesses! {
    fn h_sighash2() { sighash(false) }
    fn h_sighash0() { sighash(true) }
    // Numeric forms of the PSBT sighash type.
    fn h_ty() {
        let n = sym::u32("n");
        let t = PsbtSighashType::from_u32(n);
        ck(t.to_u32() == n, "another number than given");
        let b = n as u8;
        let small = n < 256;
        let six = small && matches!(b, 1 | 2 | 3 | 0x81 | 0x82 | 0x83);
        match t.ecdsa_hash_ty() {
            Ok(e) => { sym::check(six, "converted to an ECDSA type although it is none"); ck(e as u32 == n && e.to_u32() == n, "converted to another ECDSA type"); ck(PsbtSighashType::from(e) == t, "conversion back differs"); cover("ecdsa"); }
            Err(e) => { sym::seen(&e); sym::check(!six, "a standard ECDSA type is refused"); cover("refused"); }
        }
        match t.taproot_hash_ty() {
            Ok(e) => { sym::check(six || n == 0, "converted to a taproot type although it is none"); ck(e as u32 == n, "converted to another taproot type"); ck(PsbtSighashType::from(e) == t, "conversion back differs"); cover("taproot"); }
            Err(e) => { sym::seen(&e); sym::check(!six && n != 0, "a taproot type is refused") },
        }
        // the same through inputs, with the defaults
        let set = sym::choice("set", 2) == 1;
        let (mut x, mut y) = (v2::Input::new(&gen::outpoint(0)), v0::Input::default());
        if set { x.sighash_type = Some(t); y.sighash_type = Some(t); }
        let (e, f) = (x.ecdsa_hash_ty().ok(), x.taproot_hash_ty().ok());
        let want_e = if set { t.ecdsa_hash_ty().ok() } else { Some(psbt_v2::bitcoin::EcdsaSighashType::All) };
        let want_t = if set { t.taproot_hash_ty().ok() } else { Some(psbt_v2::bitcoin::TapSighashType::Default) };
        sym::check(e == want_e && y.ecdsa_hash_ty().ok() == want_e, "the input's ECDSA type is not the one set, or ALL");
        sym::check(f == want_t && y.taproot_hash_ty().ok() == want_t, "the input's taproot type is not the one set, or DEFAULT");
    }
    // The text form.
    fn h_ty_text() {
        use core::str::FromStr;
        let w = sym::shard() + 1; // hex digits
        let n = sym::u32("n");
        if w < 8 { sym::assume(n >> (4 * w) == 0); }
        if w > 1 { sym::assume(n >> (4 * (w - 1)) != 0); }
        let t = PsbtSighashType::from_u32(n);
        let s = t.to_string();
        match PsbtSighashType::from_str(&s) {
            Ok(u) => ck(u.to_u32() == n, "the text form parses to another value"),
            Err(_) => sym::fail("the text form does not parse"),
        }
        cover("text");
    }
}
