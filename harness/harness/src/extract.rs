//! Extraction and the identifier.
use psbt_v2::bitcoin::hashes::{sha256d, Hash};
use psbt_v2::bitcoin::{absolute::LockTime, transaction::Version, ScriptBuf, Sequence, Transaction, TxIn, Txid, Witness};
use psbt_v2::v2::{Extractor, Signer, Updater};
use psbt_v2::v0;

use crate::fields;
use crate::gen::{self, name, I, O};
use crate::lock;
use crate::pairs;
use crate::round::{base0, base2, others};
use crate::sym::{self, ck, cover};

fn le32(b: &[u8]) -> u32 { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) }
fn le64(b: &[u8]) -> u64 { u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]) }
pub fn witness(w: &[Vec<u8>]) -> Witness { let mut r = Witness::new(); for x in w { r.push(&x[..]); } r }
/// Final scripts: (script sig, witness), each present or not.
fn finals(i: usize) -> (Option<Vec<u8>>, Option<Vec<Vec<u8>>>) {
    let small = i > 0;
    let ss = match sym::choice(&name("ss", i), if small { 2 } else { 4 }) { 0 => None, 1 => Some(vec![]), n => Some(sym::vec(&name("ssb", i), n as usize - 1)) };
    let w = match sym::choice(&name("wit", i), if small { 3 } else { 5 }) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![sym::vec(&name("wa", i), 2)]),
        3 => Some(vec![sym::vec(&name("wa", i), 1), vec![]]),
        _ => Some(vec![vec![], sym::vec(&name("wa", i), 253)]),
    };
    (ss, w)
}
fn outs(n: usize) -> Vec<O> { (0..n).map(|i| O { amt: sym::vec(&name("amt", i), 8), spk: sym::vec(&name("spk", i), 2 * i) }).collect() }
fn unsigned(ins: &[I]) -> Vec<I> { ins.iter().map(|i| I { ss: vec![], wit: vec![], ..i.clone() }).collect() }
fn zeroed(ins: &[I]) -> Vec<I> { unsigned(ins).into_iter().map(|i| I { seq: vec![0; 4], ..i }).collect() }
fn txid(b: &[u8]) -> Vec<u8> { sha256d::Hash::hash(b).to_byte_array().to_vec() }
fn idb(t: Txid) -> Vec<u8> { t.to_byte_array().to_vec() }

harnesses! {
    fn h_extract2() {
        let (nin, nout) = ((sym::shard() / 3) as usize, (sym::shard() % 3) as usize);
        let (mut p, req, fb) = lock::mk(nin);
        let lock = lock::reference(&req, fb);
        let ver = sym::vec("ver", 4);
        p.global.tx_version = Version(le32(&ver) as i32);
        let mut ins = vec![];
        let mut fin = true;
        for i in 0..nin {
            let (ss, w) = finals(i);
            fin &= ss.is_some() && w.is_some();
            let (txid, vout) = (sym::vec(&name("txid", i), 32), sym::vec(&name("vout", i), 4));
            fields::set_input(&mut p.inputs[i], 0x0e, &[], &txid);
            fields::set_input(&mut p.inputs[i], 0x0f, &[], &vout);
            let seq = if sym::choice(&name("hasseq", i), 2) == 1 { let s = sym::vec(&name("seq", i), 4); fields::set_input(&mut p.inputs[i], 0x10, &[], &s); s } else { vec![0xff; 4] };
            p.inputs[i].final_script_sig = ss.clone().map(ScriptBuf::from);
            p.inputs[i].final_script_witness = w.as_ref().map(|w| witness(w));
            ins.push(I { txid, vout, ss: ss.unwrap_or_default(), seq, wit: w.unwrap_or_default() });
        }
        let os = outs(nout);
        for o in &os { p.outputs.push(psbt_v2::v2::Output::new(gen::txout(le64(&o.amt), &o.spk))); }
        p.global.output_count = nout;
        ck(p.is_finalized() == fin, "finalized although a final script is missing, or not although all are there");
        match lock {
            Some(l) => match Signer::new(p.clone()) {
                Ok(s) => ck(gen::same(&gen::ser(&s.unsigned_tx()), &gen::tx_bytes(&ver, &unsigned(&ins), &os, &l.to_le_bytes())), "signers get another transaction than the PSBT describes"),
                Err(_) => sym::fail("signer refused"),
            },
            None => {}
        }
        match (Extractor::new(p), lock) {
            (Ok(x), Some(l)) => {
                sym::check(fin, "extractor accepts a PSBT that is not finalized");
                match x.extract_tx_unchecked_fee_rate() {
                    Ok(t) => ck(gen::same(&gen::ser(&t), &gen::tx_bytes(&ver, &ins, &os, &l.to_le_bytes())), "the extracted transaction is not the one constructed and signed"),
                    Err(_) => sym::fail("extraction fails"),
                }
                cover("extracted");
            }
            (Ok(_), None) => sym::fail("extractor accepts a PSBT without a lock time"),
            (Err(e), l) => { sym::seen(&e); sym::check(!fin || l.is_none(), "extractor refuses a finalized PSBT"); cover("refused"); }
        }
    }
    fn h_extract0() {
        let (nin, nout) = ((sym::shard() / 3) as usize, (sym::shard() % 3) as usize);
        let mut p = base0(nin as u8, nout as u8);
        let (ver, lock) = (sym::vec("ver", 4), sym::vec("lock", 4));
        p.unsigned_tx.version = Version(le32(&ver) as i32);
        p.unsigned_tx.lock_time = LockTime::from_consensus(le32(&lock));
        let mut ins = vec![];
        for i in 0..nin {
            let (ss, w) = finals(i);
            let (txid, vout, seq) = (sym::vec(&name("txid", i), 32), sym::vec(&name("vout", i), 4), sym::vec(&name("seq", i), 4));
            let t = &mut p.unsigned_tx.input[i];
            t.previous_output.txid = Txid::from_byte_array(fields::a32(&txid));
            t.previous_output.vout = le32(&vout);
            t.sequence = Sequence(le32(&seq));
            p.inputs[i].final_script_sig = ss.clone().map(ScriptBuf::from);
            p.inputs[i].final_script_witness = w.as_ref().map(|w| witness(w));
            ins.push(I { txid, vout, ss: ss.unwrap_or_default(), seq, wit: w.unwrap_or_default() });
        }
        let os = outs(nout);
        for (i, o) in os.iter().enumerate() { p.unsigned_tx.output[i] = gen::txout(le64(&o.amt), &o.spk); }
        ck(gen::same(&gen::ser(&p.extract_tx_unchecked_fee_rate()), &gen::tx_bytes(&ver, &ins, &os, &lock)), "extraction does more than fill in the final scripts");
        cover("extracted");
    }
    // A v0 PSBT is created from an unsigned transaction only.
    fn h_create0() {
        let n = sym::choice("inputs", 4) as usize;
        let mut ok = true;
        let mut t = Transaction { version: Version(2), lock_time: LockTime::ZERO, input: vec![], output: vec![gen::txout(1, &[0x51])] };
        for i in 0..n {
            let ss = sym::choice(&name("ss", i), 3) as usize;
            let w = match sym::choice(&name("wit", i), 3) { 0 => vec![], 1 => vec![vec![]], _ => vec![sym::vec(&name("w", i), 1)] };
            ok &= ss == 0 && w.is_empty();
            t.input.push(TxIn { previous_output: gen::outpoint(i as u8), script_sig: ScriptBuf::from(sym::vec(&name("ssb", i), ss)), sequence: Sequence(sym::u32(&name("seq", i))), witness: witness(&w) });
        }
        match v0::Psbt::from_unsigned_tx(t.clone()) {
            Ok(p) => {
                sym::check(ok, "created from a transaction that is not unsigned");
                ck(p.inputs.len() == n && p.outputs.len() == 1 && p.version == 0, "created with other numbers of maps");
                ck(p.xpub.is_empty() && p.proprietary.is_empty() && p.unknown.is_empty(), "created with extra data");
                for i in &p.inputs { sym::check(*i == v0::Input::default(), "created with extra input data"); }
                ck(gen::same(&gen::ser(&p.unsigned_tx), &gen::ser(&t)), "created with another transaction");
                cover("created");
            }
            Err(e) => { sym::seen(&e); sym::check(!ok, "refused to create from an unsigned transaction"); cover("refused"); }
        }
    }
    // The identifier is the txid with zero sequences, whatever the other fields hold.
    fn h_id() {
        let (nin, nout) = ((sym::shard() / 3) as usize, (sym::shard() % 3) as usize);
        let (mut p, _, _) = lock::mk(nin);
        let ver = sym::vec("ver", 4);
        p.global.tx_version = Version(le32(&ver) as i32);
        let mut ins = vec![];
        let fin = sym::choice("fin", 2) == 1;
        for i in 0..nin {
            let (txid, vout) = (sym::vec(&name("txid", i), 32), sym::vec(&name("vout", i), 4));
            fields::set_input(&mut p.inputs[i], 0x0e, &[], &txid);
            fields::set_input(&mut p.inputs[i], 0x0f, &[], &vout);
            let seq = if sym::choice(&name("hasseq", i), 2) == 1 { let s = sym::vec(&name("seq", i), 4); fields::set_input(&mut p.inputs[i], 0x10, &[], &s); s } else { vec![0xff; 4] };
            if fin { p.inputs[i].final_script_sig = Some(ScriptBuf::from(sym::vec(&name("ss", i), 2))); p.inputs[i].final_script_witness = Some(witness(&[sym::vec(&name("wit", i), 2)])); }
            ins.push(I { txid, vout, ss: vec![], seq, wit: vec![] });
        }
        let os = outs(nout);
        for o in &os { p.outputs.push(psbt_v2::v2::Output::new(gen::txout(le64(&o.amt), &o.spk))); }
        p.global.output_count = nout;
        let l = match p.determine_lock_time() { Ok(l) => l.to_consensus_u32(), Err(e) => {
            sym::seen(&e);
            match Signer::new(p) { Ok(s) => ck(s.id().is_err(), "an identifier without a lock time"), Err(_) => cover("refused") }
            return;
        } };
        let want = txid(&gen::tx_base(&ver, &zeroed(&ins), &os, &l.to_le_bytes()));
        let msg = "the identifier is not the txid with zeroed sequences";
        match Signer::new(p.clone()) { Ok(s) => match s.id() { Ok(t) => ck(gen::same(&idb(t), &want), msg), Err(_) => sym::fail("no identifier") }, Err(_) => sym::fail("signer refused") }
        if fin { match Extractor::new(p.clone()) { Ok(x) => { ck(gen::same(&idb(x.id()), &want), msg); cover("finalized"); } Err(_) => sym::fail("extractor refused") } }
        match Updater::new(p) {
            Ok(u) => {
                ck(gen::same(&idb(u.id()), &want), msg);
                if nin > 0 { match u.set_sequence(Sequence(sym::u32("newseq")), nin - 1) { Ok(u) => ck(gen::same(&idb(u.id()), &want), "the identifier depends on a sequence"), Err(_) => sym::fail("sequence refused") } }
                cover("id");
            }
            Err(_) => sym::fail("updater refused"),
        }
    }
    // Each other field leaves the identifier alone.
    fn h_id_fields() {
        let (m, t) = pairs::type_of(sym::shard());
        let p = base2(1, 1);
        let id = |p: psbt_v2::v2::Psbt| match Updater::new(p) { Ok(u) => idb(u.id()), Err(_) => sym::fail("updater refused") };
        let base = id(p.clone());
        if m == 0 && (t == 3 || t == 2) || m == 1 && (t == 0x11 || t == 0x12) { cover("same"); return; }
        let (kd, va) = pairs::form(m, t);
        let mut q = crate::round::Ps::A(p);
        let all = sym::choice("all", 2) == 1;
        if all { for (m2, x) in others(false, m, t) { if !(m2 == 0 && x.k[0] == 3 || m2 == 1 && (x.k[0] == 0x11 || x.k[0] == 0x12)) { q.set(m2, &x); } } }
        let k = pairs::keydata(kd);
        sym::assume(k.ok);
        let v = pairs::value(va, &k.b);
        sym::assume(v.ok);
        q.set(m, &gen::kv(t, &k.b, &v.b));
        if let crate::round::Ps::A(q) = q { ck(gen::same(&id(q), &base), "the identifier depends on a detail that does not belong to the transaction"); }
        cover("same");
    }
}
