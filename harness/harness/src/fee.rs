//! Fees, funding outputs and fee-rate caps.
use psbt_v2::bitcoin::{absolute::LockTime, transaction::Version, FeeRate, ScriptBuf, Transaction, Witness};
use psbt_v2::v0;
use psbt_v2::v2;

use crate::gen::{self, name, I, O};
use crate::round::{base0, base2};
use crate::sym::{self, ck, cover};

/// A previous transaction with the given output amounts.
fn prev(amounts: &[u64]) -> Transaction {
    Transaction { version: Version(2), lock_time: LockTime::ZERO, input: vec![], output: amounts.iter().map(|a| gen::txout(*a, &[0x51])).collect() }
}
/// Funding data of one input and the amount it stands for.
struct Fund { wit: Option<u64>, prev: Option<Vec<u64>>, vout: u32 }
fn fund(i: usize) -> Fund {
    let nout = 3;
    match sym::choice(&name("fund", i), 4 + nout) {
        0 => Fund { wit: None, prev: None, vout: sym::u32(&name("vout", i)) },
        1 => Fund { wit: Some(sym::u64(&name("wit", i))), prev: None, vout: sym::u32(&name("vout", i)) },
        k if k < 2 + nout => Fund { wit: None, prev: Some((0..k - 2).map(|_| sym::u64(&name("out", i))).collect()), vout: sym::u32(&name("vout", i)) },
        k => Fund { wit: Some(sym::u64(&name("wit", i))), prev: Some((0..(k - 2 - nout)).map(|_| sym::u64(&name("out", i))).collect()), vout: sym::u32(&name("vout", i)) },
    }
}
impl Fund {
    fn value(&self) -> Option<u64> {
        if self.wit.is_some() { return self.wit; }
        for (j, a) in self.prev.as_ref()?.iter().enumerate() { if self.vout == j as u32 { return Some(*a); } }
        None
    }
    fn out(&self) -> Option<psbt_v2::bitcoin::TxOut> { self.wit.map(|a| gen::txout(a, &[0x52])) }
}
/// Exact sums; `None` when there is no exact, representable, non-negative fee.
fn want(ins: &[Option<u64>], outs: &[u64]) -> Option<u64> {
    let (mut a, mut b) = (0u64, 0u64);
    let mut over = false;
    for i in ins { let n = a.wrapping_add((*i)?); over |= n < a; a = n; }
    for o in outs { let n = b.wrapping_add(*o); over |= n < b; b = n; }
    if over || b > a { None } else { Some(a - b) }
}
fn decide<E: std::error::Error>(got: Result<psbt_v2::bitcoin::Amount, E>, want: Option<u64>) {
    match (got, want) {
        (Ok(f), Some(w)) => { ck(f.to_sat() == w, "the fee is not inputs minus outputs"); cover("fee"); }
        (Err(e), None) => { sym::seen(&e); cover("refused") },
        (Ok(_), None) => sym::fail("a fee is given although there is none"),
        (Err(_), Some(_)) => sym::fail("the fee is refused although it is known"),
    }
}
fn outs(n: usize) -> Vec<u64> { (0..n).map(|i| sym::u64(&name("amount", i))).collect() }

/// A finalized v2 or any v0 PSBT with a known or unknown fee, its fee and the weight of the extracted transaction.
///
/// Three parts, so that the solver only meets divisions it can decide: amounts and limit of 32 bits;
/// corner-case amounts and any limit; any amounts and limits next to which the rate can be without a division.
fn cap_case(nin: usize, nout: usize) -> (Vec<I>, Vec<O>, Vec<Option<u64>>, Vec<u64>, u64, u64) {
    let part = sym::choice("part", 3);
    let num = |s: &str, i: usize| match part {
        0 => sym::u32(&name(s, i)) as u64,
        1 if i > 0 => [546, u64::MAX][sym::choice(&name(s, i), 2) as usize],
        1 => [0, 546, 100_000_000, 2_100_000_000_000_000, u64::MAX / 1000, u64::MAX / 1000 + 1, 1 << 63, u64::MAX][sym::choice(&name(s, i), 8) as usize],
        _ => sym::u64(&name(s, i)),
    };
    let how = if part == 0 { sym::choice("how", 3) } else { 0 };
    let limit = match (how, part) { (0, 0) => sym::u32("limit") as u64, (0, 1) => sym::u64("limit"), (0, _) => [0, u64::MAX][sym::choice("limit", 2) as usize], _ => 25_000 * 250 };
    let mut ins = vec![];
    let mut vals = vec![];
    for i in 0..nin {
        let seg = sym::choice(&name("seg", i), 2) == 1;
        ins.push(I { txid: vec![i as u8 + 1; 32], vout: vec![i as u8, 0, 0, 0], ss: vec![0x51; if seg { 0 } else { 3 }], seq: vec![0xff; 4], wit: if seg { vec![vec![1; 2], vec![]] } else { vec![] } });
        vals.push(if i == 0 && part == 0 && sym::choice("missing", 2) == 1 { None } else { Some(num("value", i)) });
    }
    let amts: Vec<u64> = (0..nout).map(|i| num("amount", i)).collect();
    let os = (0..nout).map(|i| O { amt: amts[i].to_le_bytes().to_vec(), spk: vec![0x51, i as u8] }).collect();
    (ins, os, vals, amts, how, limit)
}
fn wit(w: &[Vec<u8>]) -> Witness { let mut r = Witness::new(); for x in w { r.push(&x[..]); } r }
/// Is the rate within the limit? The product saturates at 64 bits: such a rate is above every limit that means anything.
fn within(fee: u64, weight: u64, limit: u64) -> bool {
    let m = if fee as u128 * 1000 > u64::MAX as u128 { u64::MAX } else { fee * 1000 };
    m / weight <= limit
}

harnesses! {
    fn h_fee2() {
        let (nin, nout) = ((sym::shard() / 4) as usize, (sym::shard() % 4) as usize);
        let mut p = base2(nin, nout);
        let mut vals = vec![];
        for i in 0..nin {
            let f = fund(i);
            p.inputs[i].witness_utxo = f.out();
            p.inputs[i].non_witness_utxo = f.prev.as_ref().map(|o| prev(o));
            p.inputs[i].spent_output_index = f.vout;
            let v = f.value();
            match (p.inputs[i].funding_utxo(), v) {
                (Ok(o), Some(v)) => { ck(o.value.to_sat() == v, "another funding output than the one spent"); ck(o.script_pubkey.as_bytes() == if f.wit.is_some() { &[0x52] } else { &[0x51] }, "another funding script"); }
                (Err(e), None) => { sym::seen(&e); cover("no utxo") },
                (Ok(_), None) => sym::fail("a funding output is given although there is none"),
                (Err(_), Some(_)) => sym::fail("the funding output is refused"),
            }
            vals.push(v);
        }
        let got: Vec<Option<u64>> = p.iter_funding_utxos().map(|r| r.ok().map(|o| o.value.to_sat())).collect();
        ck(got.len() == nin, "not every input has a funding output or an error");
        for (a, b) in got.iter().zip(&vals) { match (a, b) { (Some(a), Some(b)) => ck(a == b, "funding outputs are out of order"), (None, None) => {}, _ => sym::fail("funding outputs are out of order") } }
        let amts = outs(nout);
        for i in 0..nout { p.outputs[i].amount = psbt_v2::bitcoin::Amount::from_sat(amts[i]); }
        decide(p.fee(), want(&vals, &amts));
    }
    fn h_fee0() {
        let (nin, nout) = ((sym::shard() / 4) as u8, (sym::shard() % 4) as u8);
        let mut p = base0(nin, nout);
        let mut vals = vec![];
        for i in 0..nin as usize {
            let f = fund(i);
            p.inputs[i].witness_utxo = f.out();
            p.inputs[i].non_witness_utxo = f.prev.as_ref().map(|o| prev(o));
            p.unsigned_tx.input[i].previous_output.vout = f.vout;
            vals.push(f.value());
        }
        let got: Vec<Option<u64>> = p.iter_funding_utxos().map(|r| r.ok().map(|o| o.value.to_sat())).collect();
        ck(got.len() == nin as usize, "not every input has a funding output or an error");
        for (a, b) in got.iter().zip(&vals) { match (a, b) { (Some(a), Some(b)) => ck(a == b, "funding outputs are out of order"), (None, None) => cover("no utxo"), _ => sym::fail("funding outputs are out of order") } }
        let amts = outs(nout as usize);
        for i in 0..nout as usize { p.unsigned_tx.output[i].value = psbt_v2::bitcoin::Amount::from_sat(amts[i]); }
        decide(p.fee(), want(&vals, &amts));
    }
    // Extraction with a fee-rate limit.
    fn h_cap0() {
        let (nin, nout) = ((sym::shard() / 3) as usize, (sym::shard() % 3) as usize);
        let (ins, os, mut vals, amts, how, limit) = cap_case(nin, nout);
        let mut p = base0(nin as u8, nout as u8);
        let odd = nin > 0 && vals[0].is_none() && sym::choice("oob", 2) == 1;
        for i in 0..nin {
            p.inputs[i].witness_utxo = vals[i].map(|v| gen::txout(v, &[0x51]));
            if !ins[i].ss.is_empty() { p.inputs[i].final_script_sig = Some(ScriptBuf::from(ins[i].ss.clone())); }
            if !ins[i].wit.is_empty() { p.inputs[i].final_script_witness = Some(wit(&ins[i].wit)); }
        }
        if odd { p.inputs[0].witness_utxo = None; p.inputs[0].non_witness_utxo = Some(prev(&[])); vals[0] = None; }
        for i in 0..nout { p.unsigned_tx.output[i].value = psbt_v2::bitcoin::Amount::from_sat(amts[i]); }
        let want_tx = gen::tx_bytes(&[2, 0, 0, 0], &ins, &os, &[0; 4]);
        let fee = want(&vals, &amts);
        let ok = match fee { Some(f) => within(f, gen::weight(&ins, &os), limit), None => false };
        ck(gen::same(&gen::ser(&p.clone().extract_tx_unchecked_fee_rate()), &want_tx), "unchecked extraction gives another transaction");
        let got = match how { 0 => p.extract_tx_with_fee_rate_limit(FeeRate::from_sat_per_kwu(limit)), 1 => p.extract_tx(), _ => p.extract_tx_fee_rate_limit() };
        match got {
            Ok(t) => { sym::check(ok, "extracted although the fee is unknown or its rate above the limit"); ck(gen::same(&gen::ser(&t), &want_tx), "extraction gives another transaction"); cover("extracted"); }
            Err(v0::bitcoin::ExtractTxError::AbsurdFeeRate { tx, .. }) => { sym::check(!ok, "refused although the rate is within the limit"); ck(gen::same(&gen::ser(&tx), &want_tx), "the error carries another transaction"); cover("refused"); }
            Err(e) => { sym::seen(&e); sym::check(!ok, "refused although the rate is within the limit"); cover("refused"); }
        }
    }
    fn h_cap2() {
        let (nin, nout) = ((sym::shard() / 3) as usize, (sym::shard() % 3) as usize);
        let (ins, os, vals, amts, how, limit) = cap_case(nin, nout);
        let mut p = base2(nin, nout);
        for i in 0..nin {
            p.inputs[i].witness_utxo = vals[i].map(|v| gen::txout(v, &[0x51]));
            p.inputs[i].final_script_sig = Some(ScriptBuf::from(ins[i].ss.clone()));
            p.inputs[i].final_script_witness = Some(wit(&ins[i].wit));
        }
        for i in 0..nout { p.outputs[i].amount = psbt_v2::bitcoin::Amount::from_sat(amts[i]); p.outputs[i].script_pubkey = ScriptBuf::from(os[i].spk.clone()); }
        let want_tx = gen::tx_bytes(&[2, 0, 0, 0], &ins, &os, &[0; 4]);
        let fee = want(&vals, &amts);
        let ok = match fee { Some(f) => within(f, gen::weight(&ins, &os), limit), None => false };
        let x = match v2::Extractor::new(p) { Ok(x) => x, Err(_) => sym::fail("a finalized PSBT is refused") };
        match x.extract_tx_unchecked_fee_rate() { Ok(t) => ck(gen::same(&gen::ser(&t), &want_tx), "unchecked extraction gives another transaction"), Err(_) => sym::fail("unchecked extraction fails") }
        let got = match how { 0 => x.extract_tx_with_fee_rate_limit(FeeRate::from_sat_per_kwu(limit)), 1 => x.extract_tx(), _ => x.extract_tx_fee_rate_limit() };
        match got {
            Ok(t) => { sym::check(ok, "extracted although the fee is unknown or its rate above the limit"); ck(gen::same(&gen::ser(&t), &want_tx), "extraction gives another transaction"); cover("extracted"); }
            Err(e) => { sym::seen(&e); sym::check(!ok, "refused although the rate is within the limit"); cover("refused"); }
        }
    }
}
