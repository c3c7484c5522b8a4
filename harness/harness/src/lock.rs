//! Lock time determination.
use psbt_v2::bitcoin::absolute::LockTime;
use psbt_v2::v2::{Constructor, Input, Modifiable, Psbt, Signer, Updater};

use crate::gen::{self, name, THRESHOLD};
use crate::sym::{self, ck, cover};

/// A PSBT with `n` inputs whose lock time fields are symbolic, and the plain values of those fields.
pub fn mk(n: usize) -> (Psbt, Vec<(Option<u32>, Option<u32>)>, Option<u32>) {
    let mut ins = vec![];
    let mut req = vec![];
    for i in 0..n {
        let kind = sym::choice(&name("kind", i), 4);
        let t = if kind & 1 != 0 { Some(sym::u32(&name("time", i))) } else { None };
        let h = if kind & 2 != 0 { Some(sym::u32(&name("height", i))) } else { None };
        let mut inp = Input::new(&gen::outpoint(i as u8));
        inp.min_time = t.map(gen::time);
        inp.min_height = h.map(gen::height);
        ins.push(inp);
        req.push((t, h));
    }
    let mut p = gen::psbt(ins, vec![]);
    let fb = if sym::choice("has_fallback", 2) == 1 { Some(sym::u32("fallback")) } else { None };
    p.global.fallback_lock_time = fb.map(LockTime::from_consensus);
    (p, req, fb)
}

/// BIP-370 "Determining Lock Time", written down independently over plain integers.
/// `None`: the lock time cannot be determined.
pub fn reference(req: &[(Option<u32>, Option<u32>)], fallback: Option<u32>) -> Option<u32> {
    let mut can_time = true;
    let mut can_height = true;
    let mut any = false;
    let mut max_t = 0u32;
    let mut max_h = 0u32;
    for (t, h) in req {
        match (t, h) {
            (None, None) => {}
            (Some(_), None) => { can_height = false; any = true }
            (None, Some(_)) => { can_time = false; any = true }
            (Some(_), Some(_)) => any = true,
        }
        // branch-free maximum
        if let Some(t) = t { let g = (*t > max_t) as u32; max_t = g.wrapping_neg() & *t | g.wrapping_sub(1) & max_t; }
        if let Some(h) = h { let g = (*h > max_h) as u32; max_h = g.wrapping_neg() & *h | g.wrapping_sub(1) & max_h; }
    }
    if !any { return Some(fallback.unwrap_or(0)); }
    if can_height { Some(max_h) } else if can_time { Some(max_t) } else { None }
}

harnesses! {
    fn h_lock() {
        let n = sym::choice("inputs", if sym::tier() > 0 { 5 } else { 4 }) as usize;
        let (p, req, fb) = mk(n);
        let want = reference(&req, fb);
        let got = p.determine_lock_time();
        match (want, got) {
            (Some(w), Ok(g)) => {
                ck(g.to_consensus_u32() == w, "determined lock time differs from BIP-370");
                let from_height = req.iter().any(|r| r.1.is_some()) && req.iter().all(|r| r.1.is_some() || r.0.is_none());
                let any = req.iter().any(|r| r.0.is_some() || r.1.is_some());
                if any {
                    ck(g.is_block_height() == from_height, "lock time has the wrong unit");
                    if from_height { cover("height"); ck(w < THRESHOLD, "height range"); } else { cover("time"); ck(w >= THRESHOLD, "time range"); }
                    // every input's own requirement is met by the chosen value
                    for r in &req {
                        if from_height { if let Some(h) = r.1 { ck(g.to_consensus_u32() >= h, "input height lock time not met"); } }
                        else if let Some(t) = r.0 { ck(g.to_consensus_u32() >= t, "input time lock time not met"); }
                    }
                } else { cover("fallback"); }
            }
            (None, Err(e)) => { sym::seen(&e); cover("conflict") },
            (Some(_), Err(_)) => sym::fail("lock time refused although one satisfies every input"),
            (None, Ok(_)) => sym::fail("lock time determined although no value satisfies every input"),
        }
    }
    // The transaction handed to signers carries exactly that lock time, and every role that needs one is gated on it.
    fn h_lock_roles() {
        let n = sym::choice("inputs", 3) as usize;
        let (p, req, fb) = mk(n);
        let want = reference(&req, fb);
        match Signer::new(p.clone()) {
            Ok(s) => match want {
                Some(w) => { cover("signer ok"); ck(s.unsigned_tx().lock_time.to_consensus_u32() == w, "unsigned transaction lock time"); }
                None => sym::fail("signer created without a lock time"),
            },
            Err(_) => { cover("signer refused"); sym::check(want.is_none(), "signer refused"); }
        }
        match Updater::new(p.clone()) {
            Ok(u) => { sym::check(want.is_some(), "updater created without a lock time"); sym::check(u.psbt() == p, "updater changed the PSBT"); }
            Err(_) => sym::check(want.is_none(), "updater refused"),
        }
        let build = || {
            let mut c = Constructor::<Modifiable>::default();
            for i in &p.inputs { c = c.input(i.clone()); }
            c
        };
        match build().updater() {
            Ok(_) => sym::check(want.is_some(), "constructor finished without a lock time"),
            Err(_) => sym::check(want.is_none(), "constructor refused"),
        }
        match build().psbt() {
            Ok(_) => sym::check(want.is_some(), "constructor finished without a lock time"),
            Err(_) => sym::check(want.is_none(), "constructor refused"),
        }
    }
}
