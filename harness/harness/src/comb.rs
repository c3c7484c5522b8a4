//! Combining two PSBTs.
use psbt_v2::{v0, v2};

use crate::fields;
use crate::gen::{self, kv, Kv};
use crate::pairs::{self, Kd};
use crate::round::{base0, others, Ps};
use crate::sym::{self, ck, cover};
use crate::wire::{good_kd, good_val};

fn shape(v0: bool) -> Option<(u8, u8, Kd, pairs::Va)> {
    let (m, t) = if v0 { pairs::type0_of(sym::shard()) } else { pairs::type_of(sym::shard()) };
    let (kd, va, allowed) = if v0 { pairs::form0(m, t) } else { let (k, v) = pairs::form(m, t); (k, v, true) };
    if !allowed || v0 && (m, t) == (0, 0xfb) { None } else { Some((m, t, kd, va)) }
}
fn maps(b: &[u8]) -> Vec<Vec<Kv>> { match gen::maps(b) { Some(m) => m, None => sym::fail("serialized stream") } }
fn key_in(m: &[Kv], p: &Kv) -> bool { let mut r = false; for q in m { r = r | gen::same(&q.k, &p.k); } r }
fn merge(a: Ps, b: Ps) -> Ps { match a.combine(b) { Some(r) => r, None => sym::fail("PSBTs of one transaction were not combined") } }

/// One field in either or both, with anything or nothing else around it.
fn keeps(v0: bool) {
    let (m, t, kd, va) = match shape(v0) { Some(x) => x, None => { cover("combined"); return } };
    let ctx = sym::choice("context", 4); // nothing, all other fields in the one, in the other, nothing with the field in the second maps
    let (n, at) = if ctx == 3 { (2, 1) } else { (1, 0) };
    let at = if m == 0 { 0 } else { at };
    let (mut a, mut b) = (Ps::new(v0, n), Ps::new(v0, n));
    if ctx == 1 || ctx == 2 { for (m2, q) in others(v0, m, t) { if ctx == 1 { a.set(m2, &q) } else { b.set(m2, &q) } } }
    let ka = good_kd(kd, va, 0);
    let which = sym::choice("which", 3);
    let again = which != 2 || kd == Kd::None || sym::choice("again", 2) == 0;
    let kb = if again { ka.clone() } else { good_kd(kd, va, 1) };
    if (v0 || m == 0) && m == 0 && t == 1 && which == 2 && again { cover("combined"); return; } // conflicting origins of an xpub: see h_comb_xpub
    if m == 0 && t == 1 && which == 2 { sym::assume(!gen::same(&ka, &kb)); }
    let (va1, va2) = (good_val(va, 0), good_val(va, 1));
    if which != 1 { a.set_at(m, at, &kv(t, &ka, &va1)); }
    if which != 0 { b.set_at(m, at, &kv(t, &kb, &va2)); }
    let (ma, mb) = (maps(&a.bytes()), maps(&b.bytes()));
    let r = maps(&merge(a, b).bytes());
    ck(r.len() == ma.len(), "the number of maps changed");
    for i in 0..ma.len() {
        let (ra, rb, rr) = (&ma[i], &mb[i], &r[i]);
        for p in rr { ck(gen::has(ra, p) | gen::has(rb, p), "combining made up a pair or value"); }
        for p in ra.iter().chain(rb) {
            ck(key_in(rr, p), "combining lost a field");
        }
        for x in 0..rr.len() { for y in 0..x { ck(!gen::same(&rr[x].k, &rr[y].k), "a key occurs twice"); } }
    }
    cover("combined");
}

/// Commutative, associative, idempotent when nothing conflicts.
fn laws(v0: bool) {
    let (m, t, kd, va) = match shape(v0) { Some(x) => x, None => { cover("combined"); return } };
    let ctx = sym::choice("context", 3);
    let mut p = [Ps::new(v0, 1), Ps::new(v0, 1), Ps::new(v0, 1)];
    if ctx > 0 { for (m2, q) in others(v0, m, t) {
        if (m2, q.k[0]) == (0, 0x06) { for x in p.iter_mut() { x.set(m2, &q) } } else { p[ctx as usize - 1].set(m2, &q); }
    } }
    let flags = !v0 && (m, t) == (0, 0x06); // always present
    let d = if flags { 7 } else { sym::choice("in", 7) + 1 };
    let first = kv(t, &good_kd(kd, va, 0), &good_val(va, 0));
    for i in 0..3 { if d >> i & 1 == 1 { p[i].set(m, &first); } }
    if kd != Kd::None && ctx == 0 {
        let k2 = good_kd(kd, va, 1);
        sym::assume(!gen::same(&first.k[1..], &k2));
        let second = kv(t, &k2, &good_val(va, 1));
        p[[1, 2][sym::choice("second", 2) as usize]].set(m, &second);
    }
    let [a, b, c] = p;
    let ab = merge(a.clone(), b.clone());
    ck(ab == merge(b.clone(), a.clone()), "combining is not commutative");
    ck(merge(a.clone(), a.clone()) == a, "combining with itself changes a PSBT");
    ck(merge(ab.clone(), b.clone()) == ab, "combining again with a part changes the result");
    ck(merge(b.clone(), ab.clone()) == ab, "combining a part with the result differs");
    let bc = merge(b, c.clone());
    ck(merge(ab, c) == merge(a, bc), "combining is not associative");
    cover("combined");
}

/// Every derivation path of up to `n` steps.
fn origin(name: &str, steps: u64) -> Vec<u8> {
    let n = sym::choice(name, steps + 1) as usize;
    let mut r = sym::vec("fp", 4);
    // normal or hardened is a fork of its own, so the steps here are of one kind
    for _ in 0..n { let mut s = sym::vec("step", 4); s[3] &= 0x7f; if sym::choice("hard", 2) == 1 { s[3] |= 0x80; } r.extend(s); }
    r
}

harnesses! {
    fn h_comb() { keeps(false) }
    fn h_comb0() { keeps(true) }
    fn h_comb_laws() { laws(false) }
    fn h_comb_laws0() { laws(true) }
    // Conflicting origins of one extended public key.
    fn h_comb_xpub() {
        let v0 = sym::shard() & 1 == 1;
        let steps = if sym::tier() > 0 { 4 } else { 3 };
        let (oa, ob) = (origin("stepsa", steps), origin("stepsb", steps));
        let kd = good_kd(Kd::Xpub, pairs::Va::XpubSource, 0);
        let (mut a, mut b) = (Ps::new(v0, 1), Ps::new(v0, 1));
        // another xpub may sit beside it
        let beside = sym::shard() >> 1 & 1 == 1;
        if beside {
            let mut k = kd.clone();
            k[4] = k[4].wrapping_add(1);
            a.set(0, &kv(1, &k, &[1, 2, 3, 4, 5, 0, 0, 0]));
            b.set(0, &kv(1, &k, &[1, 2, 3, 4, 5, 0, 0, 0]));
        }
        a.set(0, &kv(1, &kd, &oa));
        b.set(0, &kv(1, &kd, &ob));
        let (la, lb) = (oa.len(), ob.len());
        let suffix = |s: &[u8], l: &[u8]| gen::same(&s[4..], &l[l.len() - (s.len() - 4)..]);
        let (want, ok) = if la == lb { (&oa, gen::same(&oa, &ob)) } else if la < lb { (&ob, suffix(&oa, &ob)) } else { (&oa, suffix(&ob, &oa)) };
        for (x, y) in [(a.clone(), b.clone()), (b, a)] {
            match x.combine(y) {
                Some(r) => {
                    cover("merged");
                    ck(ok, "conflicting key origins were merged");
                    let m = maps(&r.bytes());
                    ck(gen::has(&m[0], &kv(1, &kd, want)), "the wrong key origin was kept");
                    sym::check(m[0].iter().filter(|p| p.k[0] == 1).count() == 1 + beside as usize, "xpubs lost");
                }
                None => { cover("refused"); ck(!ok, "compatible key origins were refused"); }
            }
        }
    }
    // Different transactions.
    fn h_comb_diff() {
        let side = |s: usize| {
            let n = |b: &str| { let mut x = String::from(b); x.push(['a', 'b'][s]); x };
            let (ni, no) = (sym::choice(&n("nin"), 3) as usize, sym::choice(&n("nout"), 3) as usize);
            let mut p = crate::round::base2(ni, no);
            let mut d = sym::vec(&n("ver"), 4);
            fields::set_global(&mut p.global, 2, &[], &d);
            for i in 0..ni {
                let (x, y) = (sym::vec(&n("txid"), 32), sym::vec(&n("vout"), 4));
                fields::set_input(&mut p.inputs[i], 0x0e, &[], &x);
                fields::set_input(&mut p.inputs[i], 0x0f, &[], &y);
                d.extend(x);
                d.extend(y);
            }
            for i in 0..no {
                let l = if i == 0 { 1 + sym::choice(&n("spklen"), 2) as usize } else { 2 };
                let (x, y) = (sym::vec(&n("amt"), 8), sym::vec(&n("spk"), l));
                fields::set_output(&mut p.outputs[i], 3, &[], &x);
                fields::set_output(&mut p.outputs[i], 4, &[], &y);
                d.extend(x);
                d.push(l as u8);
                d.extend(y);
            }
            (p, d, ni, no)
        };
        let (a, b) = (side(0), side(1));
        let same = a.2 == b.2 && a.3 == b.3 && gen::same(&a.1, &b.1);
        match v2::combine(a.0.clone(), b.0) {
            Ok(r) => {
                cover("combined");
                ck(same, "PSBTs of different transactions were combined");
                ck(r == a.0, "combining equal PSBTs changed something");
            }
            Err(e) => { sym::seen(&e); cover("refused"); ck(!same, "PSBTs of the same transaction were refused"); }
        }
    }
    fn h_comb_diff0() {
        let side = |s: usize| {
            let n = |b: &str| { let mut x = String::from(b); x.push(['a', 'b'][s]); x };
            let (ni, no) = (sym::choice(&n("nin"), 3) as u8, sym::choice(&n("nout"), 3) as u8);
            let mut t = base0(ni, no).unsigned_tx;
            let mut d = sym::vec(&n("ver"), 4);
            t.version = psbt_v2::bitcoin::transaction::Version(i32::from_le_bytes([d[0], d[1], d[2], d[3]]));
            let l = sym::u32(&n("lock"));
            t.lock_time = psbt_v2::bitcoin::absolute::LockTime::from_consensus(l);
            d.extend(l.to_le_bytes());
            for i in t.input.iter_mut() {
                use psbt_v2::bitcoin::hashes::Hash;
                let (x, y, z) = (sym::vec(&n("txid"), 32), sym::u32(&n("vout")), sym::u32(&n("seq")));
                i.previous_output = psbt_v2::bitcoin::OutPoint { txid: psbt_v2::bitcoin::Txid::from_byte_array(fields::a32(&x)), vout: y };
                i.sequence = psbt_v2::bitcoin::Sequence(z);
                d.extend(x);
                d.extend(y.to_le_bytes());
                d.extend(z.to_le_bytes());
            }
            for o in t.output.iter_mut() {
                let x = [&sym::vec(&n("amt"), 8)[..], &[2], &sym::vec(&n("spk"), 2)].concat();
                *o = fields::txout(&x);
                d.extend(x);
            }
            let mut p = match v0::Psbt::from_unsigned_tx(t) { Ok(p) => p, Err(_) => sym::fail("v0 creation") };
            p.version = sym::u32(&n("psbtver"));
            (p, d, ni, no)
        };
        let (a, b) = (side(0), side(1));
        let same = a.2 == b.2 && a.3 == b.3 && gen::same(&a.1, &b.1);
        let mut r = a.0.clone();
        match r.combine(b.0.clone()) {
            Ok(()) => {
                cover("combined");
                ck(same, "PSBTs of different transactions were combined");
                let (x, y) = (a.0.version, b.0.version);
                ck((r.version == x) | (r.version == y), "version");
                ck((r.version >= x) & (r.version >= y), "the version is not the higher one");
                let mut a = a.0;
                a.version = r.version;
                ck(r == a, "combining changed something else");
            }
            Err(e) => { sym::seen(&e); cover("refused"); ck(!same, "PSBTs of the same transaction were refused"); }
        }
    }
}
