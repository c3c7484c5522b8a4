//! Serde forms of PSBTs and of what they consist of: JSON (self-describing, text) and bincode (neither).
#[cfg(feature = "ser")]
mod on {
    use serde::de::DeserializeOwned;
    use serde::Serialize;

    use crate::gen::{self, kv, name};
    use crate::pairs::{self, Kd, Va};
    use crate::round::{self, others, Ps};
    use crate::sym::{self, check, ck, cover};
    use crate::wire::{good_kd, good_val};
    use psbt_v2::bitcoin::Amount;
    use psbt_v2::{raw, v0, v2, PsbtSighashType};

    fn bin<T: Serialize + DeserializeOwned + PartialEq>(x: &T) -> bool {
        let b = match bincode::serialize(x) { Ok(b) => b, Err(_) => sym::fail("bincode cannot serialize the value") };
        match bincode::deserialize::<T>(&b) { Ok(y) => { ck(*x == y, "bincode gives back another value"); true } Err(_) => sym::fail("bincode cannot read back the value") }
    }
    /// Borrowed text, owned text, and the tree of values.
    fn json<T: Serialize + DeserializeOwned + PartialEq>(x: &T) -> bool {
        match sym::choice("read", 3) {
            0 => {
                let b = match serde_json::to_vec(x) { Ok(b) => b, Err(_) => sym::fail("JSON cannot represent the value") };
                match serde_json::from_slice::<T>(&b) { Ok(y) => ck(*x == y, "JSON gives back another value"), Err(_) => sym::fail("JSON cannot read back the value") }
            }
            1 => {
                let b = match serde_json::to_vec(x) { Ok(b) => b, Err(_) => sym::fail("JSON cannot represent the value") };
                match serde_json::from_reader::<_, T>(&b[..]) { Ok(y) => ck(*x == y, "JSON gives back another value from a reader"), Err(_) => sym::fail("JSON cannot read back the value from a reader") }
            }
            _ => {
                let b = match serde_json::to_value(x) { Ok(b) => b, Err(_) => sym::fail("JSON cannot represent the value as a tree") };
                match serde_json::from_value::<T>(b) { Ok(y) => ck(*x == y, "a JSON tree gives back another value"), Err(_) => sym::fail("a JSON tree cannot be read back") }
            }
        }
        true
    }
    fn both(p: &Ps, f: bool) {
        match (p, f) { (Ps::A(p), false) => bin(p), (Ps::A(p), true) => json(p), (Ps::B(p), false) => bin(p), (Ps::B(p), true) => json(p) };
    }
    /// Each field alone, with a second entry, or with all others.
    pub fn field(v0: bool, text: bool) {
        let (m, t) = if v0 { pairs::type0_of(sym::shard()) } else { pairs::type_of(sym::shard()) };
        let (kd, va, allowed) = if v0 { pairs::form0(m, t) } else { let (k, v) = pairs::form(m, t); (k, v, true) };
        cover("same");
        if !allowed || v0 && (m, t) == (0, 0xfb) { return; }
        let how = sym::choice("others", 3);
        // (extended keys and paths are written as text in every format)
        sym::thin(if how == 2 || kd == Kd::Xpub { 2 } else if text { 3 } else if matches!(va, Va::Source | Va::XpubSource | Va::LeafSource) { 1 } else { 0 });
        let mut p = Ps::new(v0, 1);
        if how == 2 {
            if sym::shard() % 8 != 0 { return; }
            for (m2, q) in others(v0, m, t) { if text && m2 == 1 && q.k[0] == 0x15 { continue; } if text { p.set(m2, &kv(q.k[0], &q.k[1..], &q.v)) } else { p.set(m2, &q) } }
        }
        if let Some(q) = pairs::partner(v0, m, t) { p.set(m, &q); }
        if how == 1 && kd != Kd::None { p.set(m, &kv(t, &good_kd(kd, va, 1), &good_val(va, 1))); }
        if va == Va::Tree && how == 1 { p.set(m, &kv(t, &[], &[2, 0xc0, 1, 0x51, 2, 0xc0, 1, 0x52, 1, 0xc2, 0])); } else { p.set(m, &kv(t, &good_kd(kd, va, 0), &good_val(va, 0))); }
        // (bitcoin's NodeInfo writes depths as usize and reads them as u8)
        if va == Va::Tree && !text {
            let tree = match &p { Ps::A(p) => p.outputs[0].tap_tree.clone(), Ps::B(p) => p.outputs[0].tap_tree.clone() };
            if bincode::serialize(&tree).ok().and_then(|b| bincode::deserialize(&b).ok()) != Some(tree) { sym::known("taptree-bincode") }
        }
        // (secp256k1's Parity takes only 8-bit integers, which serde_json never gives)
        if va == Va::LeafScript && text {
            let c = match &p { Ps::A(p) => p.inputs[0].tap_scripts.keys().next().cloned(), Ps::B(p) => p.inputs[0].tap_scripts.keys().next().cloned() };
            if serde_json::to_vec(&c).ok().and_then(|b| serde_json::from_slice(&b).ok()) != Some(c) { sym::known("tapscripts-json") }
        }
        both(&p, text);
        if how == 2 { cover("full") }
    }
    /// Mandatory fields, several maps.
    pub fn mand(v0: bool, text: bool) {
        const N: [(usize, usize); 6] = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)];
        let (ni, no) = N[sym::choice("maps", 6) as usize];
        if text { sym::thin(3); }
        cover("same");
        let p = if v0 {
            let mut p = round::base0(ni as u8, no as u8);
            let n = |x: &str| { let b = sym::vec(x, 4); u32::from_le_bytes([b[0], b[1], b[2], b[3]]) };
            let t = &mut p.unsigned_tx;
            t.version.0 = n("version") as i32;
            t.lock_time = psbt_v2::bitcoin::absolute::LockTime::from_consensus(n("lock"));
            if ni > 0 { t.input[ni - 1].sequence.0 = n("seq"); t.input[0].previous_output.vout = n("vout"); }
            if no > 0 { let b = sym::vec("amount", 8); t.output[no - 1].value = Amount::from_sat(crate::sighash::le64(&b)); }
            Ps::B(p)
        } else {
            let mut p = round::base2(ni, no);
            crate::fields::set_global(&mut p.global, 2, &[], &sym::vec("version", 4));
            crate::fields::set_global(&mut p.global, 6, &[], &sym::vec("flags", 1));
            for i in 0..ni { crate::fields::set_input(&mut p.inputs[i], 0x0e, &[], &sym::vec(&name("txid", i), 32)); crate::fields::set_input(&mut p.inputs[i], 0x0f, &[], &sym::vec(&name("vout", i), 4)); }
            for i in 0..no { crate::fields::set_output(&mut p.outputs[i], 3, &[], &sym::vec(&name("amt", i), 8)); crate::fields::set_output(&mut p.outputs[i], 4, &[], &sym::vec(&name("spk", i), i + 1)); }
            Ps::A(p)
        };
        both(&p, text);
        // the maps and role wrappers by themselves
        if let Ps::A(p) = &p {
            part(p, text);
        }
    }
    fn part(p: &v2::Psbt, text: bool) {
        macro_rules! go { ($x:expr) => { { let x = $x; if text { json(&x); } else { bin(&x); } } } }
        match sym::choice("part", 8) {
            0 => go!(p.global.clone()),
            1 => if let Some(i) = p.inputs.first() { go!(i.clone()) },
            2 => if let Some(o) = p.outputs.first() { go!(o.clone()) },
            3 => go!(v2::Updater::new(p.clone()).map_err(|_| ()).unwrap_or_else(|_| sym::fail("updater"))),
            4 => go!(v2::Signer::new(p.clone()).map_err(|_| ()).unwrap_or_else(|_| sym::fail("signer"))),
            5 => if p.inputs.is_empty() { if let Ok(x) = v2::Extractor::new(p.clone()) { go!(x) } },
            6 => { // (constructors cannot be compared)
                type C = v2::Constructor<v2::Modifiable>;
                let mut q = p.clone();
                q.global.tx_modifiable_flags |= 3;
                let c = match C::new(q.clone()) { Ok(c) => c, Err(_) => sym::fail("constructor") };
                let d: Option<C> = if text { serde_json::to_vec(&c).ok().and_then(|b| serde_json::from_slice(&b).ok()) } else { bincode::serialize(&c).ok().and_then(|b| bincode::deserialize(&b).ok()) };
                match d { Some(d) => ck(matches!(d.psbt(), Ok(d) if d == q), "a constructor changes"), None => sym::fail("a constructor cannot be written and read back") }
            }
            _ => go!(v2::Creator::new()),
        }
    }
    /// Raw pairs and proprietary keys, sighash types.
    pub fn raws(text: bool) {
        if text { sym::thin(1); }
        let v = |n: &str, l: u64| { let k = sym::choice(&format!("{}len", n), l) as usize; sym::vec(n, k) };
        cover("same");
        macro_rules! go { ($x:expr) => { { let x = $x; if text { json(&x); } else { bin(&x); } } } }
        let ty = if text { [0, 7, 0xfc, 0xff][sym::choice("type", 4) as usize] } else { sym::u8("type") };
        match sym::choice("what", 4) {
            0 => go!(raw::Key { type_value: ty, key: v("key", 3) }),
            1 => go!(raw::Pair { key: raw::Key { type_value: ty, key: v("key", 2) }, value: v("value", 3) }),
            2 => go!(raw::ProprietaryKey::<u8> { prefix: v("prefix", 3), subtype: ty, key: v("key", 3) }),
            _ => { let n = if text { [0, 1, 2, 3, 0x80, 0x81, 0x82, 0x83, 4, 0x100, u32::MAX][sym::choice("sighash", 11) as usize] } else { sym::u32("sighash") };
                   if !text { sym::assume(n < 0x200); let n = sym::concrete(n as u64) as u32; go!(PsbtSighashType::from_u32(n)) } else { go!(PsbtSighashType::from_u32(n)) } }
        }
    }
    #[allow(unused)]
    fn unused() { check(gen::same(&[], &[]), "") }
}
#[cfg(not(feature = "ser"))]
mod on { pub fn field(_: bool, _: bool) {} pub fn mand(_: bool, _: bool) {} pub fn raws(_: bool) {} }

harnesses! {
    fn h_ser_bin() { on::field(false, false) }
    fn h_ser_json() { on::field(false, true) }
    fn h_ser_bin0() { on::field(true, false) }
    fn h_ser_json0() { on::field(true, true) }
    // shards: version, format
    fn h_ser_maps() { on::mand(crate::sym::shard() & 1 == 1, crate::sym::shard() & 2 == 2) }
    fn h_ser_raw() { on::raws(crate::sym::shard() == 1) }
}
