//! Container-level decoding: duplicates, mandatory fields, order, magic, arbitrary bytes, compact sizes.
use psbt_v2::bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use psbt_v2::v0;
use psbt_v2::v2::Psbt;

use crate::gen::{self, cs, kv, Kv};
use crate::keys::{K33, XO};
use crate::pairs::{self, Kd, Va};
use crate::sym::{self, ck, cover};

// ---------- duplicates ----------

/// Well-formed key data number `i` (0 or 1); blob-like key data are symbolic, so that two may coincide.
pub fn good_kd(k: Kd, va: Va, i: usize) -> Vec<u8> {
    let n = ["kda", "kdb"][i];
    let pre = [0x11u8 + i as u8];
    match k {
        Kd::None => vec![],
        Kd::Pub | Kd::Pub33 => K33[i].to_vec(),
        Kd::Xo => XO[i].to_vec(),
        Kd::XoLeaf => [&XO[0][..], &sym::vec(n, 32)].concat(),
        Kd::Xpub => [&[0x04, 0x88, 0xb2, 0x1e][..], &sym::vec(n, 41), &K33[0]].concat(),
        Kd::H20 | Kd::H32 => match va {
            Va::Pre20r => ripemd160::Hash::hash(&pre).to_byte_array().to_vec(),
            Va::Pre32 => sha256::Hash::hash(&pre).to_byte_array().to_vec(),
            Va::Pre20h => hash160::Hash::hash(&pre).to_byte_array().to_vec(),
            _ => sha256d::Hash::hash(&pre).to_byte_array().to_vec(),
        },
        Kd::Ctrl => [&[0xc0][..], &XO[2], &sym::vec(n, 32)].concat(),
        Kd::Prop => { let p = sym::choice(["pfa", "pfb"][i], 3); [&[p as u8][..], &sym::vec(n, p as usize), &sym::vec(["sta", "stb"][i], 3 - p as usize)].concat() }
        Kd::Any => sym::vec(n, 2),
    }
}
/// A well-formed value number `i` for that key data.
pub fn good_val(va: Va, i: usize) -> Vec<u8> {
    let n = ["va", "vb"][i];
    let t = |k: usize| sym::vec(n, k);
    match va {
        Va::U8 => t(1),
        Va::U32 | Va::Time | Va::Height => {
            let mut b = t(4);
            if sym::fixed() && va == Va::Time { b[3] |= 0x20 }
            if sym::fixed() && va == Va::Height { b[3] &= 0x1c }
            let x = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
            if va == Va::Time { sym::assume(x >= gen::THRESHOLD) }
            if va == Va::Height { sym::assume(x < gen::THRESHOLD) }
            b
        }
        Va::U64 => t(8),
        Va::H32 => t(32),
        Va::Proof => t(64),
        Va::Info => t(66),
        Va::Script | Va::Any => t(i + 1),
        Va::Tx => [&[2, 0, 0, 0, 1][..], &t(36), &[0, 0xff, 0xff, 0xff, 0xff, 1], &[i as u8; 8], &[0, 0, 0, 0, 0]].concat(),
        Va::TxOut => [&t(8)[..], &[1, 0x51]].concat(),
        Va::Witness => [&[1, 2][..], &t(2)].concat(),
        Va::Ecdsa => [0x30, 0x06, 0x02, 0x01, 0x05, 0x02, 0x01, 0x07, 1 + i as u8].to_vec(),
        Va::Schnorr => t(64),
        Va::Source | Va::XpubSource => t(4 + 4 * i),
        Va::LeafSource => [&[1][..], &t(36)].concat(),
        Va::Xo => XO[i].to_vec(),
        Va::Pub33 => K33[i].to_vec(),
        Va::Pre20r | Va::Pre32 | Va::Pre20h | Va::Pre32d => vec![0x11 + i as u8],
        Va::LeafScript => [&t(1)[..], &[0xc0]].concat(),
        Va::Tree => [&[0, 0xc0, 1][..], &t(1)].concat(),
    }
}

fn dup(v0: bool) {
    let (m, t) = if v0 { pairs::type0_of(sym::shard()) } else { pairs::type_of(sym::shard()) };
    let (kd, va) = if v0 { let (k, v, ok) = pairs::form0(m, t); if !ok { return; } (k, v) } else { pairs::form(m, t) };
    let (ka, kb) = (good_kd(kd, va, 0), good_kd(kd, va, 1));
    // same key data (values differ or not), or key data that may differ
    let again = kd == Kd::None || sym::choice("again", 2) == 0;
    let kb = if again { ka.clone() } else { kb };
    let (a, b) = (kv(t, &ka, &good_val(va, 0)), kv(t, &kb, &good_val(va, if again && sym::choice("value", 2) == 0 { 0 } else { 1 })));
    let extra: Vec<Kv> = pairs::partner(v0, m, t).into_iter().collect();
    let maps = pairs::place(v0, m, &extra, 0);
    // the two pairs at any two places of the map
    let mut maps = maps;
    let n = maps[m as usize].len();
    let i = sym::choice("first", n as u64 + 1) as usize;
    let j = sym::choice("second", n as u64 + 2) as usize;
    maps[m as usize].insert(i, a);
    maps[m as usize].insert(j.min(n + 1), b);
    let same = gen::same(&ka, &kb);
    let bytes = gen::stream(&maps);
    match pairs::parse(v0, &bytes) {
        Some(p) => {
            cover("distinct");
            ck(!same, "a repeated key was accepted");
            let want = if v0 { maps.clone() } else { gen::with_defaults(&maps, 1) };
            gen::same_stream(&pairs::write(&p), &want, "pairs with different keys were not both kept");
        }
        None => { cover("repeated"); ck(same, "pairs with different keys were refused"); }
    }
}

/// Mandatory v2 types: map and type.
const MAND: [(u8, u8); 8] = [(0, 0xfb), (0, 0x02), (0, 0x04), (0, 0x05), (1, 0x0e), (1, 0x0f), (2, 0x03), (2, 0x04)];
fn mand_len(m: u8, t: u8) -> usize { match (m, t) { (0, 0xfb) | (0, 2) | (1, 0x0f) => 4, (0, _) => 1, (1, _) => 32, (2, 3) => 8, _ => 2 } }

fn permute(mut l: Vec<Kv>, name: &str) -> Vec<Kv> {
    let mut r = vec![];
    while l.len() > 1 { let i = sym::choice(name, l.len() as u64) as usize; r.push(l.remove(i)); }
    r.append(&mut l);
    r
}

fn accepted(v0: bool, maps: &[Vec<Kv>], ok: bool, msg_in: &str, msg_out: &str) {
    match pairs::parse(v0, &gen::stream(maps)) {
        Some(_) => { cover("accepted"); ck(ok, msg_in) }
        None => { cover("rejected"); ck(!ok, msg_out) }
    }
}

/// The mandatory pairs with symbolic values (valid ones).
fn mand(m: u8) -> Vec<Kv> {
    match m {
        0 => vec![kv(0xfb, &[], &[2, 0, 0, 0]), kv(0x02, &[], &sym::vec("txver", 4)), kv(0x04, &[], &[1]), kv(0x05, &[], &[1])],
        1 => vec![kv(0x0e, &[], &sym::vec("txid", 32)), kv(0x0f, &[], &sym::vec("vout", 4))],
        _ => {
            let script = { let n = sym::choice("spklen", 3) as usize; sym::vec("spk", n) };
            vec![kv(0x03, &[], &sym::vec("amount", 8)), kv(0x04, &[], &script)]
        }
    }
}

harnesses! {
    fn h_dup() { dup(false) }
    fn h_dup0() { dup(true) }

    // A mandatory pair repeated, with any two values.
    fn h_dup_mand() {
        let (m, t) = MAND[sym::shard() as usize];
        let n = mand_len(m, t);
        let fixed = |i| match (m, t) { (0, 0xfb) => Some(vec![2, 0, 0, 0]), (0, 4) | (0, 5) => Some(vec![1]), _ => { let _: usize = i; None } };
        let a = kv(t, &[], &match fixed(0) { Some(b) => b, None => sym::vec("va", n) });
        // the second count may claim anything
        let b = kv(t, &[], &match fixed(1) { Some(b) if sym::choice("count", 2) == 0 => b, _ => sym::vec("vb", n) });
        let mut maps = vec![gen::v2_global(1, 1), gen::v2_input(0), gen::v2_output(0)];
        let mm = &mut maps[m as usize];
        mm.retain(|p| p.k != [t]);
        let i = sym::choice("first", mm.len() as u64 + 1) as usize;
        let j = sym::choice("second", mm.len() as u64 + 2) as usize;
        mm.insert(i, a);
        let j = j.min(mm.len());
        mm.insert(j, b);
        ck(Psbt::deserialize(&gen::stream(&maps)).map_err(|e| sym::seen(&e)).is_err(), "a repeated key was accepted");
        cover("repeated");
    }

    // Every subset of the mandatory pairs of a map, in every order, with every value.
    fn h_mand() {
        let m = sym::shard() as u8;
        let mut maps = vec![gen::v2_global(1, 1), gen::v2_input(0), gen::v2_output(0)];
        let l = mand(m);
        let mut keep = vec![];
        let mut ok = true;
        for (i, p) in l.into_iter().enumerate() {
            if sym::choice(&gen::name("keep", i), 2) == 1 { keep.push(p) } else { ok = false }
        }
        // an unrelated pair somewhere among them
        keep.push(kv(0xf0, &sym::vec("ukey", 1), &sym::vec("uval", 1)));
        maps[m as usize] = permute(keep, "order");
        #[cfg(feature = "sp")]
        {
            // silent payments: an output may have address info instead of a script
            if m == 2 && sym::choice("info", 2) == 1 {
                ok = ok || (maps[2].iter().any(|p| p.k == [3]) && !maps[2].iter().any(|p| p.k == [4]));
                maps[2].push(kv(9, &[], &sym::vec("infoval", 66)));
            }
        }
        accepted(false, &maps, ok, "a stream without a mandatory field was accepted", "a complete stream was rejected");
    }

    // The exact form of the mandatory pairs: key data and value.
    fn h_mand_form() {
        let (m, t) = MAND[sym::shard() as usize];
        let mut maps = vec![gen::v2_global(1, 1), gen::v2_input(0), gen::v2_output(0)];
        let k = pairs::keydata(Kd::None);
        let (val, ok): (Vec<u8>, bool) = match (m, t) {
            (0, 4) | (0, 5) => match sym::choice("vshape", 6) {
                0 => { let n = sym::u8("n"); sym::assume(n < 0xfd); (vec![n], n == 1) }
                // not decided: a count followed by more bytes (the BIP-375 test vectors have such ones)
                1 => {
                    let i = maps[0].iter().position(|p| p.k == [t]).unwrap_or(0);
                    maps[0][i] = kv(t, &k.b, &[1, sym::u8("trail")]);
                    if let Ok(p) = Psbt::deserialize(&gen::stream(&maps)) { ck(k.ok & (p.inputs.len() == 1) & (p.outputs.len() == 1), "a malformed count was accepted") }
                    cover("trailing");
                    return;
                }
                2 => (vec![], false),
                3 => (vec![0xfd, 1, 0], false),
                4 => (vec![0xfe, 1, 0, 0, 0], false),
                _ => (vec![0xff, 1, 0, 0, 0, 0, 0, 0, 0], false),
            },
            (2, 4) => (sym::vec("spk", 3), true),
            _ => {
                let w = mand_len(m, t);
                let l = [w, 0, w - 1, w + 1][sym::choice("vlen", 4) as usize];
                let b = sym::vec("val", l);
                let ok = l == w && ((m, t) != (0, 0xfb) || gen::same(&b, &[2, 0, 0, 0]));
                (b, ok)
            }
        };
        let i = match maps[m as usize].iter().position(|p| p.k == [t]) { Some(i) => i, None => sym::fail("mandatory pair") };
        maps[m as usize][i] = kv(t, &k.b, &val);
        accepted(false, &maps, k.ok & ok, "a malformed pair was accepted", "a well-formed pair was rejected");
    }

    // Counts and maps must agree; the v0 transaction is refused.
    fn h_counts() {
        let (ni, no) = (sym::choice("nin", 3) as usize, sym::choice("nout", 3) as usize);
        let (ci, co) = (sym::u8("claimed_in"), sym::u8("claimed_out"));
        sym::assume((ci < 4) & (co < 4));
        let mut maps = vec![vec![kv(0xfb, &[], &[2, 0, 0, 0]), kv(0x02, &[], &[2, 0, 0, 0]), kv(0x04, &[], &[ci]), kv(0x05, &[], &[co])]];
        for i in 0..ni { maps.push(gen::v2_input(i as u8)); }
        for i in 0..no { maps.push(gen::v2_output(i as u8)); }
        let mut ok = (ci as usize == ni) & (co as usize == no);
        if sym::choice("tx", 2) == 1 { maps[0].push(gen::v0_tx(ni as u8, no as u8)); ok = false; }
        let mut b = gen::stream(&maps);
        let t = sym::choice("trail", 3);
        if t > 0 { let extra = sym::vec("trailing", t as usize); b.extend_from_slice(&extra); ok = false; }
        match Psbt::deserialize(&b) {
            Ok(p) => {
                cover("accepted");
                ck(ok, "accepted although counts and maps disagree, or bytes follow");
                ck((p.inputs.len() == ni) & (p.outputs.len() == no), "maps lost");
            }
            Err(e) => { sym::seen(&e); cover("rejected"); ck(!ok, "a complete stream was rejected"); }
        }
    }

    // Magic and separator; truncation at every byte.
    fn h_magic() {
        let v0 = sym::shard() == 1;
        let maps = if v0 { vec![vec![gen::v0_tx(1, 1)], vec![], vec![]] } else { vec![gen::v2_global(1, 1), gen::v2_input(0), gen::v2_output(0)] };
        let mut b = gen::stream(&maps);
        if sym::choice("what", 2) == 0 {
            let m = sym::bytes::<5>("magic");
            b[..5].copy_from_slice(&m);
            let ok = m == [0x70, 0x73, 0x62, 0x74, 0xff];
            match pairs::parse(v0, &b) {
                Some(_) => { cover("accepted"); ck(ok, "wrong magic accepted") }
                None => { cover("rejected"); ck(!ok, "right magic rejected") }
            }
        } else {
            let n = sym::concrete({ let n = sym::u16("cut") as u64; sym::assume(n < b.len() as u64); n });
            b.truncate(n as usize);
            ck(pairs::parse(v0, &b).is_none(), "a truncated stream was accepted");
            cover("truncated");
        }
    }

    // ---------- v0 globals ----------
    fn h_mand0() {
        let mut g = vec![];
        let mut ok = true;
        let ntx = sym::shard() % 3;
        for _ in 0..ntx {
            let k = if sym::choice("txkey", 2) == 1 { ok = false; sym::vec("txkd", 1) } else { vec![] };
            let mut t = vec![];
            t.extend_from_slice(&sym::vec("ver", 4));
            let nin = sym::choice("nin", 3) as u8;
            t.push(nin);
            for i in 0..nin {
                t.extend_from_slice(&sym::vec("prev", 36));
                let s = if i + 1 == nin { sym::choice("sslen", 2) as usize } else { 0 };
                if s > 0 { ok = false; }
                t.push(s as u8);
                t.extend_from_slice(&sym::vec("ss", s));
                t.extend_from_slice(&sym::vec("seq", 4));
            }
            t.push(1);
            t.extend_from_slice(&sym::vec("amt", 8));
            t.extend_from_slice(&[1, 0x51]);
            t.extend_from_slice(&sym::vec("lock", 4));
            match sym::choice("shape", 4) { 0 | 1 => {} , 2 => { t.push(0); ok = false } _ => { t.pop(); ok = false } }
            g.push((kv(0, &k, &t), nin as usize));
            if ntx == 2 && g.len() == 2 { ok = false; }
        }
        if ntx != 1 { ok = false; }
        let nin = g.first().map_or(0, |x| x.1);
        let mut l: Vec<Kv> = g.into_iter().map(|x| x.0).collect();
        let version = sym::shard() / 3;
        if version == 1 { let v = sym::vec("psbtver", 4); ok = ok & gen::same(&v, &[0, 0, 0, 0]); l.push(kv(0xfb, &[], &v)); }
        if version == 2 { l.push(kv(0xfb, &[], &sym::vec("psbtver", 3))); ok = false; }
        if version == 3 { l.push(kv(0xfb, &sym::vec("vkd", 1), &[0; 4])); ok = false; }
        let mut maps = vec![permute(l, "order")];
        for _ in 0..nin + 1 { maps.push(vec![]); }
        let mut b = gen::stream(&maps);
        let t = sym::choice("trail", 2);
        if t > 0 { b.push(sym::u8("trailing")); ok = false; }
        match v0::Psbt::deserialize(&b) {
            Ok(p) => {
                cover("accepted");
                ck(ok, "a malformed v0 stream was accepted");
                let mut want = maps.clone();
                want[0].retain(|p| p.k[0] != 0xfb); // version 0 is the default and not written
                gen::same_stream(&p.serialize(), &want, "the v0 stream was altered");
            }
            Err(e) => { sym::seen(&e); cover("rejected"); ck(!ok, "a well-formed v0 stream was rejected"); }
        }
    }

    fn h_dup_mand0() {
        let mut g = vec![gen::v0_tx(1, 1)];
        let which = sym::choice("which", 2);
        if which == 0 { g.push(kv(0, &[], &gen::v0_tx_bytes(1, 1))) } else { g.push(kv(0xfb, &[], &[0; 4])); g.push(kv(0xfb, &[], &[0; 4])) }
        let b = gen::stream(&[permute(g, "order"), vec![], vec![]]);
        ck(v0::Psbt::deserialize(&b).map_err(|e| sym::seen(&e)).is_err(), "a repeated key was accepted");
        cover("repeated");
    }

    // ---------- arbitrary bytes ----------
    // Any bytes at the start of the global, first input or first output map: no panic, errors displayable.
    fn h_any() {
        let s = sym::shard();
        let v0 = s >= 3;
        let n = if s % 3 == 1 && sym::tier() == 0 { 4 } else if s % 3 == 1 { 5 } else if sym::tier() > 0 { 6 } else { 5 };
        let mut b = match s % 3 {
            0 => vec![0x70, 0x73, 0x62, 0x74, 0xff],
            1 => gen::stream(&[if v0 { vec![gen::v0_tx(1, 1)] } else { gen::v2_global(1, 1) }]),
            _ => gen::stream(&[if v0 { vec![gen::v0_tx(1, 1)] } else { gen::v2_global(1, 1) }, if v0 { vec![] } else { gen::v2_input(0) }]),
        };
        let x = sym::vec("bytes", n);
        b.extend_from_slice(&x);
        let rest = if sym::choice("rest", 2) == 0 { vec![] } else { vec![0, 0, 0, 0] };
        b.extend_from_slice(&rest);
        if v0 {
            match v0::Psbt::deserialize(&b) { Ok(p) => { cover("accepted"); std::hint::black_box(p.serialize().len()); } Err(e) => { cover("rejected"); show(&e) } }
        } else {
            match Psbt::deserialize(&b) { Ok(p) => { cover("accepted"); std::hint::black_box(p.serialize().len()); } Err(e) => { cover("rejected"); show(&e) } }
        }
    }

    // Any short value for any pair type: no panic.
    fn h_val() {
        let s = sym::shard();
        let v0 = s >= pairs::NTYPES;
        let (m, t) = if v0 { pairs::type0_of(s - pairs::NTYPES) } else { pairs::type_of(s) };
        let (kd, va) = if v0 { let f = pairs::form0(m, t); (f.0, f.1) } else { pairs::form(m, t) };
        let n = sym::choice("len", match va { Va::Witness if sym::tier() == 0 => 3, Va::Witness | Va::Ecdsa => 4, Va::Tree => 5, _ if sym::tier() > 0 => 7, _ => 5 }) as usize;
        // hashes and DER signatures are only followed for concrete bytes
        let v = if matches!(va, Va::Pre20r | Va::Pre32 | Va::Pre20h | Va::Pre32d | Va::Ecdsa) { [0x30, 6, 2, 1, 5, 2][..n].to_vec() } else { sym::vec("val", n) };
        let p = kv(t, &good_kd(kd, Va::Any, 0), &v);
        let mut maps = pairs::place(v0, m, &[], 0);
        if m == 0 && !v0 || v0 && m == 0 && (t == 0 || t == 0xfb) { maps[0].retain(|p| p.k != [t]); }
        maps[m as usize].push(p);
        let b = gen::stream(&maps);
        if v0 {
            match v0::Psbt::deserialize(&b) { Ok(p) => { cover("accepted"); std::hint::black_box(p.serialize().len()); } Err(e) => { cover("rejected"); show(&e) } }
        } else {
            match Psbt::deserialize(&b) { Ok(p) => { cover("accepted"); std::hint::black_box(p.serialize().len()); } Err(e) => { cover("rejected"); show(&e) } }
        }
    }

    // Any claimed count or length: no huge allocation, no overflow.
    fn h_claims() {
        let s = sym::shard();
        let claim = |p: u8| -> Vec<u8> {
            let mut c = vec![p];
            c.extend_from_slice(&sym::vec("claim", match p { 0xfd => 2, 0xfe => 4, _ => 8 }));
            c
        };
        let c = claim([0xfd, 0xfe, 0xff][(s % 3) as usize]);
        let magic = [0x70, 0x73, 0x62, 0x74, 0xff];
        match s / 3 {
            0 | 1 => { // input / output count
                let t = if s / 3 == 0 { 4 } else { 5 };
                let mut g = gen::v2_global(1, 1);
                for p in g.iter_mut() { if p.k == [t] { p.v = c.clone(); } }
                let b = gen::stream(&[g, gen::v2_input(0), gen::v2_output(0)]);
                match Psbt::deserialize(&b) { Ok(_) => cover("accepted"), Err(e) => { cover("rejected"); show(&e) } }
            }
            2 => { let b = [&magic[..], &c, &[0xf0, 1, 2, 3]].concat(); any(&b) } // key length
            3 => { let b = [&magic[..], &[2, 0xf0, 1], &c, &[1, 2, 3]].concat(); any(&b) } // value length
            4 => { // proprietary prefix length
                let k = [&[0xfc][..], &c, &[1, 2]].concat();
                any(&gen::stream(&[vec![Kv { k: k.clone(), v: vec![1] }]]));
            }
            5 => value_claim(1, 0x08, &[], &c), // number of witness elements
            6 => value_claim(1, 0x08, &[], &[&[1][..], &c].concat()), // length of a witness element
            7 => value_claim(1, 0x16, &XO[0], &c), // number of leaf hashes
            8 => value_claim(2, 0x06, &[], &[&[0, 0xc0][..], &c].concat()), // length of a leaf script
            9 => value_claim(1, 0x00, &[], &[&[2, 0, 0, 0][..], &c].concat()), // number of transaction inputs
            10 => value_claim(1, 0x01, &[], &[&[0; 8][..], &c].concat()), // length of a script
            _ => { // v0: numbers of inputs and outputs of the unsigned transaction
                let t = if sym::choice("count", 2) == 0 { [&[2, 0, 0, 0][..], &c, &[0, 0, 0, 0]].concat() } else { [&[2, 0, 0, 0, 0][..], &c, &[0, 0, 0, 0]].concat() };
                any(&gen::stream(&[vec![kv(0, &[], &t)]]));
            }
        }
    }

    // ---------- raw and proprietary keys ----------
    fn h_prop() {
        use psbt_v2::raw::{Key, ProprietaryKey};
        use psbt_v2::v0::bitcoin::raw as raw0;
        const L: [usize; 5] = [0, 1, 3, 252, 253];
        let lens = if sym::shard() == 0 { (L[sym::choice("pfx", 5) as usize], L[sym::choice("klen", 5) as usize]) } else { (2, 1024) };
        let pk = ProprietaryKey::<u8> { prefix: sym::vec("prefix", lens.0), subtype: sym::u8("subtype"), key: sym::vec("key", lens.1) };
        let k = pk.to_key();
        let want = [&cs(lens.0 as u64)[..], &pk.prefix, &[pk.subtype], &pk.key].concat();
        ck(k.type_value == 0xfc, "proprietary key type");
        ck(gen::same(&k.key, &want), "proprietary key encoding");
        match ProprietaryKey::<u8>::try_from(k.clone()) {
            Ok(b) => ck(gen::same(&b.prefix, &pk.prefix) & (b.subtype == pk.subtype) & gen::same(&b.key, &pk.key), "proprietary key decoding"),
            Err(_) => sym::fail("a proprietary key does not decode"),
        }
        let t = sym::u8("type");
        match ProprietaryKey::<u8>::try_from(Key { type_value: t, key: k.key.clone() }) {
            Ok(_) => { cover("proprietary"); ck(t == 0xfc, "another key type was taken for proprietary") }
            Err(e) => { sym::seen(&e); cover("other"); ck(t != 0xfc, "a proprietary key was refused") }
        }
        let pk0 = raw0::ProprietaryKey::<u8> { prefix: pk.prefix.clone(), subtype: pk.subtype, key: pk.key.clone() };
        let k0 = pk0.to_key();
        ck((k0.type_value == 0xfc) & gen::same(&k0.key, &want), "v0 proprietary key encoding");
        match raw0::ProprietaryKey::<u8>::try_from(k0.clone()) {
            Ok(b) => ck(gen::same(&b.prefix, &pk.prefix) & (b.subtype == pk.subtype) & gen::same(&b.key, &pk.key), "v0 proprietary key decoding"),
            Err(_) => sym::fail("a v0 proprietary key does not decode"),
        }
        match raw0::ProprietaryKey::<u8>::try_from(raw0::Key { type_value: t, key: k0.key }) {
            Ok(_) => ck(t == 0xfc, "another key type was taken for v0 proprietary"),
            Err(_) => ck(t != 0xfc, "a v0 proprietary key was refused"),
        }
    }

    // Two different proprietary keys never encode alike.
    fn h_prop_inj() {
        use psbt_v2::raw::ProprietaryKey;
        let mk = |i: usize| {
            let n = sym::choice(["pa", "pb"][i], 4) as usize;
            let m = sym::choice(["ka", "kb"][i], 4) as usize;
            ProprietaryKey::<u8> { prefix: sym::vec(["prefa", "prefb"][i], n), subtype: sym::u8(["suba", "subb"][i]), key: sym::vec(["keya", "keyb"][i], m) }
        };
        let (a, b) = (mk(0), mk(1));
        let eq = gen::same(&a.prefix, &b.prefix) & (a.subtype == b.subtype) & gen::same(&a.key, &b.key);
        let enc = gen::same(&a.to_key().key, &b.to_key().key);
        ck(eq == enc, "different proprietary keys share an encoding");
        cover("pairs");
    }

    // Raw pairs of boundary lengths in unknown maps, both directions, v2 and v0.
    fn h_raw() {
        const L: [usize; 6] = [0, 1, 251, 252, 253, 254];
        let v0 = sym::shard() & 1 == 1;
        let big = sym::shard() >= 2;
        let (kl, vl) = if big { [(1, 0xfffe), (0, 0xffff), (0, 0x10000), (0xfffe, 1), (0xffff, 1)][sym::choice("len", 5) as usize] } else { (L[sym::choice("klen", 6) as usize], L[sym::choice("vlen", 6) as usize]) };
        let t = 0xf1u8;
        let mut kd = vec![7u8; kl];
        let mut v = vec![9u8; vl];
        // symbolic ends, concrete middle for the very long ones
        let n = if big { 2 } else { 300 };
        let (kn, vn) = (kl.min(n), vl.min(n));
        kd[..kn].copy_from_slice(&sym::vec("kd", kn));
        v[..vn].copy_from_slice(&sym::vec("v", vn));
        let p = kv(t, &kd, &v);
        let m = sym::choice("map", 3) as u8;
        let maps = pairs::place(v0, m, &[p.clone()], 0);
        let bytes = gen::stream(&maps);
        let parsed = match pairs::parse(v0, &bytes) { Some(p) => p, None => sym::fail("a raw pair was refused") };
        let (k2, v2): (Vec<u8>, Vec<u8>) = match &parsed {
            pairs::P::V2(q) => { let u = match m { 0 => &q.global.unknowns, 1 => &q.inputs[0].unknowns, _ => &q.outputs[0].unknowns }; find(u.iter().map(|(k, v)| (k.type_value, &k.key, v)), t) }
            pairs::P::V0(q) => { let u = match m { 0 => &q.unknown, 1 => &q.inputs[0].unknown, _ => &q.outputs[0].unknown }; find(u.iter().map(|(k, v)| (k.type_value, &k.key, v)), t) }
        };
        ck(gen::same(&k2, &kd) & gen::same(&v2, &v), "a raw pair was decoded to something else");
        gen::same_stream(&pairs::write(&parsed), &if v0 { maps.clone() } else { gen::with_defaults(&maps, 1) }, "a raw pair was written differently");
        cover("raw");
    }
}

fn find<'a>(it: impl Iterator<Item = (u8, &'a Vec<u8>, &'a Vec<u8>)>, t: u8) -> (Vec<u8>, Vec<u8>) {
    for (k, a, b) in it { if k == t { return (a.clone(), b.clone()); } }
    sym::fail("a raw pair was lost")
}
fn show<E: core::fmt::Display + core::fmt::Debug + std::error::Error>(e: &E) {
    std::hint::black_box(e.source().is_some());
}
fn any(b: &[u8]) {
    match Psbt::deserialize(b) { Ok(_) => cover("accepted"), Err(e) => { cover("rejected"); show(&e) } }
    match v0::Psbt::deserialize(b) { Ok(_) => cover("accepted"), Err(e) => { cover("rejected"); show(&e) } }
}
fn value_claim(m: u8, t: u8, kd: &[u8], v: &[u8]) {
    for v0 in [false, true] {
        let b = gen::stream(&pairs::place(v0, m, &[kv(t, kd, v)], 0));
        if v0 { match v0::Psbt::deserialize(&b) { Ok(_) => cover("accepted"), Err(e) => { cover("rejected"); show(&e) } } }
        else { match Psbt::deserialize(&b) { Ok(_) => cover("accepted"), Err(e) => { cover("rejected"); show(&e) } } }
    }
}
