//! Symbolic interpreter: explores every feasible path of an entry function.
use crate::expr::{Model, Op, Pool, E};
use crate::ir::*;
use crate::solver::{Res, Solver};
use crate::fx::HashMap;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

pub const SLOT: u64 = 24;
pub const HEAP_BASE: u64 = 0x0010_0000_0000_0000;
pub const STACK_BASE: u64 = 0x0020_0000_0000_0000;
pub const BIG_ALLOC: u64 = 1 << 26;

#[derive(Clone, Default)]
pub struct Obj {
    pub size: u64,
    pub soft: bool, // allocated with a symbolic size: `size` is only how much of it is modelled
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty when fully concrete; 0 = concrete byte
}

/// Allocations of a symbolic size above SOFT_MIN are modelled by objects of SOFT_CAP bytes; an access beyond is reported as unsupported.
const SOFT_MIN: u64 = 64;
const SOFT_CAP: u64 = 16384;
fn oob(soft: bool, m: String) -> Stop { if soft { Stop::Unsupported(format!("access beyond the modelled part of an allocation of symbolic size: {}", m)) } else { Stop::Fail(m) } }

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub body: Rc<Body>,
    pub bb: u32,
    pub ip: usize,
    pub regs: Vec<Val>,
    pub stack_mark: usize,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub stack: Vec<Option<Rc<Obj>>>,
    pub globs: HashMap<u32, Rc<Obj>>,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub known: Rc<HashMap<E, u128>>,
    pub inputs: Vec<(String, Vec<u32>)>,
    pub covers: BTreeSet<String>,
    pub instrs: u64,
    pub forks: u32,
}

pub enum Stop {
    Return,
    Fail(String),
    Panic(String),
    Known(String),
    Infeasible,
    Unsupported(String),
    Limit(String),
}

type R<T> = Result<T, Stop>;

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub trace: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook { None, Panic, Alloc, AllocZ, Dealloc, Realloc, Ret0, PubkeyParse, XonlyParse, SigParse, EcdsaSign, SchnorrSign, EcdsaVerify, SchnorrVerify, Sha }

pub struct Opts {
    pub max_instrs: u64,
    pub max_paths: u64,
    pub time_limit: f64,
    pub shard: u64,
    pub max_viol: usize,
    pub verbose: bool,
    pub fix: HashMap<String, Vec<u8>>,
    pub path_log: bool,
    pub seed_model: u64,
    pub tier: u64,
}

pub struct Exec {
    pub m: Module,
    pub p: Pool,
    pub s: Solver,
    pub o: Opts,
    hooks: Vec<Hook>,
    signs: HashMap<Vec<Result<u8, E>>, Vec<E>>,
    /// Declared signatures: kind, public key, message.
    tokens: Vec<(u64, Vec<Result<u8, E>>, Vec<Result<u8, E>>)>,
    gobj: HashMap<u32, Rc<Obj>>,
    gaddr: Vec<(u64, u64, u32)>,
    pub work: Vec<State>,
    pub paths: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub knowns: BTreeMap<String, u64>,
    pub known_inputs: BTreeMap<String, Violation>,
    /// Sample completed paths (inputs, covers): replayed natively to validate the encoding.
    pub witnesses: Vec<(Violation, BTreeSet<String>)>,
    wit_n: u64,
    pub asserts_const: u64,
    pub asserts_solver: u64,
    pub covers: BTreeSet<String>,
    pub problems: BTreeMap<String, u64>,
    pub funcs_run: BTreeSet<u32>,
    pub instrs: u64,
    pub nforks: u64,
    varmap: HashMap<(String, u32), u32>,
    viol_msgs: BTreeSet<String>,
    t0: Instant,
    pub keys: Vec<Vec<u8>>,
    pub assumed_keys: u64,
}

fn w64(v: &Val) -> Option<u64> { match v { Val::I(x) => Some(*x), Val::L(x) => Some(**x as u64), _ => None } }

impl Exec {
    pub fn new(m: Module, s: Solver, o: Opts) -> Exec {
        let mut p = Pool::new();
        p.konst(0, 1); // index 0 reserved
        let mut hooks = vec![Hook::None; m.funcs.len()];
        for (i, f) in m.funcs.iter().enumerate() {
            let n = &f.name;
            hooks[i] = if n.contains("rust_begin_unwind") || n.contains("9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt")
                || n.contains("handle_alloc_error") || n.contains("9panicking15panic_with_hook") || n.contains("9panicking11begin_panic") && !n.starts_with("_RNC") {
                Hook::Panic
            } else if n.contains("___rustc12___rust_alloc") || n.contains("___rustc11___rdl_alloc") {
                Hook::Alloc
            } else if n.contains("___rustc19___rust_alloc_zeroed") || n.contains("___rustc18___rdl_alloc_zeroed") {
                Hook::AllocZ
            } else if n.contains("___rustc14___rust_dealloc") || n.contains("___rustc13___rdl_dealloc") {
                Hook::Dealloc
            } else if n.contains("___rustc14___rust_realloc") || n.contains("___rustc13___rdl_realloc") {
                Hook::Realloc
            } else if n.contains("3std2io5stdio6__print") || n.contains("3std2io5stdio7__eprint") || n.contains("2io5stdio6__print") || n.contains("2io5stdio7__eprint") {
                Hook::Ret0
            } else if n.ends_with("_ec_pubkey_parse") {
                Hook::PubkeyParse
            } else if n.ends_with("_xonly_pubkey_parse") {
                Hook::XonlyParse
            } else if n.ends_with("_ecdsa_signature_parse_der") {
                Hook::SigParse
            } else if n.starts_with("rustsecp256k1") && n.ends_with("_ecdsa_sign") {
                Hook::EcdsaSign
            } else if n.starts_with("rustsecp256k1") && n.ends_with("_schnorrsig_sign") {
                Hook::SchnorrSign
            } else if n.starts_with("rustsecp256k1") && n.ends_with("_ecdsa_verify") {
                Hook::EcdsaVerify
            } else if n.starts_with("rustsecp256k1") && n.ends_with("_schnorrsig_verify") {
                Hook::SchnorrVerify
            } else if n.contains("6sha256") && n.contains("process_block") {
                Hook::Sha
            } else {
                Hook::None
            };
        }
        let mut gaddr: Vec<(u64, u64, u32)> = m.globals.iter().enumerate().map(|(i, g)| (g.addr, m.types.v[g.ty as usize].size.max(1), i as u32)).collect();
        gaddr.sort();
        Exec {
            m, p, s, o, hooks, signs: HashMap::default(), tokens: vec![], gobj: HashMap::default(), gaddr, work: vec![], paths: BTreeMap::new(), violations: vec![], knowns: BTreeMap::new(), known_inputs: BTreeMap::new(), witnesses: vec![], wit_n: 0, asserts_const: 0, asserts_solver: 0,
            covers: BTreeSet::new(), problems: BTreeMap::new(), funcs_run: BTreeSet::new(), instrs: 0, nforks: 0, varmap: HashMap::default(),
            viol_msgs: BTreeSet::new(), t0: Instant::now(), keys: vec![], assumed_keys: 0,
        }
    }

    pub fn run(&mut self, entry: &str) {
        let fi = *self.m.fidx.get(entry).unwrap_or_else(|| { eprintln!("no function {}", entry); std::process::exit(4) });
        let body = self.m.body(fi).expect("entry body");
        let st = State {
            frames: vec![Frame { func: fi, regs: vec![Val::I(0); body.nregs as usize], body, bb: 0, ip: 0, stack_mark: 0, ret: None, normal: None }],
            heap: vec![], stack: vec![], globs: HashMap::default(), pc: vec![], model: Rc::new(Model::default()), known: Rc::new(HashMap::default()),
            inputs: vec![], covers: BTreeSet::new(), instrs: 0, forks: 0,
        };
        self.funcs_run.insert(fi);
        self.work.push(st);
        self.t0 = Instant::now();
        let mut npaths = 0u64;
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.o.time_limit {
                *self.problems.entry("time limit reached: exploration incomplete".into()).or_default() += 1;
                break;
            }
            if npaths >= self.o.max_paths {
                *self.problems.entry("path limit reached: exploration incomplete".into()).or_default() += 1;
                break;
            }
            let stop = match self.run_state(&mut st) { Ok(()) => unreachable!(), Err(s) => s };
            self.instrs += st.instrs;
            npaths += 1;
            let kind = match &stop {
                Stop::Return => "return",
                Stop::Fail(_) => "fail",
                Stop::Panic(_) => "panic",
                Stop::Known(_) => "known",
                Stop::Infeasible => "infeasible",
                Stop::Unsupported(_) => "unsupported",
                Stop::Limit(_) => "limit",
            };
            *self.paths.entry(kind.into()).or_default() += 1;
            if self.o.path_log {
                let d = match &stop { Stop::Fail(x) | Stop::Panic(x) | Stop::Known(x) | Stop::Unsupported(x) | Stop::Limit(x) => x.clone(), _ => String::new() };
                eprintln!("path {} {} {} forks={} instrs={} pc={} covers={:?}", npaths, kind, d, st.forks, st.instrs, st.pc.len(), st.covers);
            }
            match stop {
                Stop::Return => { self.witness(&st); self.covers.extend(st.covers.iter().cloned()); }
                Stop::Infeasible => {}
                Stop::Known(k) => { if !self.known_inputs.contains_key(&k) { let v = self.mk_violation(&st, "known", k.clone()); self.known_inputs.insert(k.clone(), v); } *self.knowns.entry(k).or_default() += 1; self.covers.extend(st.covers.iter().cloned()); }
                Stop::Fail(msg) | Stop::Panic(msg) => {
                    if self.viol_msgs.insert(format!("{}:{}", kind, msg)) && self.violations.len() < self.o.max_viol {
                        let v = self.mk_violation(&st, kind, msg);
                        self.violations.push(v);
 self.o.time_limit = self.o.time_limit.min(self.t0.elapsed().as_secs_f64() + 15.0); // a shard with a violation need not be complete
                        if self.violations.len() >= self.o.max_viol { break; }
                    }
                }
                Stop::Unsupported(msg) | Stop::Limit(msg) => {
                    if self.o.verbose {
                        eprintln!("problem: {}", msg);
                        for f in st.frames.iter().rev().take(12) { eprintln!("   in {}", self.m.funcs[f.func as usize].name); }
                    }
                    *self.problems.entry(msg).or_default() += 1;
                }
            }
        }
    }

    fn witness(&mut self, st: &State) {
        self.wit_n += 1;
        let fresh = st.covers.iter().any(|c| !self.covers.contains(c));
        // every path that reaches a new cover point, and a thinning sample of the others
        if fresh || (self.wit_n.is_power_of_two() && self.witnesses.len() < 24) {
            let v = self.mk_violation(st, "return", String::new());
            self.witnesses.push((v, st.covers.clone()));
        }
    }
    fn mk_violation(&mut self, st: &State, kind: &str, msg: String) -> Violation {
        let inputs = st.inputs.iter().map(|(n, ids)| (n.clone(), ids.iter().map(|i| *st.model.get(i).unwrap_or(&0) as u8).collect())).collect();
        let trace = st.frames.iter().rev().take(20).map(|f| self.m.funcs[f.func as usize].name.clone()).collect();
        Violation { kind: kind.into(), msg, inputs, trace }
    }

    // ---------- constraints ----------
    fn add(&mut self, st: &mut State, c: E) {
        if self.p.is_true(c) { return; }
        let n = self.p.n[c as usize];
        let known = Rc::make_mut(&mut st.known);
        known.insert(c, 1);
        match n.op {
            Op::And => { self.add(st, n.a); self.add(st, n.b); return; }
            Op::Xor if self.p.cv(n.b) == Some(1) => {
                known.insert(n.a, 0);
                let i = self.p.n[n.a as usize];
                if i.op == Op::Or {
                    let x = self.p.not(i.a);
                    let y = self.p.not(i.b);
                    self.add(st, x);
                    self.add(st, y);
                    return;
                }
            }
            Op::Eq => {
                if let Some(k) = self.p.cv(n.b) { known.insert(n.a, k); }
            }
            _ => {}
        }
        st.pc.push(c);
    }

    /// Decide a width-1 condition on this path, forking when both outcomes are feasible.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.p.cv(c) { return Ok(k == 1); }
        if let Some(k) = st.known.get(&c) { return Ok(*k == 1); }
        let mut memo = HashMap::default();
        let v = self.p.eval(c, &st.model, &mut memo) == 1;
        let vs = self.p.vars(c);
        if vs.iter().all(|x| *x & 0xc000_0000 == 0 && { let e = self.p.var_id(*x, 8); st.known.contains_key(&e) }) {
            // every input byte the condition depends on is fixed on this path
            Rc::make_mut(&mut st.known).insert(c, v as u128);
            return Ok(v);
        }
        let nc = self.p.not(c);
        let (here, other) = if v { (c, nc) } else { (nc, c) };
        match self.s.check(&mut self.p, &st.pc, other, &st.model) {
            Res::Sat(m) => {
                let mut o = st.clone();
                let mut nm = (*o.model).clone();
                nm.extend(m);
                o.model = Rc::new(nm);
                o.forks += 1;
                self.nforks += 1;
                self.add(&mut o, other);
                Rc::make_mut(&mut o.known).insert(c, !v as u128);
                o.instrs = 0;
                self.work.push(o);
                self.add(st, here);
            }
            Res::Unsat => {}
            Res::Unknown => {
                *self.problems.entry("solver returned unknown".into()).or_default() += 1;
                self.add(st, here);
            }
        }
        Rc::make_mut(&mut st.known).insert(c, v as u128);
        Ok(v)
    }
    fn concretize(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::L(x) => Ok(**x as u64),
            Val::S(e) => {
                if let Some(k) = self.p.cv(*e) { return Ok(k as u64); }
                if let Some(k) = st.known.get(e) { return Ok(*k as u64); }
                let mut memo = HashMap::default();
                let c = self.p.eval(*e, &st.model, &mut memo);
                let w = self.p.w(*e);
                let k = self.p.konst(c, w);
                let q = self.p.eq(*e, k);
                let r = self.decide(st, q)?;
                debug_assert!(r);
                let _ = r;
                Rc::make_mut(&mut st.known).insert(*e, c);
                Ok(c as u64)
            }
            Val::A(_) => Err(Stop::Unsupported("concretize aggregate".into())),
        }
    }
    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if let Some(k) = self.p.cv(c) { return if k == 1 { Ok(()) } else { Err(Stop::Infeasible) }; }
        if let Some(k) = st.known.get(&c) { return if *k == 1 { Ok(()) } else { Err(Stop::Infeasible) }; }
        let mut memo = HashMap::default();
        if self.p.eval(c, &st.model, &mut memo) == 1 {
            self.add(st, c);
            return Ok(());
        }
        match self.s.check(&mut self.p, &st.pc, c, &st.model) {
            Res::Sat(m) => {
                let mut nm = (*st.model).clone();
                nm.extend(m);
                st.model = Rc::new(nm);
                self.add(st, c);
                Ok(())
            }
            Res::Unsat => Err(Stop::Infeasible),
            Res::Unknown => Err(Stop::Unsupported("solver unknown on assume".into())),
        }
    }

    // ---------- values ----------
    fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(x) => self.p.konst(*x as u128, w),
            Val::L(x) => self.p.konst(**x, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as expr"),
        }
    }
    fn from_e(&self, e: E) -> Val {
        match self.p.cv(e) { Some(k) => mkint(k, self.p.w(e)), None => Val::S(e) }
    }
    fn kv(v: &Val) -> Option<u128> { match v { Val::I(x) => Some(*x as u128), Val::L(x) => Some(**x), _ => None } }

    #[inline]
    fn get(f: &Frame, o: &Opnd) -> Val { match o { Opnd::R(r) => f.regs[*r as usize].clone(), Opnd::K(v) => v.clone() } }

    // ---------- memory ----------
    fn gobj(&mut self, gi: u32) -> Rc<Obj> {
        if let Some(o) = self.gobj.get(&gi) { return o.clone(); }
        let data = self.m.global_bytes(gi as usize);
        let o = Rc::new(Obj { size: data.len() as u64, soft: false, data, sym: vec![] });
        self.gobj.insert(gi, o.clone());
        o
    }
    fn find_glob(&self, a: u64) -> Option<(u64, u32)> {
        let i = self.gaddr.partition_point(|x| x.0 <= a);
        if i == 0 { return None; }
        let (b, sz, gi) = self.gaddr[i - 1];
        if a < b + sz + 1 { Some((b, gi)) } else { None }
    }
    fn obj(&mut self, st: &State, a: u64) -> R<(Rc<Obj>, u64)> {
        if a >= STACK_BASE {
            let i = ((a - STACK_BASE) >> SLOT) as usize;
            match st.stack.get(i) { Some(Some(o)) => return Ok((o.clone(), STACK_BASE + ((i as u64) << SLOT))), _ => {} }
        } else if a >= HEAP_BASE {
            let mut i = ((a - HEAP_BASE) >> SLOT) as usize;
            // multi-slot objects
            let mut back = 0;
            while back < 8 {
                match st.heap.get(i) { Some(Some(o)) => return Ok((o.clone(), HEAP_BASE + ((i as u64) << SLOT))), _ => {} }
                if i == 0 { break; }
                i -= 1;
                back += 1;
                // only step back into big objects
                match st.heap.get(i) { Some(Some(o)) if o.size > (1 << SLOT) => {} , _ => if back > 4 { break } }
            }
        } else if let Some((b, gi)) = self.find_glob(a) {
            if let Some(o) = st.globs.get(&gi) { return Ok((o.clone(), b)); }
            return Ok((self.gobj(gi), b));
        }
        Err(Stop::Fail(format!("memory error: access to unmapped address {:#x}", a)))
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, a: u64) -> R<(&'a mut Obj, u64)> {
        if a >= STACK_BASE {
            let i = ((a - STACK_BASE) >> SLOT) as usize;
            if let Some(Some(o)) = st.stack.get_mut(i) { return Ok((Rc::make_mut(o), STACK_BASE + ((i as u64) << SLOT))); }
        } else if a >= HEAP_BASE {
            let i0 = ((a - HEAP_BASE) >> SLOT) as usize;
            for back in 0..5 {
                if back > i0 { break; }
                let i = i0 - back;
                if matches!(st.heap.get(i), Some(Some(_))) {
                    let o = st.heap[i].as_mut().unwrap();
                    return Ok((Rc::make_mut(o), HEAP_BASE + ((i as u64) << SLOT)));
                }
            }
        } else if let Some((b, gi)) = self.find_glob(a) {
            if !st.globs.contains_key(&gi) {
                if self.m.globals[gi as usize].constant { return Err(Stop::Fail("memory error: write to constant".into())); }
                let o = self.gobj(gi);
                st.globs.insert(gi, o);
            }
            return Ok((Rc::make_mut(st.globs.get_mut(&gi).unwrap()), b));
        }
        Err(Stop::Fail(format!("memory error: write to unmapped address {:#x}", a)))
    }
    fn rd_byte(&mut self, st: &State, o: &Obj, off: usize) -> Result<u8, E> {
        if o.sym.is_empty() || o.sym[off] == 0 { return Ok(o.data[off]); }
        let e = o.sym[off];
        if let Some(k) = st.known.get(&e) { return Ok(*k as u8); }
        Err(e)
    }
    fn load_n(&mut self, st: &State, o: &Obj, off: u64, n: usize) -> R<Val> {
        if off + n as u64 > o.size { return Err(oob(o.soft, format!("memory error: out-of-bounds read of {} bytes at {} in object of {}", n, off, o.size))); }
        let off = off as usize;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(Val::I(u64::from_le_bytes(b)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Val::L(Rc::new(u128::from_le_bytes(b))));
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let b = match self.rd_byte(st, o, off + i) { Ok(k) => self.p.konst(k as u128, 8), Err(e) => e };
            acc = Some(match acc { None => b, Some(a) => self.p.concat(b, a) });
        }
        let e = acc.unwrap();
        Ok(self.from_e(e))
    }
    fn load_ty(&mut self, st: &State, o: &Obj, off: u64, ty: TyId) -> R<Val> {
        let ti = self.m.types.v[ty as usize].clone();
        match ti.ty {
            Ty::Int(w) => {
                let nb = ((w + 7) / 8) as usize;
                if nb > 16 { return Err(Stop::Unsupported(format!("load i{}", w))); }
                let v = self.load_n(st, o, off, nb)?;
                Ok(self.trunc_val(v, nb as u32 * 8, w))
            }
            Ty::Ptr | Ty::F64 => self.load_n(st, o, off, 8),
            Ty::F32 => self.load_n(st, o, off, 4),
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let es = self.m.types.v[e as usize].size;
                let mut v = vec![];
                for i in 0..n { v.push(self.load_ty(st, o, off + i * es, e)?); }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() { v.push(self.load_ty(st, o, off + ti.offs[i], *t)?); }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Unsupported("load type".into())),
        }
    }
    fn trunc_val(&mut self, v: Val, from: u32, w: u32) -> Val {
        if from == w { return v; }
        match v {
            Val::I(x) => mkint(x as u128, w),
            Val::L(x) => mkint(*x, w),
            Val::S(e) => { let e = self.p.extract(e, 0, w); self.from_e(e) }
            a => a,
        }
    }
    fn load(&mut self, st: &mut State, ty: TyId, pv: &Val) -> R<Val> {
        let a = match pv {
            Val::I(a) => *a,
            Val::S(e) => {
                if let Some(v) = self.load_sym(st, ty, *e)? { return Ok(v); }
                self.concretize(st, pv)?
            }
            _ => return Err(Stop::Unsupported("pointer kind".into())),
        };
        let (o, b) = self.obj(st, a)?;
        self.load_ty(st, &o, a - b, ty)
    }
    fn tz(&self, e: E) -> u32 {
        let n = self.p.n[e as usize];
        match n.op {
            Op::Const => if n.k == 0 { 64 } else { n.k.trailing_zeros() },
            Op::Add | Op::Or => self.tz(n.a).min(self.tz(n.b)),
            Op::Concat => if self.p.cv(n.b) == Some(0) { self.p.w(n.b) } else { self.tz(n.b) },
            Op::ZExt => self.tz(n.a),
            Op::Mul => self.tz(n.a) + self.tz(n.b),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }
    /// Read through a symbolic address that provably stays inside one small object.
    fn load_sym(&mut self, st: &mut State, ty: TyId, e: E) -> R<Option<Val>> {
        if st.known.contains_key(&e) { return Ok(None); }
        let size = self.m.types.v[ty as usize].size;
        if size > 16 || size == 0 || matches!(self.m.types.v[ty as usize].ty, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) { return Ok(None); }
        let mut memo = HashMap::default();
        let c = self.p.eval(e, &st.model, &mut memo) as u64;
        let (o, base) = match self.obj(st, c) { Ok(x) => x, Err(_) => return Ok(None) };
        if o.size > 8192 || o.size < size { return Ok(None); }
        let kb = self.p.konst(base as u128, 64);
        let d = self.p.bin(Op::Sub, e, kb);
        let lim = self.p.konst((o.size - size) as u128, 64);
        let out = self.p.bin(Op::Ult, lim, d);
        match self.s.check(&mut self.p, &st.pc, out, &st.model) { Res::Unsat => {} _ => return Ok(None) }
        let um = (self.p.umax[d as usize].min((o.size - size) as u128)) as u64;
        let step = 1u64 << self.tz(d).min(12);
        if um / step > 1100 { return Ok(None); }
        let w = self.m.width(ty);
        let mut acc: Option<E> = None;
        let mut off = 0;
        while off <= um {
            let v = self.load_ty(st, &o, off, ty)?;
            let ve = self.to_e(&v, w);
            acc = Some(match acc {
                None => ve,
                Some(a) => {
                    let k = self.p.konst(off as u128, 64);
                    let q = self.p.eq(d, k);
                    self.p.ite(q, ve, a)
                }
            });
            off += step;
        }
        Ok(acc.map(|e| self.from_e(e)))
    }
    fn store_bytes_n(&mut self, st: &mut State, a: u64, v: &Val, n: usize) -> R<()> {
        // split into bytes first (needs pool), then write
        let mut bytes: [(u8, E); 16] = [(0, 0); 16];
        match v {
            Val::I(x) => { for i in 0..n.min(8) { bytes[i].0 = (x >> (8 * i)) as u8; } }
            Val::L(x) => { for i in 0..n { bytes[i].0 = (**x >> (8 * i)) as u8; } }
            Val::S(e) => {
                let w = self.p.w(*e);
                let e2 = if w < n as u32 * 8 { self.p.zext(*e, n as u32 * 8) } else { *e };
                for i in 0..n {
                    let b = self.p.extract(e2, i as u32 * 8, 8);
                    match self.p.cv(b) {
                        Some(k) => bytes[i].0 = k as u8,
                        None => match st.known.get(&b) { Some(k) => bytes[i].0 = *k as u8, None => bytes[i].1 = b },
                    }
                }
            }
            Val::A(_) => return Err(Stop::Unsupported("store agg".into())),
        }
        let (o, b) = self.obj_mut(st, a)?;
        let off = a - b;
        if off + n as u64 > o.size { return Err(oob(o.soft, format!("memory error: out-of-bounds write of {} at {} in object of {}", n, off, o.size))); }
        let off = off as usize;
        let anysym = bytes[..n].iter().any(|x| x.1 != 0);
        if anysym && o.sym.is_empty() { o.sym = vec![0; o.size as usize]; }
        for i in 0..n {
            o.data[off + i] = bytes[i].0;
            if !o.sym.is_empty() { o.sym[off + i] = bytes[i].1; }
        }
        Ok(())
    }
    fn store_ty(&mut self, st: &mut State, a: u64, ty: TyId, v: &Val) -> R<()> {
        let ti = self.m.types.v[ty as usize].clone();
        match (&ti.ty, v) {
            (Ty::Int(w), _) => { let nb = ((*w + 7) / 8) as usize; if nb > 16 { return Err(Stop::Unsupported("store wide".into())); } self.store_bytes_n(st, a, v, nb) }
            (Ty::Ptr, _) | (Ty::F64, _) => self.store_bytes_n(st, a, v, 8),
            (Ty::F32, _) => self.store_bytes_n(st, a, v, 4),
            (Ty::Arr(n, e), Val::A(xs)) | (Ty::Vec(n, e), Val::A(xs)) => {
                let es = self.m.types.v[*e as usize].size;
                for i in 0..*n { self.store_ty(st, a + i * es, *e, &xs[i as usize])?; }
                Ok(())
            }
            (Ty::Struct(f, _), Val::A(xs)) => {
                for (i, t) in f.iter().enumerate() { self.store_ty(st, a + ti.offs[i], *t, &xs[i])?; }
                Ok(())
            }
            _ => Err(Stop::Unsupported("store type".into())),
        }
    }
    pub fn read_bytes(&mut self, st: &State, a: u64, n: u64) -> R<Vec<Result<u8, E>>> {
        if n == 0 { return Ok(vec![]); }
        let (o, b) = self.obj(st, a)?;
        let off = a - b;
        if off + n > o.size { return Err(oob(o.soft, format!("memory error: out-of-bounds read of {} at {} in {}", n, off, o.size))); }
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n { v.push(self.rd_byte(st, &o, (off + i) as usize)); }
        Ok(v)
    }
    fn read_concrete(&mut self, st: &State, a: u64, n: u64) -> R<Vec<u8>> {
        let v = self.read_bytes(st, a, n)?;
        v.into_iter().map(|x| x.map_err(|_| Stop::Unsupported("symbolic bytes where concrete expected".into()))).collect()
    }
    pub fn write_bytes(&mut self, st: &mut State, a: u64, v: &[Result<u8, E>]) -> R<()> {
        if v.is_empty() { return Ok(()); }
        let (o, b) = self.obj_mut(st, a)?;
        let off = (a - b) as usize;
        if off as u64 + v.len() as u64 > o.size { return Err(oob(o.soft, format!("memory error: out-of-bounds write of {} at {} in {}", v.len(), off, o.size))); }
        if o.sym.is_empty() && v.iter().any(|x| x.is_err()) { o.sym = vec![0; o.size as usize]; }
        for (i, x) in v.iter().enumerate() {
            match x {
                Ok(k) => { o.data[off + i] = *k; if !o.sym.is_empty() { o.sym[off + i] = 0; } }
                Err(e) => { o.data[off + i] = 0; o.sym[off + i] = *e; }
            }
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (so, sb) = self.obj(st, s)?;
        let soff = (s - sb) as usize;
        if soff as u64 + n > so.size { return Err(oob(so.soft, format!("memory error: memcpy read of {} at {} in {}", n, soff, so.size))); }
        let n = n as usize;
        let srcsym = !so.sym.is_empty() && so.sym[soff..soff + n].iter().any(|x| *x != 0);
        let (o, b) = self.obj_mut(st, d)?;
        let off = (d - b) as usize;
        if (off + n) as u64 > o.size { return Err(oob(o.soft, format!("memory error: memcpy write of {} at {} in {}", n, off, o.size))); }
        o.data[off..off + n].copy_from_slice(&so.data[soff..soff + n]);
        if srcsym {
            if o.sym.is_empty() { o.sym = vec![0; o.size as usize]; }
            o.sym[off..off + n].copy_from_slice(&so.sym[soff..soff + n]);
        } else if !o.sym.is_empty() {
            for x in &mut o.sym[off..off + n] { *x = 0; }
        }
        Ok(())
    }
    fn new_heap(&mut self, st: &mut State, size: u64) -> u64 { self.new_heap_s(st, size, false) }
    fn new_heap_s(&mut self, st: &mut State, size: u64, soft: bool) -> u64 {
        let i = st.heap.len();
        let slots = ((if soft { BIG_ALLOC } else { size }) >> SLOT) + 1;
        st.heap.push(Some(Rc::new(Obj { size, soft, data: vec![0; size as usize], sym: vec![] })));
        for _ in 1..slots { st.heap.push(None); }
        HEAP_BASE + ((i as u64) << SLOT)
    }
    fn alloc(&mut self, st: &mut State, size: &Val) -> R<u64> {
        if let Val::S(e) = size {
            let k = self.p.konst(BIG_ALLOC as u128, 64);
            let big = self.p.bin(Op::Ult, k, *e);
            if self.decide(st, big)? { return Err(Stop::Panic("allocation of attacker-controlled size (> 64 MiB)".into())); }
            let k = self.p.konst(SOFT_MIN as u128, 64);
            let soft = self.p.bin(Op::Ult, k, *e);
            if self.decide(st, soft)? { return Ok(self.new_heap_s(st, SOFT_CAP, true)); }
        }
        let n = self.concretize(st, size)?;
        if n > BIG_ALLOC { return Err(Stop::Panic(format!("huge allocation ({} bytes)", n))); }
        Ok(self.new_heap(st, n))
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 { return Ok(()); }
        if a < HEAP_BASE || a >= STACK_BASE || (a - HEAP_BASE) & ((1 << SLOT) - 1) != 0 { return Err(Stop::Fail("memory error: bad free".into())); }
        let i = ((a - HEAP_BASE) >> SLOT) as usize;
        if st.heap[i].is_none() { return Err(Stop::Fail("memory error: double free".into())); }
        st.heap[i] = None;
        Ok(())
    }

    // ---------- scalar ops ----------
    fn binop(&mut self, st: &mut State, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let sxt = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => if y >= w as u64 { 0 } else { x << y },
                    BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                    BinOp::AShr => (sxt(x) >> y.min(63)) as u64,
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return Err(Stop::Fail("division by zero".into())),
                    BinOp::UDiv => x / y,
                    BinOp::URem => x % y,
                    BinOp::SDiv => sxt(x).wrapping_div(sxt(y)) as u64,
                    BinOp::SRem => sxt(x).wrapping_rem(sxt(y)) as u64,
                    BinOp::FAdd => fop(w, x, y, |a, b| a + b),
                    BinOp::FSub => fop(w, x, y, |a, b| a - b),
                    BinOp::FMul => fop(w, x, y, |a, b| a * b),
                    BinOp::FDiv => fop(w, x, y, |a, b| a / b),
                };
                return Ok(Val::I(r & m));
            }
        }
        let eop = match op {
            BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr,
            _ => return Err(Stop::Unsupported("symbolic float".into())),
        };
        if let (Some(x), Some(y)) = (Self::kv(a), Self::kv(b)) { return Ok(mkint(crate::expr::fold(eop, w, x, y), w)); }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
            let z = self.p.konst(0, w);
            let q = self.p.eq(y, z);
            if self.decide(st, q)? { return Err(Stop::Fail("division by zero".into())); }
        }
        let e = self.p.bin(eop, x, y);
        Ok(self.from_e(e))
    }
    fn lanes(v: &Val) -> &Rc<Vec<Val>> { match v { Val::A(x) => x, _ => panic!("lanes") } }

    fn icmp(&mut self, pr: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| ((v << (64 - w.min(64))) as i64) >> (64 - w.min(64));
            let r = match pr {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y), Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y),
            };
            return Val::I(r as u64);
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let e = self.icmp_e(pr, x, y);
        self.from_e(e)
    }
    fn icmp_e(&mut self, pr: Pred, x: E, y: E) -> E {
        match pr {
            Pred::Eq => self.p.bin(Op::Eq, x, y),
            Pred::Ne => { let e = self.p.bin(Op::Eq, x, y); self.p.not(e) }
            Pred::Ult => self.p.bin(Op::Ult, x, y),
            Pred::Ule => self.p.bin(Op::Ule, x, y),
            Pred::Ugt => self.p.bin(Op::Ult, y, x),
            Pred::Uge => self.p.bin(Op::Ule, y, x),
            Pred::Slt => self.p.bin(Op::Slt, x, y),
            Pred::Sle => self.p.bin(Op::Sle, x, y),
            Pred::Sgt => self.p.bin(Op::Slt, y, x),
            Pred::Sge => self.p.bin(Op::Sle, y, x),
        }
    }
    fn select(&mut self, st: &mut State, c: E, ty: TyId, a: &Val, b: &Val) -> R<Val> {
        // pointer-valued or aggregate selects over different objects: fork; integers: ite
        if let Some(k) = st.known.get(&c) { return Ok(if *k == 1 { a.clone() } else { b.clone() }); }
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let ti = self.m.types.v[ty as usize].ty.clone();
                let mut v = vec![];
                for i in 0..x.len() {
                    let t = match &ti { Ty::Struct(f, _) => f[i], Ty::Arr(_, e) | Ty::Vec(_, e) => *e, _ => panic!() };
                    v.push(self.select(st, c, t, &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                if self.m.types.v[ty as usize].ty == Ty::Ptr {
                    return Ok(if self.decide(st, c)? { a.clone() } else { b.clone() });
                }
                let w = self.m.width(ty);
                let (x, y) = (self.to_e(a, w), self.to_e(b, w));
                let e = self.p.ite(c, x, y);
                Ok(self.from_e(e))
            }
        }
    }
    fn flatten(&mut self, ty: TyId, v: &Val) -> R<(E, u32)> {
        // to a bit string, little endian lanes
        match self.m.types.v[ty as usize].ty.clone() {
            Ty::Vec(n, e) => {
                let mut acc: Option<(E, u32)> = None;
                let l = Self::lanes(v).clone();
                for i in 0..n as usize {
                    let w = self.m.width(e);
                    let x = self.to_e(&l[i], w);
                    acc = Some(match acc { None => (x, w), Some((a, aw)) => { if aw + w > 128 { return Err(Stop::Unsupported("wide bitcast".into())); } (self.p.concat(x, a), aw + w) } });
                }
                Ok(acc.unwrap())
            }
            _ => { let w = self.m.width(ty); Ok((self.to_e(v, w), w)) }
        }
    }
    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, v: &Val) -> R<Val> {
        if let (Ty::Vec(n, fe), Ty::Vec(m, te)) = (self.m.types.v[from as usize].ty.clone(), self.m.types.v[to as usize].ty.clone()) {
            if op != CastOp::Bitcast || (n == m) {
                let l = Self::lanes(v).clone();
                let mut o = vec![];
                for x in l.iter() { o.push(self.cast(op, fe, te, x)?); }
                return Ok(Val::A(Rc::new(o)));
            }
        }
        let (fw, tw) = (self.m.width(from), self.m.width(to));
        match op {
            CastOp::Trunc => Ok(self.trunc_val(v.clone(), fw, tw)),
            CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr => {
                if tw < fw { return Ok(self.trunc_val(v.clone(), fw, tw)); }
                match v {
                    Val::I(x) => Ok(mkint(*x as u128, tw)),
                    Val::S(e) => { let e = self.p.zext(*e, tw); Ok(self.from_e(e)) }
                    o => Ok(o.clone()),
                }
            }
            CastOp::SExt => match v {
                Val::I(x) => { let s = ((*x << (64 - fw)) as i64) >> (64 - fw); Ok(mkint(s as i128 as u128, tw)) }
                Val::S(e) => { let e = self.p.sext(*e, tw); Ok(self.from_e(e)) }
                o => Ok(o.clone()),
            },
            CastOp::Bitcast => {
                let tvec = matches!(self.m.types.v[to as usize].ty, Ty::Vec(..));
                let fvec = matches!(self.m.types.v[from as usize].ty, Ty::Vec(..));
                if !tvec && !fvec { return Ok(v.clone()); }
                let (e, _) = self.flatten(from, v)?;
                match self.m.types.v[to as usize].ty.clone() {
                    Ty::Vec(n, te) => {
                        let w = self.m.width(te);
                        let mut o = vec![];
                        for i in 0..n as u32 { let x = self.p.extract(e, i * w, w); o.push(self.from_e(x)); }
                        Ok(Val::A(Rc::new(o)))
                    }
                    _ => Ok(self.from_e(e)),
                }
            }
            _ => {
                let x = match v { Val::I(x) => *x, _ => return Err(Stop::Unsupported("symbolic float cast".into())) };
                let f = |w: u32, x: u64| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let g = |w: u32, x: f64| if w == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() };
                Ok(match op {
                    CastOp::UiToFp => Val::I(g(tw, x as f64)),
                    CastOp::SiToFp => Val::I(g(tw, (((x << (64 - fw)) as i64) >> (64 - fw)) as f64)),
                    CastOp::FpToUi => mkint(f(fw, x) as u128, tw),
                    CastOp::FpToSi => mkint(f(fw, x) as i128 as u128, tw),
                    _ => Val::I(g(tw, f(fw, x))),
                })
            }
        }
    }

    // ---------- main loop ----------
    fn jump(&mut self, st: &mut State, to: u32) {
        let body = st.frames.last().unwrap().body.clone();
        let from = st.frames.last().unwrap().bb;
        let blk = &body.blocks[to as usize];
        let f = st.frames.last_mut().unwrap();
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
            for ph in &blk.phis {
                let o = ph.inc.iter().find(|x| x.0 == from).expect("phi edge");
                vals.push((ph.d, Self::get(f, &o.1)));
            }
            for (d, v) in vals { f.regs[d as usize] = v; }
        }
        f.bb = to;
        f.ip = 0;
    }

    fn run_state(&mut self, st: &mut State) -> R<()> {
        loop {
            st.instrs += 1;
            if st.instrs & 0xffff == 0 {
                if st.instrs > self.o.max_instrs { return Err(Stop::Limit("instruction limit on a path".into())); }
                if self.t0.elapsed().as_secs_f64() > self.o.time_limit { return Err(Stop::Limit("time limit reached: exploration incomplete".into())); }
            }
            self.step(st)?;
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let body = st.frames.last().unwrap().body.clone();
        let (bb, ip) = { let f = st.frames.last().unwrap(); (f.bb, f.ip) };
        let ins = &body.blocks[bb as usize].ins[ip];
        macro_rules! g { ($o:expr) => { Self::get(st.frames.last().unwrap(), $o) }; }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let f = st.frames.last_mut().unwrap(); f.regs[*$d as usize] = v; f.ip += 1; }}; }
        match ins {
            I::Bin(op, ty, d, a, b) => {
                let (a, b) = (g!(a), g!(b));
                let r = match (&a, &b) {
                    (Val::A(x), Val::A(y)) => {
                        let et = match self.m.types.v[*ty as usize].ty { Ty::Vec(_, e) => e, _ => panic!() };
                        let w = self.m.width(et);
                        let mut o = vec![];
                        for i in 0..x.len() { o.push(self.binop(st, *op, w, &x[i], &y[i])?); }
                        Val::A(Rc::new(o))
                    }
                    _ => { let w = self.m.width(*ty); self.binop(st, *op, w, &a, &b)? }
                };
                set!(d, r);
            }
            I::ICmp(pr, ty, d, a, b) => {
                let (a, b) = (g!(a), g!(b));
                let r = match (&a, &b) {
                    (Val::A(x), Val::A(y)) => {
                        let et = match self.m.types.v[*ty as usize].ty { Ty::Vec(_, e) => e, _ => panic!() };
                        let w = self.m.width(et);
                        Val::A(Rc::new((0..x.len()).map(|i| self.icmp(*pr, w, &x[i], &y[i])).collect()))
                    }
                    _ => { let w = self.m.width(*ty); self.icmp(*pr, w, &a, &b) }
                };
                set!(d, r);
            }
            I::FCmp(pr, ty, d, a, b) => {
                let (a, b) = (g!(a), g!(b));
                let w = self.m.width(*ty);
                let (x, y) = match (&a, &b) { (Val::I(x), Val::I(y)) => (*x, *y), _ => return Err(Stop::Unsupported("fcmp symbolic".into())) };
                let f = |x: u64| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let (x, y) = (f(x), f(y));
                let r = match pr.as_str() {
                    "oeq" => x == y, "one" => x != y && !x.is_nan() && !y.is_nan(), "olt" => x < y, "ole" => x <= y, "ogt" => x > y, "oge" => x >= y,
                    "ueq" => !(x < y || x > y), "une" => x != y, "ult" => !(x >= y), "ule" => !(x > y), "ugt" => !(x <= y), "uge" => !(x < y),
                    "ord" => !x.is_nan() && !y.is_nan(), "uno" => x.is_nan() || y.is_nan(), "true" => true, _ => false,
                };
                set!(d, Val::I(r as u64));
            }
            I::FNeg(d, ty, a) => {
                let w = self.m.width(*ty);
                let x = match g!(a) { Val::I(x) => x, _ => return Err(Stop::Unsupported("fneg".into())) };
                set!(d, Val::I(x ^ (1u64 << (w - 1))));
            }
            I::Select(d, ty, c, a, b) => {
                let (c, a, b) = (g!(c), g!(a), g!(b));
                let r = match &c {
                    Val::I(1) => a,
                    Val::I(_) => b,
                    Val::S(e) => { let e = *e; self.select(st, e, *ty, &a, &b)? }
                    Val::A(cs) => {
                        let et = match self.m.types.v[*ty as usize].ty { Ty::Vec(_, e) => e, _ => panic!() };
                        let (x, y) = (Self::lanes(&a).clone(), Self::lanes(&b).clone());
                        let mut o = vec![];
                        for i in 0..x.len() {
                            o.push(match &cs[i] { Val::I(1) => x[i].clone(), Val::I(_) => y[i].clone(), Val::S(e) => self.select(st, *e, et, &x[i], &y[i])?, _ => panic!() });
                        }
                        Val::A(Rc::new(o))
                    }
                    _ => panic!(),
                };
                set!(d, r);
            }
            I::Load(d, ty, p) => {
                let p = g!(p);
                let v = self.load(st, *ty, &p)?;
                set!(d, v);
            }
            I::Store(ty, v, p) => {
                let (v, p) = (g!(v), g!(p));
                if !self.soft_store(st, *ty, &v, &p)? {
                    let a = self.concretize(st, &p)?;
                    self.store_ty(st, a, *ty, &v)?;
                }
                st.frames.last_mut().unwrap().ip += 1;
            }
            I::Alloca(d, size, n, _al) => {
                let mut sz = *size;
                if let Some((n, _)) = n { let nv = g!(n); let k = self.concretize(st, &nv)?; sz *= k; }
                let i = st.stack.len();
                st.stack.push(Some(Rc::new(Obj { size: sz, soft: false, data: vec![0; sz as usize], sym: vec![] })));
                set!(d, Val::I(STACK_BASE + ((i as u64) << SLOT)));
            }
            I::Gep(d, base, off, dy) => {
                let b = g!(base);
                let mut r = match &b {
                    Val::I(x) => Val::I(x.wrapping_add(*off as u64)),
                    _ => { let k = Val::I(*off as u64); self.binop(st, BinOp::Add, 64, &b, &k)? }
                };
                for (o, w, sc) in dy {
                    let v = g!(o);
                    let t = match &v {
                        Val::I(x) => { let s = if *w < 64 { ((x << (64 - w)) as i64) >> (64 - w) } else { *x as i64 }; Val::I(s.wrapping_mul(*sc) as u64) }
                        Val::S(e) => { let e = if *w < 64 { self.p.sext(*e, 64) } else if *w > 64 { self.p.extract(*e, 0, 64) } else { *e }; let k = self.p.konst(*sc as u64 as u128, 64); let e = self.p.bin(Op::Mul, e, k); self.from_e(e) }
                        _ => return Err(Stop::Unsupported("vector gep".into())),
                    };
                    r = self.binop(st, BinOp::Add, 64, &r, &t)?;
                }
                set!(d, r);
            }
            I::Cast(op, d, f, t, v) => {
                let v = g!(v);
                let r = self.cast(*op, *f, *t, &v)?;
                set!(d, r);
            }
            I::Extract(d, v, ix) => {
                let mut v = g!(v);
                for i in ix { v = Self::lanes(&v)[*i as usize].clone(); }
                set!(d, v);
            }
            I::Insert(d, _ty, v, e, ix) => {
                let (v, e) = (g!(v), g!(e));
                fn ins(v: &Val, e: Val, ix: &[u32]) -> Val {
                    let mut l = match v { Val::A(l) => (**l).clone(), _ => panic!() };
                    let i = ix[0] as usize;
                    l[i] = if ix.len() == 1 { e } else { ins(&l[i], e, &ix[1..]) };
                    Val::A(Rc::new(l))
                }
                set!(d, ins(&v, e, ix));
            }
            I::ExtractElem(d, v, i) => {
                let (v, i) = (g!(v), g!(i));
                let i = self.concretize(st, &i)? as usize;
                set!(d, Self::lanes(&v)[i].clone());
            }
            I::InsertElem(d, v, e, i) => {
                let (v, e, i) = (g!(v), g!(e), g!(i));
                let i = self.concretize(st, &i)? as usize;
                let mut l = (**Self::lanes(&v)).clone();
                l[i] = e;
                set!(d, Val::A(Rc::new(l)));
            }
            I::Shuffle(d, a, b, mk, n) => {
                let (a, b) = (g!(a), g!(b));
                let o = mk.iter().map(|i| { let i = *i as usize; if i < *n as usize { Self::lanes(&a)[i].clone() } else { Self::lanes(&b)[i - *n as usize].clone() } }).collect();
                set!(d, Val::A(Rc::new(o)));
            }
            I::Copy(d, v) => { let v = g!(v); set!(d, v); }
            I::Rmw(op, d, ty, p, v) => {
                let (p, v) = (g!(p), g!(v));
                let a = self.concretize(st, &p)?;
                let old = self.load(st, *ty, &Val::I(a))?;
                let w = self.m.width(*ty);
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => self.binop(st, BinOp::Add, w, &old, &v)?,
                    "sub" => self.binop(st, BinOp::Sub, w, &old, &v)?,
                    "and" => self.binop(st, BinOp::And, w, &old, &v)?,
                    "or" => self.binop(st, BinOp::Or, w, &old, &v)?,
                    "xor" => self.binop(st, BinOp::Xor, w, &old, &v)?,
                    "umax" => { let (x, y) = (w64(&old).unwrap_or(0), w64(&v).unwrap_or(0)); Val::I(x.max(y)) }
                    o => return Err(Stop::Unsupported(format!("atomicrmw {}", o))),
                };
                self.store_ty(st, a, *ty, &nv)?;
                set!(d, old);
            }
            I::CmpXchg(d, ty, p, c, n) => {
                let (p, c, n) = (g!(p), g!(c), g!(n));
                let a = self.concretize(st, &p)?;
                let old = self.load(st, *ty, &Val::I(a))?;
                let w = self.m.width(*ty);
                let q = self.icmp(Pred::Eq, w, &old, &c);
                let ok = match q { Val::I(x) => x == 1, Val::S(e) => self.decide(st, e)?, _ => panic!() };
                if ok { self.store_ty(st, a, *ty, &n)?; }
                set!(d, Val::A(Rc::new(vec![old, Val::I(ok as u64)])));
            }
            I::Br(b) => self.jump(st, *b),
            I::CondBr(c, a, b) => {
                let c = g!(c);
                let t = match c { Val::I(x) => x == 1, Val::S(e) => self.decide(st, e)?, _ => panic!() };
                self.jump(st, if t { *a } else { *b });
            }
            I::Switch(ty, v, def, cs) => {
                let v = g!(v);
                match &v {
                    Val::I(_) | Val::L(_) => {
                        let x = Self::kv(&v).unwrap();
                        let t = cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    Val::S(e) => {
                        let e = *e;
                        if let Some(k) = st.known.get(&e) {
                            let k = *k;
                            let t = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                            self.jump(st, t);
                            return Ok(());
                        }
                        let w = self.m.width(*ty);
                        // distinct targets, default first
                        let mut order: Vec<u32> = vec![];
                        for (_, t) in cs { if *t != *def && !order.contains(t) { order.push(*t); } }
                        for t in order {
                            let mut c = self.p.konst(0, 1);
                            for (k, tt) in cs { if *tt == t { let kk = self.p.konst(*k, w); let q = self.p.eq(e, kk); c = self.p.or(c, q); } }
                            if self.decide(st, c)? { self.jump(st, t); return Ok(()); }
                        }
                        self.jump(st, *def);
                    }
                    _ => panic!(),
                }
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| g!(o));
                let f = st.frames.pop().unwrap();
                st.stack.truncate(f.stack_mark);
                if st.frames.is_empty() { return Err(Stop::Return); }
                let c = st.frames.last_mut().unwrap();
                if let Some(d) = f.ret { c.regs[d as usize] = v.unwrap_or(Val::I(0)); }
                match f.normal { Some(b) => self.jump(st, b), None => c.ip += 1 }
            }
            I::Unreachable => return Err(Stop::Fail("reached `unreachable`".into())),
            I::Bad(s) => return Err(Stop::Unsupported(s.clone())),
            I::Call { d, ret, callee, args, normal } => {
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args { av.push(g!(o)); }
                let fi = match callee {
                    Callee::Direct(fi) => *fi,
                    Callee::Indirect(o) => {
                        let v = g!(o);
                        let a = self.concretize(st, &v)?;
                        match self.m.func_at(a) { Some(f) => f, None => return Err(Stop::Fail(format!("memory error: call through bad pointer {:#x}", a))) }
                    }
                    Callee::Asm(s) => {
                        let r = if s.contains("cpuid") || s.contains("xgetbv") { self.m.zero(*ret) } else if s.starts_with('|') { av.first().cloned().unwrap_or(Val::I(0)) } else { return Err(Stop::Unsupported(format!("asm {}", s))) };
                        let f = st.frames.last_mut().unwrap();
                        if let Some(d) = d { f.regs[*d as usize] = r; }
                        f.ip += 1;
                        return Ok(());
                    }
                };
                let tys: Vec<TyId> = args.iter().map(|x| x.0).collect();
                let r = self.call(st, fi, &av, &tys, *ret)?;
                match r {
                    Some(v) => {
                        let f = st.frames.last_mut().unwrap();
                        if let Some(d) = d { f.regs[*d as usize] = v; }
                        match normal { Some(b) => self.jump(st, *b), None => f.ip += 1 }
                    }
                    None => {
                        // push frame
                        let b = self.m.body(fi).unwrap();
                        if st.frames.len() > 400 { return Err(Stop::Limit("call depth".into())); }
                        let mut regs = vec![Val::I(0); b.nregs as usize];
                        for (i, r) in b.params.iter().enumerate() { if i < av.len() { regs[*r as usize] = av[i].clone(); } }
                        self.funcs_run.insert(fi);
                        let mark = st.stack.len();
                        st.frames.push(Frame { func: fi, body: b, bb: 0, ip: 0, regs, stack_mark: mark, ret: *d, normal: *normal });
                    }
                }
            }
        }
        Ok(())
    }

    fn str_arg(&mut self, st: &State, p: &Val, n: &Val) -> R<String> {
        let (a, n) = (w64(p).unwrap_or(0), w64(n).unwrap_or(0));
        Ok(String::from_utf8_lossy(&self.read_concrete(st, a, n)?).to_string())
    }
    fn location(&mut self, st: &State, a: u64) -> Option<String> {
        // core::panic::Location { file: ptr, len, line: u32, col: u32 }
        let p = self.read_concrete(st, a, 24).ok()?;
        let f = u64::from_le_bytes(p[0..8].try_into().ok()?);
        let l = u64::from_le_bytes(p[8..16].try_into().ok()?);
        if l == 0 || l > 300 { return None; }
        let line = u32::from_le_bytes(p[16..20].try_into().ok()?);
        let mut s = self.read_concrete(st, f, l).ok()?;
        if s.last() == Some(&0) { s.pop(); }
        let s = String::from_utf8(s).ok()?;
        if !s.contains(".rs") { return None; }
        Some(format!("{}:{}", s, line))
    }
    fn panic_msg(&mut self, st: &State, av: &[Val]) -> String {
        for v in av.iter().rev() {
            if let Some(a) = w64(v) { if let Some(l) = self.location(st, a) { return format!("panic at {}", l); } }
            if let Some(a) = w64(v) {
                // PanicInfo { .., location: &Location, .. }
                if let Ok(b) = self.read_concrete(st, a, 24) {
                    for k in 0..3 { let q = u64::from_le_bytes(b[k * 8..k * 8 + 8].try_into().unwrap()); if let Some(l) = self.location(st, q) { return format!("panic at {}", l); } }
                }
            }
        }
        "panic".into()
    }

    /// Returns Some(value) when handled here, None when the body is to be interpreted.
    fn call(&mut self, st: &mut State, fi: u32, av: &[Val], tys: &[TyId], ret: TyId) -> R<Option<Val>> {
        match self.hooks[fi as usize] {
            Hook::None => {}
            Hook::Panic => { let m = self.panic_msg(st, av); return Err(Stop::Panic(m)); }
            Hook::Alloc | Hook::AllocZ => { let a = self.alloc(st, &av[0])?; return Ok(Some(Val::I(a))); }
            Hook::Dealloc => { let a = self.concretize(st, &av[0])?; self.free(st, a)?; return Ok(Some(Val::I(0))); }
            Hook::Realloc => {
                let a = self.concretize(st, &av[0])?;
                return self.realloc(st, a, &av[3]).map(|x| Some(Val::I(x)));
            }
            Hook::Ret0 => return Ok(Some(Val::I(0))),
            Hook::PubkeyParse => return self.pubkey_parse(st, fi, av),
            Hook::XonlyParse => return self.xonly_parse(st, fi, av),
            Hook::SigParse => {
                let n = self.concretize(st, &av[3])?;
                let a = self.concretize(st, &av[2])?;
                let b = self.read_bytes(st, a, n)?;
                if b.iter().any(|x| x.is_err()) { return Err(Stop::Unsupported("symbolic DER signature".into())); }
            }
            Hook::EcdsaSign => { if let Some(v) = self.sign_uf(st, av, 32, 5)? { return Ok(Some(v)); } }
            Hook::SchnorrSign => { if let Some(v) = self.sign_uf(st, av, 96, 4)? { return Ok(Some(v)); } }
            Hook::EcdsaVerify => { if let Some(v) = self.verify_token(st, av, 0, 3)? { return Ok(Some(v)); } }
            Hook::SchnorrVerify => { if let Some(v) = self.verify_token(st, av, 1, 4)? { return Ok(Some(v)); } }
            Hook::Sha => {}
        }
        if self.m.funcs[fi as usize].text.is_some() { return Ok(None); }
        let name = self.m.funcs[fi as usize].name.clone();
        let u = |v: &Val| w64(v).unwrap_or(0);
        let r: Val = if let Some(n) = name.strip_prefix("llvm.") {
            self.intrinsic(st, n, av, tys, ret)?
        } else {
            match name.as_str() {
                "sym_bytes" => {
                    let (a, n) = (u(&av[0]), u(&av[1]));
                    let nm = self.str_arg(st, &av[2], &av[3])?;
                    self.mk_sym(st, a, n, &nm)?;
                    Val::I(0)
                }
                "sym_assume" => {
                    match &av[0] {
                        Val::I(x) => if *x == 0 { return Err(Stop::Infeasible); },
                        Val::S(e) => {
                            let mut c = *e;
                            let w = self.p.w(c);
                            if w > 1 { let z = self.p.konst(0, w); let q = self.p.eq(c, z); c = self.p.not(q); }
                            self.assume(st, c)?;
                        }
                        _ => panic!(),
                    }
                    Val::I(0)
                }
                "sym_assert" => {
                    let msg = self.str_arg(st, &av[1], &av[2])?;
                    let c = match &av[0] {
                        Val::I(x) => { if *x & 0xff == 0 { return Err(Stop::Fail(msg)); } self.asserts_const += 1; return Ok(Some(Val::I(0))); }
                        Val::S(e) => {
                            let w = self.p.w(*e);
                            if w > 1 { let e = self.p.extract(*e, 0, 8); let z = self.p.konst(0, 8); let q = self.p.eq(e, z); self.p.not(q) } else { *e }
                        }
                        _ => panic!(),
                    };
                    match self.p.cv(c).or(st.known.get(&c).copied()) {
                        Some(0) => return Err(Stop::Fail(msg)),
                        Some(_) => { self.asserts_const += 1; }
                        None => {
                            let nc = self.p.not(c);
                            self.asserts_solver += 1;
                            match self.s.check2(&mut self.p, &st.pc, nc, &st.model, false) {
                                Res::Unsat => {}
                                Res::Sat(m) => {
                                    if self.viol_msgs.insert(format!("fail:{}", msg)) && self.violations.len() < self.o.max_viol {
                                        let mut o = st.clone();
                                        let mut nm = (*o.model).clone();
                                        nm.extend(m);
                                        o.model = Rc::new(nm);
                                        let v = self.mk_violation(&o, "fail", msg);
                                        self.violations.push(v);
 self.o.time_limit = self.o.time_limit.min(self.t0.elapsed().as_secs_f64() + 15.0); // a shard with a violation need not be complete
                                    }
                                    self.assume(st, c)?;
                                }
                                Res::Unknown => return Err(Stop::Unsupported("solver unknown on assertion".into())),
                            }
                        }
                    }
                    Val::I(0)
                }
                "sym_fail" => { let m = self.str_arg(st, &av[0], &av[1])?; return Err(Stop::Fail(m)); }
                "sym_done" => return Err(Stop::Return),
                "sym_known" => { let m = self.str_arg(st, &av[0], &av[1])?; return Err(Stop::Known(m)); }
                "sym_cover" => { let m = self.str_arg(st, &av[0], &av[1])?; st.covers.insert(m); Val::I(0) }
                "sym_concretize" => { let k = self.concretize(st, &av[0])?; Val::I(k) }
                "sym_token" => {
                    let msg = self.read_ptr(st, &av[0], 32)?;
                    let pk = self.read_ptr(st, &av[1], 64)?;
                    let kind = self.concretize(st, &av[2])?;
                    let out = self.concretize(st, &av[3])?;
                    let t = (kind, pk, msg);
                    let n = match self.tokens.iter().position(|x| *x == t) { Some(n) => n, None => { self.tokens.push(t); self.tokens.len() - 1 } };
                    let b: Vec<Result<u8, E>> = token(n).iter().map(|x| Ok(*x)).collect();
                    self.write_bytes(st, out, &b)?;
                    Val::I(0)
                }
                "sym_shard" => Val::I(self.o.shard),
                "sym_native" => Val::I(0),
                "sym_tier" => Val::I(self.o.tier),
                "memcmp" | "bcmp" => {
                    let n = self.concretize(st, &av[2])?;
                    let (a, b) = (self.concretize(st, &av[0])?, self.concretize(st, &av[1])?);
                    self.memcmp(st, a, b, n, name == "bcmp")?
                }
                "strlen" => {
                    let a = self.concretize(st, &av[0])?;
                    let mut n = 0;
                    loop { let b = self.read_concrete(st, a + n, 1)?; if b[0] == 0 { break; } n += 1; }
                    Val::I(n)
                }
                "memcpy" | "memmove" => {
                    let n = self.concretize(st, &av[2])?;
                    let (a, b) = (self.concretize(st, &av[0])?, self.concretize(st, &av[1])?);
                    self.copy(st, a, b, n)?;
                    Val::I(a)
                }
                "memset" => {
                    let a = self.concretize(st, &av[0])?;
                    if !self.soft_zero(st, a, &av[1], &av[2])? {
                        let n = self.concretize(st, &av[2])?;
                        self.memset(st, a, &av[1], n)?;
                    }
                    Val::I(a)
                }
                "malloc" => Val::I(self.alloc(st, &av[0])?),
                "calloc" => { let n = self.concretize(st, &av[0])? * self.concretize(st, &av[1])?; Val::I(self.alloc(st, &Val::I(n))?) }
                "realloc" => { let a = u(&av[0]); Val::I(self.realloc(st, a, &av[1])?) }
                "posix_memalign" => { let a = self.alloc(st, &av[2])?; let p = u(&av[0]); self.store_bytes_n(st, p, &Val::I(a), 8)?; Val::I(0) }
                "free" => { let a = self.concretize(st, &av[0])?; self.free(st, a)?; Val::I(0) }
                "getenv" => Val::I(0),
                "write" | "writev" => av[2].clone(),
                "abort" => return Err(Stop::Panic("abort".into())),
                "syscall" | "getrandom" => {
                    // getrandom: deterministic bytes
                    Val::I(u(&av[2.min(av.len() - 1)]))
                }
                "__cxa_thread_atexit_impl" => Val::I(0),
                "__errno_location" => { let a = self.new_heap(st, 8); Val::I(a) }
                _ => return Err(Stop::Unsupported(format!("external function {}", name))),
            }
        };
        Ok(Some(r))
    }

    fn mk_sym(&mut self, st: &mut State, a: u64, n: u64, nm: &str) -> R<()> {
        let mut name = nm.to_string();
        let dup = st.inputs.iter().filter(|x| x.0 == nm || x.0.starts_with(&format!("{}#", nm))).count();
        if dup > 0 { name = format!("{}#{}", nm, dup); }
        let mut ids = vec![];
        let mut bytes = vec![];
        for i in 0..n as u32 {
            let key = (name.clone(), i);
            let id = match self.varmap.get(&key) {
                Some(id) => *id,
                None => { let e = self.p.var(&name, i, 8); let id = self.p.k(e) as u32; self.varmap.insert(key, id); id }
            };
            ids.push(id);
            match self.o.fix.get(&name) {
                Some(v) => bytes.push(Ok(*v.get(i as usize).unwrap_or(&0))),
                None => bytes.push(Err(self.p.var_id(id, 8))),
            }
        }
        if let Some(v) = self.o.fix.get(&name) {
            let mut m = (*st.model).clone();
            for (i, id) in ids.iter().enumerate() { m.insert(*id, *v.get(i).unwrap_or(&0) as u128); }
            st.model = Rc::new(m);
        }
        st.inputs.push((name, ids));
        self.write_bytes(st, a, &bytes)
    }
    fn memset(&mut self, st: &mut State, a: u64, v: &Val, n: u64) -> R<()> {
        let b = match v {
            Val::I(x) => Ok(*x as u8),
            Val::S(e) => { let e = self.p.extract(*e, 0, 8); match self.p.cv(e) { Some(k) => Ok(k as u8), None => Err(e) } }
            _ => panic!(),
        };
        self.write_bytes(st, a, &vec![b; n as usize])
    }
    /// A memset of symbolic length that changes nothing: the modelled part of the object already holds that byte.
    fn soft_zero(&mut self, st: &mut State, a: u64, v: &Val, n: &Val) -> R<bool> {
        let (b, e) = match (v, n) { (Val::I(b), Val::S(e)) => (*b as u8, *e), _ => return Ok(false) };
        if self.p.cv(e).is_some() || st.known.contains_key(&e) { return Ok(false); }
        let (o, base) = match self.obj(st, a) { Ok(x) => x, Err(_) => return Ok(false) };
        let off = (a - base) as usize;
        Ok(o.soft && off <= o.data.len() && o.data[off..].iter().all(|x| *x == b) && (o.sym.is_empty() || o.sym[off..].iter().all(|x| *x == 0)))
    }
    /// A one-byte store at a symbolic address of a soft object whose modelled part holds that byte everywhere.
    fn soft_store(&mut self, st: &mut State, ty: TyId, v: &Val, p: &Val) -> R<bool> {
        let (b, e) = match (v, p) { (Val::I(b), Val::S(e)) => (*b as u8, *e), _ => return Ok(false) };
        if self.p.cv(e).is_some() || st.known.contains_key(&e) || !matches!(self.m.types.v[ty as usize].ty, Ty::Int(8)) { return Ok(false); }
        let a = self.p.eval(e, &st.model, &mut HashMap::default()) as u64;
        let (o, base) = match self.obj(st, a) { Ok(x) => x, Err(_) => return Ok(false) };
        if !o.soft || o.data.iter().any(|x| *x != b) || o.sym.iter().any(|x| *x != 0) { return Ok(false); }
        let (lo, n) = (self.p.konst(base as u128, 64), self.p.konst(BIG_ALLOC as u128, 64));
        let d = self.p.bin(Op::Sub, e, lo);
        let inside = self.p.bin(Op::Ult, d, n);
        self.decide(st, inside)
    }
    fn realloc(&mut self, st: &mut State, a: u64, n: &Val) -> R<u64> {
        let b = self.alloc(st, n)?;
        if a != 0 {
            let (o, _) = self.obj(st, a)?;
            let k = o.size.min(self.obj(st, b)?.0.size);
            self.copy(st, b, a, k)?;
            self.free(st, a)?;
        }
        Ok(b)
    }
    fn memcmp(&mut self, st: &mut State, a: u64, b: u64, n: u64, only_eq: bool) -> R<Val> {
        let x = self.read_bytes(st, a, n)?;
        let y = self.read_bytes(st, b, n)?;
        if x.iter().chain(y.iter()).all(|v| v.is_ok()) {
            for i in 0..n as usize {
                let (p, q) = (*x[i].as_ref().unwrap(), *y[i].as_ref().unwrap());
                if p != q { return Ok(Val::I(if p < q { 0xffff_ffff } else { 1 })); }
            }
            return Ok(Val::I(0));
        }
        let ex = |s: &mut Self, v: &Result<u8, E>| match v { Ok(k) => s.p.konst(*k as u128, 8), Err(e) => *e };
        if only_eq {
            let mut c = self.p.konst(1, 1);
            for i in 0..n as usize {
                let (p, q) = (ex(self, &x[i]), ex(self, &y[i]));
                let e = self.p.eq(p, q);
                c = self.p.and(c, e);
            }
            let one = self.p.konst(1, 32);
            let zero = self.p.konst(0, 32);
            let r = self.p.ite(c, zero, one);
            return Ok(self.from_e(r));
        }
        let mut r = self.p.konst(0, 32);
        let lt = self.p.konst(0xffff_ffff, 32);
        let gt = self.p.konst(1, 32);
        for i in (0..n as usize).rev() {
            let (p, q) = (ex(self, &x[i]), ex(self, &y[i]));
            let e = self.p.eq(p, q);
            let l = self.p.bin(Op::Ult, p, q);
            let ne = self.p.ite(l, lt, gt);
            r = self.p.ite(e, r, ne);
        }
        Ok(self.from_e(r))
    }

    // secp256k1 parsing of symbolic encodings: wrong-prefix bytes are rejected (exact); otherwise the
    // bytes are assumed to be one of a fixed set of valid keys (a stated bound of the checks).
    fn pubkey_parse(&mut self, st: &mut State, fi: u32, av: &[Val]) -> R<Option<Val>> {
        let n = self.concretize(st, &av[3])?;
        let a = self.concretize(st, &av[2])?;
        let b = self.read_bytes(st, a, n)?;
        if b.iter().all(|x| x.is_ok()) { return if self.m.funcs[fi as usize].text.is_some() { Ok(None) } else { Err(Stop::Unsupported("secp256k1 code not loaded".into())) }; }
        if n != 33 && n != 65 { return Ok(Some(Val::I(0))); }
        let pre: Vec<u8> = if n == 33 { vec![2, 3] } else { vec![4, 6, 7] };
        let f = match &b[0] { Ok(k) => self.p.konst(*k as u128, 8), Err(e) => *e };
        let mut okp = self.p.konst(0, 1);
        for k in pre { let kk = self.p.konst(k as u128, 8); let q = self.p.eq(f, kk); okp = self.p.or(okp, q); }
        if !self.decide(st, okp)? { return Ok(Some(Val::I(0))); }
        self.pick_key(st, &b, n as usize)?;
        // bytes are now concrete through `known`
        self.refresh(st, a, n)?;
        Ok(None)
    }
    /// Signing of symbolic data: an uninterpreted function of message, key and auxiliary data, whose
    /// values are equal for identical arguments. Concrete arguments run the real code.
    fn sign_uf(&mut self, st: &mut State, av: &[Val], nkey: u64, aux: usize) -> R<Option<Val>> {
        let mut key = self.read_ptr(st, &av[2], 32)?;
        key.extend(self.read_ptr(st, &av[3], nkey)?);
        if self.concretize(st, &av[aux])? != 0 { key.extend(self.read_ptr(st, &av[aux], 32)?); }
        if key.iter().all(|x| x.is_ok()) { return Ok(None); }
        let n = self.signs.len();
        if !self.signs.contains_key(&key) {
            let v: Vec<E> = (0..64).map(|j| self.p.var(&format!("signature{}", n), j, 8)).collect();
            self.signs.insert(key.clone(), v);
        }
        let bytes: Vec<Result<u8, E>> = self.signs[&key].iter().map(|e| Err(*e)).collect();
        let out = self.concretize(st, &av[1])?;
        self.write_bytes(st, out, &bytes)?;
        Ok(Some(Val::I(1)))
    }
    /// Verification on a symbolic message: a signature is valid exactly when it was declared for this key and message.
    fn verify_token(&mut self, st: &mut State, av: &[Val], kind: u64, pk: usize) -> R<Option<Val>> {
        let mut sig = self.read_ptr(st, &av[1], 64)?;
        let msg = self.read_ptr(st, &av[2], 32)?;
        let key = self.read_ptr(st, &av[pk], 64)?;
        if kind == 0 { sig[..32].reverse(); sig[32..].reverse(); }
        let c: Option<Vec<u8>> = sig.iter().map(|x| x.ok()).collect();
        let n = match &c { Some(c) if c[..30] == token(0)[..30] => (c[30] as usize) << 8 | c[31] as usize, _ => usize::MAX };
        if n >= self.tokens.len() || c.as_deref() != Some(&token(n)[..]) {
            return if msg.iter().all(|x| x.is_ok()) { Ok(None) } else { Ok(Some(Val::I(0))) };
        }
        let t = self.tokens[n].clone();
        if t.0 != kind || t.1 != key { return Ok(Some(Val::I(0))); }
        if t.2 == msg { return Ok(Some(Val::I(1))); }
        let mut all = self.p.konst(1, 1);
        for (x, y) in t.2.iter().zip(&msg) {
            let f = |p: &mut Pool, x: &Result<u8, E>| match x { Ok(v) => p.konst(*v as u128, 8), Err(e) => *e };
            let (x, y) = (f(&mut self.p, x), f(&mut self.p, y));
            let q = self.p.eq(x, y);
            all = self.p.and(all, q);
        }
        if self.p.cv(all) == Some(0) { return Ok(Some(Val::I(0))); }
        // Two hashes that differ for the inputs at hand are taken to differ (the other case would need a collision
        // or messages that coincide for special inputs only, which other paths decide).
        if self.p.eval(all, &st.model, &mut HashMap::default()) == 0 {
            let no = self.p.not(all);
            self.add(st, no);
            return Ok(Some(Val::I(0)));
        }
        Ok(Some(Val::I(self.decide(st, all)? as u64)))
    }
    fn read_ptr(&mut self, st: &mut State, p: &Val, n: u64) -> R<Vec<Result<u8, E>>> {
        let a = self.concretize(st, p)?;
        self.read_bytes(st, a, n)
    }
    fn xonly_parse(&mut self, st: &mut State, fi: u32, av: &[Val]) -> R<Option<Val>> {
        let a = self.concretize(st, &av[2])?;
        let b = self.read_bytes(st, a, 32)?;
        if b.iter().all(|x| x.is_ok()) { return if self.m.funcs[fi as usize].text.is_some() { Ok(None) } else { Err(Stop::Unsupported("secp256k1 code not loaded".into())) }; }
        self.pick_key(st, &b, 32)?;
        self.refresh(st, a, 32)?;
        Ok(None)
    }
    fn pick_key(&mut self, st: &mut State, b: &[Result<u8, E>], n: usize) -> R<()> {
        let keys: Vec<Vec<u8>> = self.keys.clone();
        let mut conds = vec![];
        for k in keys.iter().filter(|k| k.len() == n) {
            let mut c = self.p.konst(1, 1);
            for i in 0..n {
                let x = match &b[i] { Ok(v) => self.p.konst(*v as u128, 8), Err(e) => *e };
                let kk = self.p.konst(k[i] as u128, 8);
                let q = self.p.eq(x, kk);
                c = self.p.and(c, q);
            }
            conds.push(c);
        }
        let mut any = self.p.konst(0, 1);
        for c in &conds { any = self.p.or(any, *c); }
        self.assumed_keys += 1;
        self.assume(st, any)?;
        for c in conds { if self.decide(st, c)? { return Ok(()); } }
        Err(Stop::Infeasible)
    }
    fn refresh(&mut self, st: &mut State, a: u64, n: u64) -> R<()> {
        let b = self.read_bytes(st, a, n)?;
        let mut any = false;
        for x in &b { if x.is_err() { any = true; } }
        if any { return Err(Stop::Unsupported("key bytes not determined".into())); }
        // constants may live in read-only memory; only rewrite writable objects
        let (o, base) = self.obj(st, a)?;
        let off = (a - base) as usize;
        if !o.sym.is_empty() && o.sym[off..off + n as usize].iter().any(|x| *x != 0) { self.write_bytes(st, a, &b)?; }
        Ok(())
    }

    fn map_lanes(&mut self, st: &mut State, av: &[Val], f: &mut dyn FnMut(&mut Self, &mut State, &[Val]) -> R<Val>) -> R<Val> {
        if let Val::A(x) = &av[0] {
            let n = x.len();
            let mut o = vec![];
            for i in 0..n {
                let l: Vec<Val> = av.iter().map(|v| match v { Val::A(y) => y[i].clone(), o => o.clone() }).collect();
                o.push(f(self, st, &l)?);
            }
            return Ok(Val::A(Rc::new(o)));
        }
        f(self, st, av)
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, av: &[Val], tys: &[TyId], ret: TyId) -> R<Val> {
        let base = n.split('.').next().unwrap();
        let w = {
            let t = tys.first().copied().unwrap_or(ret);
            match self.m.types.v[t as usize].ty { Ty::Vec(_, e) => self.m.width(e), _ => self.m.width(t) }
        };
        if n.contains("with.overflow") {
            let (a, b) = (&av[0], &av[1]);
            let op = &n[..4];
            let signed = op.starts_with('s');
            let bop = match &n[1..4] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
            if let (Some(x), Some(y)) = (Self::kv(a), Self::kv(b)) {
                if w <= 64 {
                    let s = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
                    let (r, o) = if signed {
                        let (x, y) = (s(x), s(y));
                        let r = match bop { Op::Add => x + y, Op::Sub => x - y, _ => x * y };
                        (r as u128 & mask(w), s(r as u128 & mask(w)) != r)
                    } else {
                        let r = match bop { Op::Add => x + y, Op::Sub => x.wrapping_sub(y), _ => x * y };
                        (r & mask(w), if bop == Op::Sub { x < y } else { r > mask(w) })
                    };
                    return Ok(Val::A(Rc::new(vec![mkint(r, w), Val::I(o as u64)])));
                }
            }
            let (x, y) = (self.to_e(a, w), self.to_e(b, w));
            let r = self.p.bin(bop, x, y);
            let o = if !signed && bop == Op::Sub {
                self.p.bin(Op::Ult, x, y)
            } else if !signed && bop == Op::Add {
                self.p.bin(Op::Ult, r, x)
            } else if let (false, Op::Mul, Some(c)) = (signed, bop, Self::kv(a).or(Self::kv(b)).filter(|c| *c != 0)) {
                let lim = self.p.konst(mask(w) / c, w);
                let v = if Self::kv(a).is_some() { y } else { x };
                self.p.bin(Op::Ult, lim, v)
            } else {
                let w2 = if bop == Op::Mul { w * 2 } else { w + 1 };
                if w2 > 128 {
                    if bop == Op::Add && !signed { self.p.bin(Op::Ult, r, x) } else { return Err(Stop::Unsupported("wide overflow op".into())); }
                } else if signed {
                    let (x2, y2) = (self.p.sext(x, w2), self.p.sext(y, w2));
                    let r2 = self.p.bin(bop, x2, y2);
                    let rr = self.p.extract(r2, 0, w);
                    let rs = self.p.sext(rr, w2);
                    let q = self.p.eq(rs, r2);
                    self.p.not(q)
                } else {
                    let (x2, y2) = (self.p.zext(x, w2), self.p.zext(y, w2));
                    let r2 = self.p.bin(bop, x2, y2);
                    let hi = self.p.extract(r2, w, w2 - w);
                    let z = self.p.konst(0, w2 - w);
                    let q = self.p.eq(hi, z);
                    self.p.not(q)
                }
            };
            return Ok(Val::A(Rc::new(vec![self.from_e(r), self.from_e(o)])));
        }
        match base {
            "memcpy" | "memmove" => {
                let n = self.concretize(st, &av[2])?;
                if n == 0 { return Ok(Val::I(0)); }
                let (a, b) = (self.concretize(st, &av[0])?, self.concretize(st, &av[1])?);
                self.copy(st, a, b, n)?;
                Ok(Val::I(0))
            }
            "memset" => {
                let a = self.concretize(st, &av[0])?;
                if self.soft_zero(st, a, &av[1], &av[2])? { return Ok(Val::I(0)); }
                let n = self.concretize(st, &av[2])?;
                if n == 0 { return Ok(Val::I(0)); }
                self.memset(st, a, &av[1], n)?;
                Ok(Val::I(0))
            }
            "umax" | "umin" | "smax" | "smin" => {
                let b = base.to_string();
                self.map_lanes(st, av, &mut |s, _st, l| {
                    let p = match b.as_str() { "umax" => Pred::Ugt, "umin" => Pred::Ult, "smax" => Pred::Sgt, _ => Pred::Slt };
                    let (x, y) = (s.to_e(&l[0], w), s.to_e(&l[1], w));
                    let c = s.icmp_e(p, x, y);
                    let r = s.p.ite(c, x, y);
                    Ok(s.from_e(r))
                })
            }
            "usub" | "uadd" => {
                let sub = base == "usub";
                self.map_lanes(st, av, &mut |s, _st, l| {
                    let (x, y) = (s.to_e(&l[0], w), s.to_e(&l[1], w));
                    let r = if sub {
                        let c = s.p.bin(Op::Ult, x, y);
                        let d = s.p.bin(Op::Sub, x, y);
                        let z = s.p.konst(0, w);
                        s.p.ite(c, z, d)
                    } else {
                        let d = s.p.bin(Op::Add, x, y);
                        let c = s.p.bin(Op::Ult, d, x);
                        let m = s.p.konst(mask(w), w);
                        s.p.ite(c, m, d)
                    };
                    Ok(s.from_e(r))
                })
            }
            "ucmp" | "scmp" => {
                let p = if base == "ucmp" { Pred::Ult } else { Pred::Slt };
                let rw = self.m.width(ret);
                let (x, y) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                let lt = self.icmp_e(p, x, y);
                let eq = self.p.eq(x, y);
                let m1 = self.p.konst(mask(rw), rw);
                let z = self.p.konst(0, rw);
                let o = self.p.konst(1, rw);
                let r = self.p.ite(eq, z, o);
                let r = self.p.ite(lt, m1, r);
                Ok(self.from_e(r))
            }
            "abs" => {
                let x = self.to_e(&av[0], w);
                let z = self.p.konst(0, w);
                let c = self.p.bin(Op::Slt, x, z);
                let ng = self.p.bin(Op::Sub, z, x);
                let r = self.p.ite(c, ng, x);
                Ok(self.from_e(r))
            }
            "ctpop" => self.map_lanes(st, av, &mut |s, _st, l| {
                if let Some(k) = Self::kv(&l[0]) { return Ok(mkint(k.count_ones() as u128, w)); }
                let x = s.to_e(&l[0], w);
                let mut r = s.p.konst(0, w);
                for i in 0..w { let b = s.p.extract(x, i, 1); let z = s.p.zext(b, w); r = s.p.bin(Op::Add, r, z); }
                Ok(s.from_e(r))
            }),
            "cttz" | "ctlz" => {
                let lead = base == "ctlz";
                let v = vec![av[0].clone()];
                self.map_lanes(st, &v, &mut |s, _st, l| {
                    if let Some(k) = Self::kv(&l[0]) {
                        let r = if k == 0 { w } else if lead { w - (128 - k.leading_zeros()) } else { k.trailing_zeros() };
                        return Ok(mkint(r as u128, w));
                    }
                    let x = s.to_e(&l[0], w);
                    let mut r = s.p.konst(w as u128, w);
                    for j in 0..w {
                        // last assignment wins: scan from least significant priority
                        let i = if lead { j } else { w - 1 - j };
                        let b = s.p.extract(x, i, 1);
                        let k = s.p.konst(if lead { (w - 1 - i) as u128 } else { i as u128 }, w);
                        r = s.p.ite(b, k, r);
                    }
                    Ok(s.from_e(r))
                })
            }
            "bswap" => {
                let x = self.to_e(&av[0], w);
                let nb = w / 8;
                let mut acc: Option<E> = None;
                for i in 0..nb {
                    // low byte of the result is the high byte of x
                    let b = self.p.extract(x, (nb - 1 - i) * 8, 8);
                    acc = Some(match acc { None => b, Some(a) => self.p.concat(b, a) });
                }
                Ok(self.from_e(acc.unwrap()))
            }
            "bitreverse" => {
                let x = self.to_e(&av[0], w);
                let mut acc: Option<E> = None;
                for i in 0..w { let b = self.p.extract(x, w - 1 - i, 1); acc = Some(match acc { None => b, Some(a) => self.p.concat(b, a) }); }
                Ok(self.from_e(acc.unwrap()))
            }
            "fshl" | "fshr" => {
                let left = base == "fshl";
                self.map_lanes(st, av, &mut |s, _st, l| {
                    let k = match Self::kv(&l[2]) { Some(k) => (k % w as u128) as u32, None => return Err(Stop::Unsupported("symbolic funnel shift".into())) };
                    let (x, y) = (s.to_e(&l[0], w), s.to_e(&l[1], w));
                    if w <= 64 {
                        if let (Some(a), Some(b)) = (s.p.cv(x), s.p.cv(y)) {
                            let c = (a << w) | b;
                            let r = if left { (c << k) >> w } else { c >> k };
                            return Ok(mkint(if left && w == 64 { ((a << k) | if k == 0 { 0 } else { b >> (w - k) }) & mask(w) } else { r }, w));
                        }
                    }
                    let r = if left {
                        if k == 0 { x } else { let h = s.p.extract(x, 0, w - k); let lo = s.p.extract(y, w - k, k); s.p.concat(h, lo) }
                    } else if k == 0 { y } else { let h = s.p.extract(x, 0, k); let lo = s.p.extract(y, k, w - k); s.p.concat(h, lo) };
                    Ok(s.from_e(r))
                })
            }
            "expect" | "ssa" | "launder" | "strip" | "threadlocal" | "ptrmask" => {
                if base == "ptrmask" { return self.binop(st, BinOp::And, 64, &av[0], &av[1]); }
                Ok(av[0].clone())
            }
            "is" => Ok(Val::I(0)),
            "objectsize" => Ok(Val::I(u64::MAX)),
            "trap" | "ubsantrap" => Err(Stop::Panic("trap".into())),
            "stacksave" => Ok(Val::I(0)),
            "stackrestore" | "prefetch" | "x86" if base != "x86" => Ok(Val::I(0)),
            "load" => {
                // llvm.load.relative.i64(ptr base, i64 off)
                let b = self.concretize(st, &av[0])?;
                let o = self.concretize(st, &av[1])?;
                let i32t = self.m.types.int(32);
                let v = self.load(st, i32t, &Val::I(b.wrapping_add(o)))?;
                let v = self.concretize(st, &v)? as u32 as i32;
                Ok(Val::I(b.wrapping_add(v as i64 as u64)))
            }
            "vector" => {
                let l = Self::lanes(av.last().unwrap()).clone();
                let op = n.split('.').nth(2).unwrap_or("");
                let mut acc = self.to_e(&l[0], w);
                for x in l.iter().skip(1) {
                    let y = self.to_e(x, w);
                    acc = match op {
                        "or" => self.p.or(acc, y),
                        "and" => self.p.and(acc, y),
                        "add" => self.p.bin(Op::Add, acc, y),
                        "xor" => self.p.bin(Op::Xor, acc, y),
                        "umax" => { let c = self.p.bin(Op::Ult, acc, y); self.p.ite(c, y, acc) }
                        "umin" => { let c = self.p.bin(Op::Ult, y, acc); self.p.ite(c, y, acc) }
                        _ => return Err(Stop::Unsupported(format!("llvm.{}", n))),
                    };
                }
                Ok(self.from_e(acc))
            }
            _ => Err(Stop::Unsupported(format!("llvm.{}", n))),
        }
    }
}

fn fop(w: u32, x: u64, y: u64, f: impl Fn(f64, f64) -> f64) -> u64 {
    if w == 32 { (f(f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) as f32).to_bits() as u64 } else { f(f64::from_bits(x), f64::from_bits(y)).to_bits() }
}

/// The bytes of declared signature `n` (small enough for both halves to be valid scalars, with a low second one).
fn token(n: usize) -> [u8; 64] {
    let mut b = [0x2a; 64];
    b[30] = (n >> 8) as u8;
    b[31] = n as u8;
    b
}
