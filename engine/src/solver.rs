//! Z3 through its C API (loaded with dlopen so the library can be chosen at run time).
use crate::expr::{fold, fold_cmp, sx, Model, Op, Pool, E};
use crate::ir::mask;
use crate::fx::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> P;
    fn dlsym(h: P, n: *const c_char) -> P;
}

macro_rules! api {
    ($($n:ident : fn($($a:ty),*) -> $r:ty;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($n: unsafe extern "C" fn($($a),*) -> $r,)* }
        impl Api {
            unsafe fn load(h: P) -> Api {
                Api { $($n: {
                    let c = CString::new(stringify!($n)).unwrap();
                    let p = dlsym(h, c.as_ptr());
                    if p.is_null() { panic!("missing {}", stringify!($n)); }
                    std::mem::transmute::<P, unsafe extern "C" fn($($a),*) -> $r>(p)
                },)* }
            }
        }
    };
}

api! {
    Z3_mk_config: fn() -> P;
    Z3_mk_context: fn(P) -> P;
    Z3_set_error_handler: fn(P, P) -> ();
    Z3_get_error_code: fn(P) -> c_uint;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_func_decl: fn(P, P, c_uint, *const P, P) -> P;
    Z3_mk_app: fn(P, P, c_uint, *const P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_bvsle: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_solver_inc_ref: fn(P, P) -> ();
    Z3_solver_push: fn(P, P) -> ();
    Z3_solver_pop: fn(P, P, c_uint) -> ();
    Z3_solver_assert: fn(P, P, P) -> ();
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_set_params: fn(P, P, P) -> ();
    Z3_solver_to_string: fn(P, P) -> *const c_char;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P) -> ();
    Z3_params_set_uint: fn(P, P, P, c_uint) -> ();
    Z3_model_inc_ref: fn(P, P) -> ();
    Z3_model_dec_ref: fn(P, P) -> ();
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_string: fn(P, P) -> *const c_char;
    Z3_get_full_version: fn() -> *const c_char;
}

pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}

pub struct Solver {
    a: Api,
    c: P,
    s: P,
    suf: P,
    ast: HashMap<E, P>,
    boo: HashMap<E, P>,
    decls: HashMap<(u32, u32), P>,
    cache: HashMap<Vec<E>, Option<Model>>,
    pub queries: u64,
    pub cached: u64,
    pub fastq: u64,
    doms: HashMap<E, [u64; 4]>,
    tables: HashMap<E, std::rc::Rc<[u128]>>,
    pub simple: bool,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub version: String,
    pub dump: Option<String>,
    pub dumped: u64,
}

unsafe extern "C" fn nop(_: P, _: c_uint) {}

impl Solver {
    pub fn new(lib: &str, timeout_ms: u32) -> Solver {
        unsafe {
            let n = CString::new(lib).unwrap();
            let h = dlopen(n.as_ptr(), 2);
            if h.is_null() {
                eprintln!("cannot load {}", lib);
                std::process::exit(4);
            }
            let a = Api::load(h);
            let cfg = (a.Z3_mk_config)();
            let c = (a.Z3_mk_context)(cfg);
            (a.Z3_set_error_handler)(c, nop as P);
            let lg = CString::new("QF_BV").unwrap();
            let s = (a.Z3_mk_solver_for_logic)(c, (a.Z3_mk_string_symbol)(c, lg.as_ptr()));
            (a.Z3_solver_inc_ref)(c, s);
            let suf = (a.Z3_mk_simple_solver)(c);
            (a.Z3_solver_inc_ref)(c, suf);
            let p = (a.Z3_mk_params)(c);
            (a.Z3_params_inc_ref)(c, p);
            let t = CString::new("timeout").unwrap();
            (a.Z3_params_set_uint)(c, p, (a.Z3_mk_string_symbol)(c, t.as_ptr()), timeout_ms);
            (a.Z3_solver_set_params)(c, s, p);
            (a.Z3_solver_set_params)(c, suf, p);
            let version = CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().to_string();
            Solver { a, c, s, suf, ast: HashMap::default(), boo: HashMap::default(), decls: HashMap::default(), cache: HashMap::default(),
                queries: 0, cached: 0, fastq: 0, doms: HashMap::default(), tables: HashMap::default(), simple: false, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0, version, dump: None, dumped: 0 }
        }
    }
    unsafe fn sort(&self, w: u32) -> P { (self.a.Z3_mk_bv_sort)(self.c, w) }
    unsafe fn num(&self, v: u128, w: u32) -> P {
        let s = CString::new(v.to_string()).unwrap();
        (self.a.Z3_mk_numeral)(self.c, s.as_ptr(), self.sort(w))
    }
    unsafe fn bv(&mut self, p: &Pool, e: E) -> P {
        if let Some(x) = self.ast.get(&e) { return *x; }
        // iterative post-order
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.ast.contains_key(&x) { continue; }
            let n = p.n[x as usize];
            if !done {
                st.push((x, true));
                match n.op {
                    Op::Const | Op::Var => {}
                    Op::App => for y in &p.apps[n.k as usize].1 { st.push((*y, false)); },
                    Op::Ite => { st.push((n.a, false)); st.push((n.b, false)); st.push((n.c, false)); }
                    Op::Extract | Op::ZExt | Op::SExt => st.push((n.a, false)),
                    _ => { st.push((n.a, false)); st.push((n.b, false)); }
                }
                continue;
            }
            let r = self.build(p, x);
            self.ast.insert(x, r);
        }
        self.ast[&e]
    }
    unsafe fn build(&mut self, p: &Pool, x: E) -> P {
        let n = p.n[x as usize];
        let w = n.w as u32;
        let c = self.c;
        let ar = |s: &Self, e: E| s.ast[&e];
        match n.op {
            Op::Const => self.num(n.k, w),
            Op::Var => {
                let nm = CString::new(format!("v{}", n.k)).unwrap();
                let sy = (self.a.Z3_mk_string_symbol)(c, nm.as_ptr());
                (self.a.Z3_mk_const)(c, sy, self.sort(w))
            }
            Op::App => {
                let (fid, args) = p.apps[n.k as usize].clone();
                let av: Vec<P> = args.iter().map(|e| ar(self, *e)).collect();
                let key = (fid, args.iter().fold(w, |h, e| h.wrapping_mul(1009).wrapping_add(p.w(*e))));
                let d = match self.decls.get(&key) {
                    Some(d) => *d,
                    None => {
                        let nm = CString::new(format!("f{}_{}", fid, key.1)).unwrap();
                        let sy = (self.a.Z3_mk_string_symbol)(c, nm.as_ptr());
                        let ss: Vec<P> = args.iter().map(|e| self.sort(p.w(*e))).collect();
                        let d = (self.a.Z3_mk_func_decl)(c, sy, ss.len() as u32, ss.as_ptr(), self.sort(w));
                        self.decls.insert(key, d);
                        d
                    }
                };
                (self.a.Z3_mk_app)(c, d, av.len() as u32, av.as_ptr())
            }
            Op::Ite => { let b = self.boolean(p, n.a); (self.a.Z3_mk_ite)(c, b, ar(self, n.b), ar(self, n.c)) }
            Op::Extract => (self.a.Z3_mk_extract)(c, n.k as u32 + w - 1, n.k as u32, ar(self, n.a)),
            Op::ZExt => (self.a.Z3_mk_zero_ext)(c, w - p.w(n.a), ar(self, n.a)),
            Op::SExt => (self.a.Z3_mk_sign_ext)(c, w - p.w(n.a), ar(self, n.a)),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let b = self.boolean(p, x);
                let (o, z) = (self.num(1, 1), self.num(0, 1));
                (self.a.Z3_mk_ite)(c, b, o, z)
            }
            _ => {
                let f = match n.op {
                    Op::Add => self.a.Z3_mk_bvadd, Op::Sub => self.a.Z3_mk_bvsub, Op::Mul => self.a.Z3_mk_bvmul,
                    Op::UDiv => self.a.Z3_mk_bvudiv, Op::SDiv => self.a.Z3_mk_bvsdiv, Op::URem => self.a.Z3_mk_bvurem, Op::SRem => self.a.Z3_mk_bvsrem,
                    Op::And => self.a.Z3_mk_bvand, Op::Or => self.a.Z3_mk_bvor, Op::Xor => self.a.Z3_mk_bvxor,
                    Op::Shl => self.a.Z3_mk_bvshl, Op::LShr => self.a.Z3_mk_bvlshr, Op::AShr => self.a.Z3_mk_bvashr,
                    Op::Concat => self.a.Z3_mk_concat,
                    _ => unreachable!(),
                };
                f(c, ar(self, n.a), ar(self, n.b))
            }
        }
    }
    unsafe fn boolean(&mut self, p: &Pool, e: E) -> P {
        if let Some(x) = self.boo.get(&e) { return *x; }
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.boo.contains_key(&x) { continue; }
            let n = p.n[x as usize];
            let isb = matches!(n.op, Op::And | Op::Or | Op::Xor) && n.w == 1;
            if !done && isb {
                st.push((x, true));
                st.push((n.a, false));
                st.push((n.b, false));
                continue;
            }
            let c = self.c;
            let r = if isb {
                let (a, b) = (self.boo[&n.a], self.boo[&n.b]);
                match n.op {
                    Op::And => { let v = [a, b]; (self.a.Z3_mk_and)(c, 2, v.as_ptr()) }
                    Op::Or => { let v = [a, b]; (self.a.Z3_mk_or)(c, 2, v.as_ptr()) }
                    _ => (self.a.Z3_mk_xor)(c, a, b),
                }
            } else {
                match n.op {
                    Op::Const => if n.k == 1 { (self.a.Z3_mk_true)(c) } else { (self.a.Z3_mk_false)(c) },
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                        let a = self.bv(p, n.a);
                        let b = self.bv(p, n.b);
                        match n.op {
                            Op::Eq => (self.a.Z3_mk_eq)(c, a, b),
                            Op::Ult => (self.a.Z3_mk_bvult)(c, a, b),
                            Op::Ule => (self.a.Z3_mk_bvule)(c, a, b),
                            Op::Slt => (self.a.Z3_mk_bvslt)(c, a, b),
                            _ => (self.a.Z3_mk_bvsle)(c, a, b),
                        }
                    }
                    _ => {
                        let a = self.bv(p, x);
                        let o = self.num(1, 1);
                        (self.a.Z3_mk_eq)(c, a, o)
                    }
                }
            };
            self.boo.insert(x, r);
        }
        self.boo[&e]
    }

    /// Is `pc /\ extra` satisfiable?  Only the part of `pc` sharing variables with `extra` is sent
    /// (the rest is satisfiable by the state's own model, which the caller maintains).
    pub fn check(&mut self, p: &mut Pool, pc: &[E], extra: E, base: &Model) -> Res { self.check2(p, pc, extra, base, true) }

    /// The values of `e`, whose only variable is the byte `v`, for each value of `v`.
    fn table(&mut self, p: &Pool, e: E, v: u32) -> std::rc::Rc<[u128]> {
        use std::rc::Rc;
        if self.tables.len() > 40_000 { self.tables.clear(); }
        let mut st = vec![(e, false)];
        enum V { K(u128), T(Rc<[u128]>) }
        impl V { #[inline] fn at(&self, i: usize) -> u128 { match self { V::K(k) => *k, V::T(t) => t[i] } } }
        if let Some(k) = p.cv(e) { return vec![k; 256].into(); }
        while let Some((x, done)) = st.pop() {
            let n = p.n[x as usize];
            if n.op == Op::Const || self.tables.contains_key(&x) { continue; }
            let w = n.w as u32;
            match n.op {
                Op::Var => { assert!(n.k as u32 == v); self.tables.insert(x, (0..256u128).collect::<Vec<_>>().into()); continue; }
                Op::App => unreachable!(),
                _ => {}
            }
            let kids: &[E] = match n.op { Op::Ite => &[n.a, n.b, n.c], Op::Extract | Op::ZExt | Op::SExt => &[n.a], _ => &[n.a, n.b] };
            if !done { st.push((x, true)); for k in kids { st.push((*k, false)); } continue; }
            let get = |y: E| match p.cv(y) { Some(k) => V::K(k), None => V::T(self.tables[&y].clone()) };
            let a = get(n.a);
            let b = if kids.len() > 1 { get(n.b) } else { V::K(0) };
            let c = if kids.len() > 2 { get(n.c) } else { V::K(0) };
            let aw = p.w(n.a);
            let bw = if kids.len() > 1 { p.w(n.b) } else { 0 };
            let r: Vec<u128> = (0..256).map(|i| match n.op {
                Op::Ite => if a.at(i) == 1 { b.at(i) } else { c.at(i) },
                Op::Extract => (a.at(i) >> n.k) & mask(w),
                Op::ZExt => a.at(i),
                Op::SExt => (sx(a.at(i), aw) as u128) & mask(w),
                Op::Concat => (a.at(i) << bw) | b.at(i),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => fold_cmp(n.op, aw, a.at(i), b.at(i)),
                op => fold(op, w, a.at(i), b.at(i)),
            }).collect();
            self.tables.insert(x, r.into());
        }
        self.tables[&e].clone()
    }
    /// Values of the only (byte) variable of `e` for which `e` holds.
    fn dom(&mut self, p: &Pool, e: E, v: u32) -> [u64; 4] {
        if let Some(d) = self.doms.get(&e) { return *d; }
        let mut d = [0u64; 4];
        let t = self.table(p, e, v);
        for k in 0..256usize { if t[k] == 1 { d[k >> 6] |= 1 << (k & 63); } }
        self.doms.insert(e, d);
        d
    }
    /// Fast exact/heuristic answers that need no Z3 call: byte-domain intersection (exact) and
    /// candidate assignments confirmed by evaluating every sliced constraint (exact when it says SAT).
    fn fast(&mut self, p: &mut Pool, q: &[E], base: &Model) -> Option<Res> {
        let extra = *q.last().unwrap();
        let ev = p.vars(extra);
        if ev.iter().any(|v| *v == 0x8000_0000) { return None; }
        let mut ds: HashMap<u32, [u64; 4]> = HashMap::default();
        let mut multi = false;
        for e in q {
            let vs = p.vars(*e);
            if vs.len() == 1 && vs[0] != 0x8000_0000 {
                let d = self.dom(p, *e, vs[0]);
                let x = ds.entry(vs[0]).or_insert([u64::MAX; 4]);
                for i in 0..4 { x[i] &= d[i]; }
            } else { multi = true; }
        }
        for d in ds.values() { if *d == [0; 4] { return Some(Res::Unsat); } }
        let pick = |d: &[u64; 4], skip: u32| -> u128 {
            let n: u32 = d.iter().map(|x| x.count_ones()).sum();
            let mut k = skip % n;
            for i in 0..256u32 { if d[(i >> 6) as usize] >> (i & 63) & 1 == 1 { if k == 0 { return i as u128; } k -= 1; } }
            unreachable!()
        };
        let full = [u64::MAX; 4];
        if !multi {
            let d = ds.get(&ev[0]).copied().unwrap_or(full);
            let mut m = Model::default();
            m.insert(ev[0], pick(&d, 0));
            return Some(Res::Sat(m));
        }
        // candidates
        let mut m = base.clone();
        let mut rng = (extra as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
        for t in 0..12u32 {
            for v in ev.iter() {
                let d = ds.get(v).copied().unwrap_or(full);
                rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
                let n: u32 = d.iter().map(|x| x.count_ones()).sum();
                let x = match t { 0 => pick(&d, 0), 1 => pick(&d, n - 1), _ => if rng & 3 == 0 { *base.get(v).unwrap_or(&0) } else { pick(&d, (rng >> 20) as u32) } };
                m.insert(*v, x);
            }
            let mut memo = HashMap::default();
            if q.iter().rev().all(|e| p.eval(*e, &m, &mut memo) == 1) {
                let mut o = Model::default();
                for v in ev.iter() { o.insert(*v, m[v]); }
                return Some(Res::Sat(o));
            }
        }
        None
    }
    pub fn check2(&mut self, p: &mut Pool, pc: &[E], extra: E, base: &Model, allow_fast: bool) -> Res {
        if let Some(k) = p.cv(extra) { if k == 0 { return Res::Unsat; } }
        // slice
        let mut need: std::collections::HashSet<u32> = p.vars(extra).iter().copied().collect();
        let vs: Vec<_> = pc.iter().map(|e| p.vars(*e)).collect();
        let mut inn = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !inn[i] && vs[i].iter().any(|v| need.contains(v)) {
                    inn[i] = true;
                    ch = true;
                    need.extend(vs[i].iter().copied());
                }
            }
            if !ch { break; }
        }
        let mut q: Vec<E> = (0..pc.len()).filter(|i| inn[*i]).map(|i| pc[i]).collect();
        q.sort_unstable();
        q.dedup();
        q.push(extra);
        if let Some(r) = self.cache.get(&q) {
            self.cached += 1;
            return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat };
        }
        let uf = need.contains(&0x8000_0000);
        if allow_fast {
            if let Some(r) = self.fast(p, &q, base) {
                self.fastq += 1;
                match &r { Res::Sat(_) => {} _ => { self.cache.insert(q, None); } }
                return r;
            }
        }
        let t0 = Instant::now();
        self.queries += 1;
        let res = unsafe {
            let s = if uf || self.simple { self.suf } else { self.s };
            (self.a.Z3_solver_push)(self.c, s);
            for e in &q {
                let b = self.boolean(p, *e);
                (self.a.Z3_solver_assert)(self.c, s, b);
            }
            let mut last_dump = None;
            if let Some(dir) = &self.dump {
                if (self.queries % 97 == 1 || self.queries < 12) && self.dumped < 40 {
                    let t = CStr::from_ptr((self.a.Z3_solver_to_string)(self.c, s)).to_string_lossy().to_string();
                    let logic = if uf { "QF_UFBV" } else { "QF_BV" };
                    let f = format!("{}/{}-{}.smt2", dir, std::process::id(), self.queries);
                    let _ = std::fs::write(&f, format!("(set-logic {})\n{}\n(check-sat)\n", logic, t));
                    last_dump = Some(f);
                    self.dumped += 1;
                }
            }
            let r = (self.a.Z3_solver_check)(self.c, s);
            if (self.a.Z3_get_error_code)(self.c) != 0 {
                eprintln!("z3 error code {}", (self.a.Z3_get_error_code)(self.c));
                std::process::exit(4);
            }
            if let Some(f) = last_dump {
                let _ = std::fs::write(f + ".ans", match r { 1 => "sat", -1 => "unsat", _ => "unknown" });
            }
            let out = match r {
                1 => {
                    let m = (self.a.Z3_solver_get_model)(self.c, s);
                    (self.a.Z3_model_inc_ref)(self.c, m);
                    let mut mo = Model::default();
                    for v in &need {
                        if *v == 0x8000_0000 { continue; }
                        let e = p.var_id(*v, p_var_width());
                        let a = self.bv(p, e);
                        if let Some(k) = self.meval(m, a) { mo.insert(*v, k); }
                    }
                    if uf {
                        for id in 0..p.apps.len() {
                            // all applications known so far; harmless if irrelevant
                            let keys: Vec<E> = self.ast.keys().copied().filter(|e| p.op(*e) == Op::App && p.k(*e) == id as u128).collect();
                            for e in keys { let a = self.ast[&e]; if let Some(k) = self.meval(m, a) { mo.insert(0x4000_0000 | id as u32, k); } }
                        }
                    }
                    (self.a.Z3_model_dec_ref)(self.c, m);
                    self.sat += 1;
                    Res::Sat(mo)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => { self.unknown += 1; Res::Unknown }
            };
            (self.a.Z3_solver_pop)(self.c, s, 1);
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        match &res {
            Res::Sat(m) => { self.cache.insert(q, Some(m.clone())); }
            Res::Unsat => { self.cache.insert(q, None); }
            _ => {}
        }
        res
    }
    unsafe fn meval(&self, m: P, a: P) -> Option<u128> {
        let mut out: P = std::ptr::null_mut();
        if (self.a.Z3_model_eval)(self.c, m, a, true, &mut out) {
            let s = CStr::from_ptr((self.a.Z3_get_numeral_string)(self.c, out));
            s.to_str().ok()?.parse::<u128>().ok().map(|v| v & mask(128))
        } else { None }
    }
}

fn p_var_width() -> u32 { 8 }
