//! Textual LLVM IR -> compact in-memory form.  Function bodies are parsed lazily.
use crate::fx::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, TyId),
    Vec(u64, TyId),
    Struct(Vec<TyId>, bool),
    Other,
}

#[derive(Clone, Debug)]
pub struct TyInfo {
    pub ty: Ty,
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

pub struct Types {
    pub v: Vec<TyInfo>,
    map: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
}

fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Types {
    pub fn new() -> Self {
        Types { v: vec![], map: HashMap::default(), named: HashMap::default() }
    }
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.map.get(&t) {
            return *i;
        }
        let (size, align, offs) = match &t {
            Ty::Void | Ty::Other => (0, 1, vec![]),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = match b {
                    0 | 1 => 1,
                    2 => 2,
                    3 | 4 => 4,
                    5..=8 => 8,
                    _ => 16,
                };
                (up(b, a), a, vec![])
            }
            Ty::Ptr => (8, 8, vec![]),
            Ty::F32 => (4, 4, vec![]),
            Ty::F64 => (8, 8, vec![]),
            Ty::Arr(n, e) => {
                let ei = &self.v[*e as usize];
                (ei.size * n, ei.align, vec![])
            }
            Ty::Vec(n, e) => {
                let ei = &self.v[*e as usize];
                let bits = match ei.ty {
                    Ty::Int(w) => w as u64 * n,
                    _ => ei.size * 8 * n,
                };
                let b = ((bits + 7) / 8).next_power_of_two();
                (b, b.min(64), vec![])
            }
            Ty::Struct(f, packed) => {
                let mut off = 0;
                let mut al = 1;
                let mut offs = vec![];
                for x in f {
                    let i = &self.v[*x as usize];
                    if !*packed {
                        off = up(off, i.align);
                        al = al.max(i.align);
                    }
                    offs.push(off);
                    off += i.size;
                }
                (up(off, al), al, offs)
            }
        };
        let id = self.v.len() as TyId;
        self.v.push(TyInfo { ty: t.clone(), size, align, offs });
        self.map.insert(t, id);
        id
    }
    pub fn int(&mut self, w: u32) -> TyId {
        self.get(Ty::Int(w))
    }
}

/// Runtime values (also used for constants).
#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    L(Rc<u128>),
    S(u32), // symbolic expression id
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // function index
    Indirect(Opnd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, TyId, u32, Opnd, Opnd),
    ICmp(Pred, TyId, u32, Opnd, Opnd),
    FCmp(String, TyId, u32, Opnd, Opnd),
    Select(u32, TyId, Opnd, Opnd, Opnd),
    Load(u32, TyId, Opnd),
    Store(TyId, Opnd, Opnd),
    Alloca(u32, u64, Option<(Opnd, TyId)>, u64),
    Gep(u32, Opnd, i64, Vec<(Opnd, u32, i64)>),
    Cast(CastOp, u32, TyId, TyId, Opnd),
    Call { d: Option<u32>, ret: TyId, callee: Callee, args: Vec<(TyId, Opnd)>, normal: Option<u32> },
    Extract(u32, Opnd, Vec<u32>),
    Insert(u32, TyId, Opnd, Opnd, Vec<u32>),
    ExtractElem(u32, Opnd, Opnd),
    InsertElem(u32, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Vec<i64>, u64),
    Copy(u32, Opnd),
    FNeg(u32, TyId, Opnd),
    Rmw(String, u32, TyId, Opnd, Opnd),
    CmpXchg(u32, TyId, Opnd, Opnd, Opnd),
    Ret(Option<(TyId, Opnd)>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(TyId, Opnd, u32, Vec<(u128, u32)>),
    Unreachable,
    Bad(String),
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub d: u32,
    pub ty: TyId,
    pub inc: Vec<(u32, Opnd)>,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
}

#[derive(Debug)]
pub struct Body {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    pub text: Option<(usize, usize)>, // byte range of the define in the source
    pub body: Option<Rc<Body>>,
    pub addr: u64,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub ty: TyId,
    pub constant: bool,
    pub init: Option<(usize, usize)>,
}

pub struct Module {
    pub src: String,
    pub types: Types,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

pub const FUNC_BASE: u64 = 0x0100_0000;
pub const GLOB_BASE: u64 = 0x1000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T<'a> {
    W(&'a str),      // bare word
    L(&'a str),      // %name
    G(&'a str),      // @name
    N(&'a str),      // number (incl 0x)
    S(&'a str),      // "string"
    C(&'a str),      // c"bytes"
    M(&'a str),      // !meta
    P(u8),           // punctuation
    End,
}

pub struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    p: usize,
    pub cur: T<'a>,
}

fn isname(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        let mut l = Lex { s, b: s.as_bytes(), p: 0, cur: T::End };
        l.next();
        l
    }
    fn quoted(&mut self) -> &'a str {
        // at opening quote
        let st = self.p + 1;
        let mut q = st;
        while self.b[q] != b'"' {
            q += 1;
        }
        self.p = q + 1;
        &self.s[st..q]
    }
    pub fn next(&mut self) -> T<'a> {
        let old = self.cur;
        loop {
            while self.p < self.b.len() && self.b[self.p].is_ascii_whitespace() {
                self.p += 1;
            }
            if self.p < self.b.len() && self.b[self.p] == b';' {
                while self.p < self.b.len() && self.b[self.p] != b'\n' {
                    self.p += 1;
                }
                continue;
            }
            break;
        }
        if self.p >= self.b.len() {
            self.cur = T::End;
            return old;
        }
        let c = self.b[self.p];
        self.cur = match c {
            b'%' | b'@' => {
                self.p += 1;
                let n = if self.b[self.p] == b'"' {
                    self.quoted()
                } else {
                    let st = self.p;
                    while self.p < self.b.len() && isname(self.b[self.p]) {
                        self.p += 1;
                    }
                    &self.s[st..self.p]
                };
                if c == b'%' { T::L(n) } else { T::G(n) }
            }
            b'"' => T::S(self.quoted()),
            b'c' if self.p + 1 < self.b.len() && self.b[self.p + 1] == b'"' => {
                self.p += 1;
                T::C(self.quoted())
            }
            b'!' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.b.len() && isname(self.b[self.p]) {
                    self.p += 1;
                }
                T::M(&self.s[st..self.p])
            }
            b'#' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.b.len() && isname(self.b[self.p]) {
                    self.p += 1;
                }
                T::W(&self.s[st..self.p])
            }
            b'0'..=b'9' | b'-' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.b.len() && (isname(self.b[self.p]) || self.b[self.p] == b'+') {
                    self.p += 1;
                }
                T::N(&self.s[st..self.p])
            }
            c if isname(c) => {
                let st = self.p;
                while self.p < self.b.len() && isname(self.b[self.p]) {
                    self.p += 1;
                }
                T::W(&self.s[st..self.p])
            }
            c => {
                self.p += 1;
                T::P(c)
            }
        };
        old
    }
    pub fn is(&self, c: u8) -> bool {
        self.cur == T::P(c)
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' got {:?} near ...{}", c as char, self.cur, self.near());
        }
    }
    pub fn near(&self) -> &'a str {
        let st = self.p.saturating_sub(80);
        let en = (self.p + 80).min(self.s.len());
        self.s.get(st..en).unwrap_or("")
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.cur == T::W(w) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn word(&mut self) -> &'a str {
        match self.next() {
            T::W(w) => w,
            o => panic!("expected word got {:?} near {}", o, self.near()),
        }
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::End => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

fn is_type_word(w: &str) -> bool {
    match w {
        "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "token" | "x86_fp80" | "fp128" => true,
        _ => w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()),
    }
}

pub fn parse_type(l: &mut Lex, ts: &mut Types) -> TyId {
    match l.next() {
        T::W(w) => match w {
            "ptr" => {
                if l.cur == T::W("addrspace") {
                    l.next();
                    l.skip_parens();
                }
                ts.get(Ty::Ptr)
            }
            "void" => ts.get(Ty::Void),
            "float" => ts.get(Ty::F32),
            "double" => ts.get(Ty::F64),
            _ if w.as_bytes()[0] == b'i' && is_type_word(w) => ts.get(Ty::Int(w[1..].parse().unwrap())),
            _ => ts.get(Ty::Other),
        },
        T::P(b'[') => {
            let n = match l.next() { T::N(n) => n.parse().unwrap(), o => panic!("arr {:?}", o) };
            assert!(l.eatw("x"));
            let e = parse_type(l, ts);
            l.expect(b']');
            ts.get(Ty::Arr(n, e))
        }
        T::P(b'{') => {
            let f = parse_fields(l, ts, b'}');
            ts.get(Ty::Struct(f, false))
        }
        T::P(b'<') => {
            if l.eat(b'{') {
                let f = parse_fields(l, ts, b'}');
                l.expect(b'>');
                ts.get(Ty::Struct(f, true))
            } else {
                let n = match l.next() { T::N(n) => n.parse().unwrap(), o => panic!("vec {:?}", o) };
                assert!(l.eatw("x"));
                let e = parse_type(l, ts);
                l.expect(b'>');
                ts.get(Ty::Vec(n, e))
            }
        }
        T::L(n) => *ts.named.get(n).unwrap_or_else(|| panic!("unknown type %{}", n)),
        o => panic!("type? {:?} near {}", o, l.near()),
    }
}

fn parse_fields(l: &mut Lex, ts: &mut Types, close: u8) -> Vec<TyId> {
    let mut f = vec![];
    if l.eat(close) {
        return f;
    }
    loop {
        f.push(parse_type(l, ts));
        if l.eat(close) {
            return f;
        }
        l.expect(b',');
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

fn parse_int(s: &str, w: u32) -> u128 {
    let v = if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().expect(s)).wrapping_neg()
    } else {
        s.parse::<u128>().unwrap_or_else(|_| panic!("int {}", s))
    };
    v & mask(w)
}

pub fn mkint(v: u128, w: u32) -> Val {
    if w <= 64 { Val::I((v & mask(w)) as u64) } else { Val::L(Rc::new(v & mask(w))) }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

struct FnCtx<'a> {
    regs: HashMap<&'a str, u32>,
}

impl<'a> FnCtx<'a> {
    fn reg(&mut self, n: &'a str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
}

impl Module {
    pub fn load(src: String) -> Module {
        let mut m = Module {
            src: String::new(),
            types: Types::new(),
            funcs: vec![],
            fidx: HashMap::default(),
            globals: vec![],
            gidx: HashMap::default(),
            aliases: HashMap::default(),
        };
        // pass 1: scan lines
        let bytes = src.as_bytes();
        let mut pos = 0;
        let mut named_defs: Vec<(usize, usize)> = vec![];
        let mut glines: Vec<(usize, usize)> = vec![];
        while pos < bytes.len() {
            let e = memchr(bytes, pos, b'\n');
            let c = bytes[pos];
            if c == b'%' {
                named_defs.push((pos, e));
            } else if c == b'@' {
                glines.push((pos, e));
            } else if src[pos..e].starts_with("define ") {
                // find closing "\n}"
                let mut q = e;
                loop {
                    q = memchr(bytes, q + 1, b'\n');
                    if q >= bytes.len() || bytes[q - 1] == b'}' && bytes[q - 2] == b'\n' {
                        break;
                    }
                }
                let name = fname(&src[pos..e]);
                m.add_func(name, Some((pos, q)));
                pos = q + 1;
                continue;
            } else if src[pos..e].starts_with("declare ") {
                let name = fname(&src[pos..e]);
                m.add_func(name, None);
            }
            pos = e + 1;
        }
        // named types (in order; retry for forward refs)
        let mut pend = named_defs;
        let mut guard = 0;
        let hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| {}));
        while !pend.is_empty() && guard < 50 {
            guard += 1;
            let mut next = vec![];
            for (a, b) in pend {
                let txt = &src[a..b];
                let mut l = Lex::new(txt);
                let n = match l.next() { T::L(n) => n.to_string(), _ => continue };
                l.expect(b'=');
                l.eatw("type");
                if l.cur == T::W("opaque") {
                    let t = m.types.get(Ty::Other);
                    m.types.named.insert(n, t);
                    continue;
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_type(&mut l, &mut m.types)));
                match r {
                    Ok(t) => { m.types.named.insert(n, t); }
                    Err(_) => next.push((a, b)),
                }
            }
            pend = next;
        }
        std::panic::set_hook(hook);
        // globals
        let mut addr = GLOB_BASE;
        for (a, b) in glines {
            let txt = &src[a..b];
            let mut l = Lex::new(txt);
            let name = match l.next() { T::G(n) => n.to_string(), _ => continue };
            l.expect(b'=');
            let mut ext = false;
            let mut kind = "";
            loop {
                match l.next() {
                    T::W("global") => { kind = "global"; break; }
                    T::W("constant") => { kind = "constant"; break; }
                    T::W("alias") | T::W("ifunc") => { kind = "alias"; break; }
                    T::W("external") | T::W("extern_weak") => ext = true,
                    T::W("thread_local") | T::W("addrspace") => { if l.is(b'(') { l.skip_parens(); } }
                    T::End => break,
                    _ => {}
                }
            }
            if kind == "alias" {
                if let Some(p) = txt.rfind('@') {
                    if p > 0 {
                        let mut l2 = Lex::new(&txt[p..]);
                        if let T::G(n) = l2.next() { m.aliases.insert(name, n.to_string()); }
                    }
                }
                continue;
            }
            if kind.is_empty() { continue; }
            let ty = parse_type(&mut l, &mut m.types);
            let size = m.types.v[ty as usize].size;
            let mut align = m.types.v[ty as usize].align.max(16);
            if let Some(p) = txt.rfind(", align ") {
                let t = &txt[p + 8..];
                let n: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
                align = align.max(n.parse().unwrap_or(16));
            }
            addr = up(addr, align);
            let init = if ext { None } else {
                // position of the current token: recompute from l.p is after it; store the text start after type
                Some((a + l.tok_start(), b))
            };
            let i = m.globals.len() as u32;
            m.gidx.insert(name.clone(), i);
            m.globals.push(Global { name, addr, ty, constant: kind == "constant", init });
            addr += size.max(1) + 16;
        }
        m.src = src;
        m
    }
    fn add_func(&mut self, name: String, text: Option<(usize, usize)>) {
        if let Some(k) = self.fidx.get(&name) {
            if text.is_some() { self.funcs[*k as usize].text = text; }
            return;
        }
        let i = self.funcs.len() as u32;
        self.fidx.insert(name.clone(), i);
        self.funcs.push(Func { name, text, body: None, addr: FUNC_BASE + 16 * (i as u64 + 1) });
    }
    pub fn func_at(&self, a: u64) -> Option<u32> {
        if a > FUNC_BASE && a < GLOB_BASE && (a - FUNC_BASE) % 16 == 0 {
            let i = (a - FUNC_BASE) / 16 - 1;
            if (i as usize) < self.funcs.len() { return Some(i as u32); }
        }
        None
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(i) = self.gidx.get(n) { return self.globals[*i as usize].addr; }
        if let Some(i) = self.fidx.get(n) { return self.funcs[*i as usize].addr; }
        if let Some(a) = self.aliases.get(n) { return self.sym_addr(a); }
        panic!("unknown symbol @{}", n)
    }
    pub fn global_bytes(&mut self, gi: usize) -> Vec<u8> {
        let g = &self.globals[gi];
        let ty = g.ty;
        let size = self.types.v[ty as usize].size as usize;
        let mut out = vec![0u8; size];
        if let Some((a, b)) = g.init {
            let src = std::mem::take(&mut self.src);
            {
                let mut l = Lex::new(&src[a..b]);
                let mut cx = FnCtx { regs: HashMap::default() };
                match self.value(&mut l, ty, &mut cx) {
                    Opnd::K(v) => self.ser(&v, ty, &mut out, 0),
                    _ => panic!(),
                }
            }
            self.src = src;
        }
        out
    }
    fn ser(&self, v: &Val, ty: TyId, out: &mut [u8], off: usize) {
        let ti = &self.types.v[ty as usize];
        match (&ti.ty, v) {
            (Ty::Arr(n, e), Val::A(xs)) | (Ty::Vec(n, e), Val::A(xs)) => {
                let es = self.types.v[*e as usize].size as usize;
                for i in 0..*n as usize { self.ser(&xs[i], *e, out, off + i * es); }
            }
            (Ty::Struct(f, _), Val::A(xs)) => {
                for i in 0..f.len() { self.ser(&xs[i], f[i], out, off + ti.offs[i] as usize); }
            }
            (_, Val::I(x)) => {
                let n = (ti.size as usize).min(8);
                out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            (_, Val::L(x)) => {
                let n = (ti.size as usize).min(16);
                out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            _ => panic!("ser {:?}", ti.ty),
        }
    }
    pub fn zero(&self, ty: TyId) -> Val {
        let ti = &self.types.v[ty as usize];
        match &ti.ty {
            Ty::Int(w) if *w > 64 => Val::L(Rc::new(0)),
            Ty::Arr(n, e) | Ty::Vec(n, e) => { let z = self.zero(*e); Val::A(Rc::new(vec![z; *n as usize])) }
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| self.zero(*t)).collect())),
            _ => Val::I(0),
        }
    }
    fn scalar_k(&self, o: Opnd) -> u64 {
        match o { Opnd::K(Val::I(x)) => x, Opnd::K(Val::L(x)) => *x as u64, o => panic!("const expr operand {:?}", o) }
    }
    fn value<'a>(&mut self, l: &mut Lex<'a>, ty: TyId, cx: &mut FnCtx<'a>) -> Opnd {
        let t = l.next();
        let k = |v| Opnd::K(v);
        match t {
            T::L(n) => Opnd::R(cx.reg(n)),
            T::G(n) => k(Val::I(self.sym_addr(n))),
            T::N(s) => match self.types.v[ty as usize].ty.clone() {
                Ty::Int(w) => k(mkint(parse_int(s, w), w)),
                Ty::F64 => k(Val::I(parse_float(s).to_bits())),
                Ty::F32 => k(Val::I((parse_float(s) as f32).to_bits() as u64)),
                o => panic!("number for {:?}", o),
            },
            T::C(s) => {
                let b = unescape(s);
                k(Val::A(Rc::new(b.into_iter().map(|x| Val::I(x as u64)).collect())))
            }
            T::M(_) => { // metadata operand
                if l.is(b'{') || l.is(b'(') { /* inline metadata */ let open = if l.is(b'{') {b'{'} else {b'('}; let close = if open==b'{' {b'}'} else {b')'};
                    let mut d=0; loop { let t=l.next(); if t==T::P(open){d+=1;} if t==T::P(close){d-=1; if d==0 {break;}} } }
                k(Val::I(0))
            }
            T::P(b'{') => {
                let v = self.agg(l, cx, b'}');
                k(v)
            }
            T::P(b'[') => k(self.agg(l, cx, b']')),
            T::P(b'<') => {
                if l.eat(b'{') {
                    let v = self.agg(l, cx, b'}');
                    l.expect(b'>');
                    k(v)
                } else {
                    k(self.agg(l, cx, b'>'))
                }
            }
            T::W(w) => match w {
                "null" | "none" => k(Val::I(0)),
                "true" => k(Val::I(1)),
                "false" => k(Val::I(0)),
                "undef" | "poison" | "zeroinitializer" => k(self.zero(ty)),
                "splat" => {
                    l.expect(b'(');
                    let et = parse_type(l, &mut self.types);
                    let v = self.value(l, et, cx);
                    l.expect(b')');
                    let n = match self.types.v[ty as usize].ty { Ty::Vec(n, _) => n, _ => panic!("splat") };
                    match v { Opnd::K(v) => k(Val::A(Rc::new(vec![v; n as usize]))), _ => panic!() }
                }
                "getelementptr" => {
                    while let T::W(x) = l.cur {
                        if is_type_word(x) { break; }
                        l.next();
                        if l.is(b'(') && x == "inrange" { l.skip_parens(); }
                    }
                    l.expect(b'(');
                    let st = parse_type(l, &mut self.types);
                    l.expect(b',');
                    let pt = parse_type(l, &mut self.types);
                    let base = self.value(l, pt, cx);
                    let base = self.scalar_k(base);
                    let mut idx = vec![];
                    while l.eat(b',') {
                        let it = parse_type(l, &mut self.types);
                        let w = self.width(it);
                        let v = self.value(l, it, cx);
                        idx.push((v, w));
                    }
                    l.expect(b')');
                    let (off, dynidx) = self.gep(st, idx);
                    assert!(dynidx.is_empty());
                    k(Val::I(base.wrapping_add(off as u64)))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    l.expect(b'(');
                    let ft = parse_type(l, &mut self.types);
                    let v = self.value(l, ft, cx);
                    let v = self.scalar_k(v);
                    assert!(l.eatw("to"));
                    let tt = parse_type(l, &mut self.types);
                    l.expect(b')');
                    let w = self.width(tt);
                    k(mkint(v as u128, w))
                }
                "sub" | "add" | "xor" | "mul" | "and" | "or" | "shl" => {
                    while let T::W(x) = l.cur { if is_type_word(x) { break; } l.next(); }
                    l.expect(b'(');
                    let t1 = parse_type(l, &mut self.types);
                    let a = self.value(l, t1, cx);
                    l.expect(b',');
                    let t2 = parse_type(l, &mut self.types);
                    let b = self.value(l, t2, cx);
                    l.expect(b')');
                    let (a, b) = (self.scalar_k(a), self.scalar_k(b));
                    let wd = self.width(t1);
                    let r = match w {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        "shl" => a << b,
                        _ => a.wrapping_mul(b),
                    };
                    k(mkint(r as u128, wd))
                }
                _ => panic!("value word {} near {}", w, l.near()),
            },
            T::P(b'+') => {
                let x = if l.word().starts_with("inf") { f64::INFINITY } else { f64::NAN };
                k(Val::I(if matches!(self.types.v[ty as usize].ty, Ty::F32) { (x as f32).to_bits() as u64 } else { x.to_bits() }))
            }
            o => panic!("value {:?} near {}", o, l.near()),
        }
    }
    fn agg<'a>(&mut self, l: &mut Lex<'a>, cx: &mut FnCtx<'a>, close: u8) -> Val {
        let mut v = vec![];
        if l.eat(close) { return Val::A(Rc::new(v)); }
        loop {
            let t = parse_type(l, &mut self.types);
            match self.value(l, t, cx) { Opnd::K(x) => v.push(x), _ => panic!("non-const agg") }
            if l.eat(close) { return Val::A(Rc::new(v)); }
            l.expect(b',');
        }
    }
    pub fn width(&self, t: TyId) -> u32 {
        match self.types.v[t as usize].ty {
            Ty::Int(w) => w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    fn gep(&mut self, st: TyId, idx: Vec<(Opnd, u32)>) -> (i64, Vec<(Opnd, u32, i64)>) {
        let mut off: i64 = 0;
        let mut dy = vec![];
        let mut cur = st;
        for (n, (v, w)) in idx.into_iter().enumerate() {
            if n > 0 {
                match self.types.v[cur as usize].ty.clone() {
                    Ty::Struct(f, _) => {
                        let i = match &v { Opnd::K(Val::I(i)) => *i as usize, _ => panic!("struct gep") };
                        off += self.types.v[cur as usize].offs[i] as i64;
                        cur = f[i];
                        continue;
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => cur = e,
                    o => panic!("gep into {:?}", o),
                }
            }
            let sc = self.types.v[cur as usize].size as i64;
            match v {
                Opnd::K(Val::I(i)) => {
                    let si = if w < 64 { ((i << (64 - w)) as i64) >> (64 - w) } else { i as i64 };
                    off = off.wrapping_add(si.wrapping_mul(sc));
                }
                o => dy.push((o, w, sc)),
            }
        }
        (off, dy)
    }

    pub fn body(&mut self, fi: u32) -> Option<Rc<Body>> {
        if let Some(b) = &self.funcs[fi as usize].body { return Some(b.clone()); }
        let (a, b) = self.funcs[fi as usize].text?;
        let src = std::mem::take(&mut self.src);
        let body = Rc::new(self.parse_body(&src[a..b]));
        self.src = src;
        self.funcs[fi as usize].body = Some(body.clone());
        Some(body)
    }

    fn parse_body<'a>(&mut self, txt: &'a str) -> Body {
        let mut cx = FnCtx { regs: HashMap::default() };
        let mut lines = txt.lines();
        let head = lines.next().unwrap();
        let mut params = vec![];
        let mut unnamed = 0usize;
        {
            // find '(' after @name
            let at = head.find('@').unwrap();
            let mut l = Lex::new(&head[at..]);
            l.next();
            l.expect(b'(');
            if !l.is(b')') {
                loop {
                    if l.is(b'.') || l.cur == T::W("...") { l.next(); break; }
                    let _t = parse_type(&mut l, &mut self.types);
                    self.skip_attrs(&mut l);
                    match l.cur {
                        T::L(n) => {
                            if n.parse::<usize>().is_ok() { unnamed += 1; }
                            let r = cx.reg(n);
                            params.push(r);
                            l.next();
                        }
                        _ => panic!("param {:?}", l.cur),
                    }
                    if !l.eat(b',') { break; }
                }
            }
        }
        // gather logical lines per block
        let mut blocks: Vec<(&'a str, Vec<String>)> = vec![];
        let mut bidx: HashMap<&'a str, u32> = HashMap::default();
        let mut pending: Option<String> = None;
        for raw in lines {
            let line = raw;
            if line == "}" { break; }
            let tr = line.trim_start();
            if tr.is_empty() || tr.starts_with(';') { continue; }
            if !line.starts_with(' ') {
                // label
                let lab = if line.starts_with('"') {
                    let e = line[1..].find('"').unwrap() + 1;
                    &line[1..e]
                } else {
                    let e = line.find(':').unwrap();
                    &line[..e]
                };
                bidx.insert(lab, blocks.len() as u32);
                blocks.push((lab, vec![]));
                continue;
            }
            if blocks.is_empty() {
                bidx.insert("", 0);
                blocks.push(("", vec![]));
            }
            let cont = tr.starts_with("to label ") || tr.starts_with("cleanup") || tr.starts_with("catch ") || tr.starts_with("filter ");
            if let Some(p) = pending.take() {
                let j = p + " " + tr;
                if tr.starts_with(']') {
                    blocks.last_mut().unwrap().1.push(j);
                } else {
                    pending = Some(j);
                }
                continue;
            }
            if cont {
                let last = blocks.last_mut().unwrap().1.last_mut().unwrap();
                last.push(' ');
                last.push_str(tr);
                continue;
            }
            if tr.starts_with("switch ") && tr.trim_end().ends_with('[') {
                pending = Some(tr.to_string());
                continue;
            }
            blocks.last_mut().unwrap().1.push(tr.to_string());
        }
        // implicit entry label number
        let entry_name = unnamed.to_string();
        let lookup = |n: &str| -> u32 {
            if let Some(i) = bidx.get(n) { return *i; }
            if n == entry_name { return 0; }
            panic!("label %{}", n)
        };
        let mut out = vec![];
        let mut names: HashMap<String, u32> = cx.regs.iter().map(|(k, v)| (k.to_string(), *v)).collect();
        for (_, ls) in &blocks {
            let mut phis = vec![];
            let mut ins = vec![];
            for s in ls {
                // per-line FnCtx must map names globally
                let mut c2 = FnCtx { regs: HashMap::default() };
                self.parse_inst(s, &mut c2, &mut names, &lookup, &mut phis, &mut ins);
            }
            out.push(Block { phis, ins });
        }
        Body { nregs: names.len() as u32, params, blocks: out }
    }

    fn skip_attrs(&mut self, l: &mut Lex) {
        loop {
            match l.cur {
                T::W(w) => {
                    match w {
                        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "ptrtoint"
                        | "inttoptr" | "splat" | "none" | "trunc" | "sub" | "add" | "xor" | "blockaddress" | "asm" | "bitcast" => return,
                        _ => {}
                    }
                    l.next();
                    if w == "align" {
                        if let T::N(_) = l.cur { l.next(); continue; }
                    }
                    if l.is(b'(') { l.skip_parens(); }
                }
                T::S(_) => {
                    l.next();
                    if l.eat(b'=') { l.next(); }
                }
                _ => return,
            }
        }
    }

    fn parse_inst(
        &mut self,
        s: &str,
        _c: &mut FnCtx,
        names: &mut HashMap<String, u32>,
        lookup: &dyn Fn(&str) -> u32,
        phis: &mut Vec<Phi>,
        ins: &mut Vec<I>,
    ) {
        let mut l = Lex::new(s);
        let l = &mut l;
        let mut d: Option<u32> = None;
        if let T::L(n) = l.cur {
            let k = names.len() as u32;
            d = Some(*names.entry(n.to_string()).or_insert(k));
            l.next();
            l.expect(b'=');
        }
        let dd = d.unwrap_or(u32::MAX);
        let op = l.word();
        macro_rules! val {
            ($ty:expr) => {{
                if let T::L(n) = l.cur {
                    let k = names.len() as u32;
                    let r = *names.entry(n.to_string()).or_insert(k);
                    l.next();
                    Opnd::R(r)
                } else {
                    let mut cx = FnCtx { regs: HashMap::default() };
                    self.value(l, $ty, &mut cx)
                }
            }};
        }
        macro_rules! ty { () => { parse_type(l, &mut self.types) }; }
        macro_rules! flags { () => { while let T::W(x) = l.cur { if is_type_word(x) { break; } l.next(); if l.is(b'(') { l.skip_parens(); } } }; }
        macro_rules! label { () => {{ l.eatw("label"); match l.next() { T::L(n) => lookup(n), o => panic!("label {:?}", o) } }}; }
        let bin = match op {
            "add" => Some(BinOp::Add), "sub" => Some(BinOp::Sub), "mul" => Some(BinOp::Mul), "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv), "urem" => Some(BinOp::URem), "srem" => Some(BinOp::SRem), "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or), "xor" => Some(BinOp::Xor), "shl" => Some(BinOp::Shl), "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr), "fadd" => Some(BinOp::FAdd), "fsub" => Some(BinOp::FSub), "fmul" => Some(BinOp::FMul), "fdiv" => Some(BinOp::FDiv),
            _ => None,
        };
        if let Some(b) = bin {
            flags!();
            let t = ty!();
            let a = val!(t);
            l.expect(b',');
            let c = val!(t);
            ins.push(I::Bin(b, t, dd, a, c));
            return;
        }
        let cast = match op {
            "trunc" => Some(CastOp::Trunc), "zext" => Some(CastOp::ZExt), "sext" => Some(CastOp::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt), "inttoptr" => Some(CastOp::IntToPtr), "bitcast" => Some(CastOp::Bitcast),
            "uitofp" => Some(CastOp::UiToFp), "sitofp" => Some(CastOp::SiToFp), "fptoui" => Some(CastOp::FpToUi), "fptosi" => Some(CastOp::FpToSi),
            "fpext" => Some(CastOp::FpExt), "fptrunc" => Some(CastOp::FpTrunc),
            _ => None,
        };
        if let Some(c) = cast {
            flags!();
            let t = ty!();
            let v = val!(t);
            assert!(l.eatw("to"));
            let t2 = ty!();
            ins.push(I::Cast(c, dd, t, t2, v));
            return;
        }
        match op {
            "icmp" => {
                let mut p = l.word();
                if p == "samesign" { p = l.word(); }
                let p = match p {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle,
                    _ => panic!("pred {}", p),
                };
                let t = ty!();
                let a = val!(t);
                l.expect(b',');
                let b = val!(t);
                ins.push(I::ICmp(p, t, dd, a, b));
            }
            "fcmp" => {
                let mut p = l.word().to_string();
                while let T::W(x) = l.cur { if is_type_word(x) { break; } p = x.to_string(); l.next(); }
                let t = ty!();
                let a = val!(t);
                l.expect(b',');
                let b = val!(t);
                ins.push(I::FCmp(p, t, dd, a, b));
            }
            "fneg" => { flags!(); let t = ty!(); let a = val!(t); ins.push(I::FNeg(dd, t, a)); }
            "freeze" => { let t = ty!(); let a = val!(t); ins.push(I::Copy(dd, a)); }
            "select" => {
                flags!();
                let ct = ty!();
                let c = val!(ct);
                l.expect(b',');
                let t = ty!();
                let a = val!(t);
                l.expect(b',');
                let t2 = ty!();
                let b = val!(t2);
                ins.push(I::Select(dd, t, c, a, b));
            }
            "load" => {
                while let T::W(x) = l.cur { if x == "atomic" || x == "volatile" { l.next(); } else { break; } }
                let t = ty!();
                l.expect(b',');
                let pt = ty!();
                let p = val!(pt);
                ins.push(I::Load(dd, t, p));
            }
            "store" => {
                while let T::W(x) = l.cur { if x == "atomic" || x == "volatile" { l.next(); } else { break; } }
                let t = ty!();
                let v = val!(t);
                l.expect(b',');
                let pt = ty!();
                let p = val!(pt);
                ins.push(I::Store(t, v, p));
            }
            "alloca" => {
                l.eatw("inalloca");
                let t = ty!();
                let ti = self.types.v[t as usize].clone();
                let mut n = None;
                let mut al = ti.align;
                while l.eat(b',') {
                    if l.eatw("align") {
                        if let T::N(x) = l.next() { al = x.parse().unwrap(); }
                    } else if let T::M(_) = l.cur { break; } else {
                        let ct = ty!();
                        let v = val!(ct);
                        n = Some((v, ct));
                    }
                }
                ins.push(I::Alloca(dd, ti.size, n, al));
            }
            "getelementptr" => {
                flags!();
                let st = ty!();
                l.expect(b',');
                let pt = ty!();
                let base = val!(pt);
                let mut idx = vec![];
                while l.eat(b',') {
                    if let T::M(_) = l.cur { break; }
                    let it = ty!();
                    let w = self.width(it);
                    let v = val!(it);
                    idx.push((v, w));
                }
                let (off, dy) = self.gep(st, idx);
                ins.push(I::Gep(dd, base, off, dy));
            }
            "phi" => {
                flags!();
                let t = ty!();
                let mut inc = vec![];
                loop {
                    l.expect(b'[');
                    let v = val!(t);
                    l.expect(b',');
                    let b = match l.next() { T::L(n) => lookup(n), o => panic!("phi {:?}", o) };
                    l.expect(b']');
                    inc.push((b, v));
                    if !l.eat(b',') { break; }
                    if let T::M(_) = l.cur { break; }
                }
                phis.push(Phi { d: dd, ty: t, inc });
            }
            "br" => {
                if l.cur == T::W("label") {
                    let b = label!();
                    ins.push(I::Br(b));
                } else {
                    let t = ty!();
                    let c = val!(t);
                    l.expect(b',');
                    let a = label!();
                    l.expect(b',');
                    let b = label!();
                    ins.push(I::CondBr(c, a, b));
                }
            }
            "switch" => {
                let t = ty!();
                let w = self.width(t);
                let v = val!(t);
                l.expect(b',');
                let def = label!();
                l.expect(b'[');
                let mut cs = vec![];
                while !l.eat(b']') {
                    let _ = ty!();
                    let c = match l.next() { T::N(s) => parse_int(s, w), T::W("true") => 1, T::W("false") => 0, o => panic!("case {:?}", o) };
                    l.expect(b',');
                    let b = label!();
                    cs.push((c, b));
                }
                ins.push(I::Switch(t, v, def, cs));
            }
            "ret" => {
                let t = ty!();
                if self.types.v[t as usize].ty == Ty::Void { ins.push(I::Ret(None)); } else {
                    let v = val!(t);
                    ins.push(I::Ret(Some((t, v))));
                }
            }
            "unreachable" => ins.push(I::Unreachable),
            "resume" => ins.push(I::Bad("resume".into())),
            "landingpad" => ins.push(I::Bad("landingpad".into())),
            "fence" => {}
            "extractvalue" => {
                let t = ty!();
                let v = val!(t);
                let mut ix = vec![];
                while l.eat(b',') { match l.next() { T::N(n) => ix.push(n.parse().unwrap()), _ => break } }
                ins.push(I::Extract(dd, v, ix));
            }
            "insertvalue" => {
                let t = ty!();
                let v = val!(t);
                l.expect(b',');
                let t2 = ty!();
                let e = val!(t2);
                let mut ix = vec![];
                while l.eat(b',') { match l.next() { T::N(n) => ix.push(n.parse().unwrap()), _ => break } }
                ins.push(I::Insert(dd, t, v, e, ix));
            }
            "extractelement" => {
                let t = ty!();
                let v = val!(t);
                l.expect(b',');
                let t2 = ty!();
                let i = val!(t2);
                ins.push(I::ExtractElem(dd, v, i));
            }
            "insertelement" => {
                let t = ty!();
                let v = val!(t);
                l.expect(b',');
                let t2 = ty!();
                let e = val!(t2);
                l.expect(b',');
                let t3 = ty!();
                let i = val!(t3);
                ins.push(I::InsertElem(dd, v, e, i));
            }
            "shufflevector" => {
                let t = ty!();
                let n = match self.types.v[t as usize].ty { Ty::Vec(n, _) => n, _ => panic!() };
                let a = val!(t);
                l.expect(b',');
                let t2 = ty!();
                let b = val!(t2);
                l.expect(b',');
                let t3 = ty!();
                let m = val!(t3);
                let mk = match m { Opnd::K(Val::A(v)) => v.iter().map(|x| match x { Val::I(i) => *i as i64, _ => 0 }).collect(), _ => panic!() };
                ins.push(I::Shuffle(dd, a, b, mk, n));
            }
            "atomicrmw" => {
                l.eatw("volatile");
                let o = l.word().to_string();
                let pt = ty!();
                let p = val!(pt);
                l.expect(b',');
                let t = ty!();
                let v = val!(t);
                ins.push(I::Rmw(o, dd, t, p, v));
            }
            "cmpxchg" => {
                while let T::W(x) = l.cur { if is_type_word(x) { break; } l.next(); }
                let pt = ty!();
                let p = val!(pt);
                l.expect(b',');
                let t = ty!();
                let c = val!(t);
                l.expect(b',');
                let _ = ty!();
                let n = val!(t);
                ins.push(I::CmpXchg(dd, t, p, c, n));
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                let mut invoke = op == "invoke";
                if op != "call" && !invoke { let w = l.word(); assert!(w == "call"); invoke = false; }
                // flags, cconv, ret attrs
                loop {
                    match l.cur {
                        T::W(x) if is_type_word(x) => break,
                        T::W(x) => {
                            l.next();
                            if x == "align" || x == "cc" { if let T::N(_) = l.cur { l.next(); } }
                            if l.is(b'(') { l.skip_parens(); }
                        }
                        T::S(_) => { l.next(); if l.eat(b'=') { l.next(); } }
                        _ => break,
                    }
                }
                let ret = ty!();
                if l.is(b'(') { l.skip_parens(); }
                let callee = match l.cur {
                    T::G(n) => {
                        l.next();
                        let n2 = self.aliases.get(n).cloned().unwrap_or_else(|| n.to_string());
                        let fi = *self.fidx.get(&n2).unwrap_or_else(|| panic!("callee {}", n2));
                        Callee::Direct(fi)
                    }
                    T::W("asm") => {
                        l.next();
                        let mut txt = String::new();
                        loop {
                            match l.next() {
                                T::S(x) => { txt.push_str(x); txt.push('|'); }
                                T::P(b',') | T::W(_) => {}
                                o => panic!("asm {:?}", o),
                            }
                            if l.is(b'(') { break; }
                        }
                        Callee::Asm(txt)
                    }
                    _ => { let pt = self.types.get(Ty::Ptr); Callee::Indirect(val!(pt)) }
                };
                l.expect(b'(');
                let mut args = vec![];
                if !l.eat(b')') {
                    loop {
                        let t = ty!();
                        if self.types.v[t as usize].ty == Ty::Other {
                            // metadata etc: skip to , or ) at depth 0
                            let mut dep = 0;
                            loop {
                                if dep == 0 && (l.is(b',') || l.is(b')')) { break; }
                                match l.next() { T::P(b'(') | T::P(b'{') => dep += 1, T::P(b')') | T::P(b'}') => dep -= 1, T::End => panic!("meta arg"), _ => {} }
                            }
                            args.push((t, Opnd::K(Val::I(0))));
                        } else {
                            self.skip_attrs(l);
                            let v = val!(t);
                            args.push((t, v));
                        }
                        if l.eat(b')') { break; }
                        l.expect(b',');
                    }
                }
                let mut normal = None;
                if invoke {
                    loop {
                        match l.cur {
                            T::W("to") => { l.next(); normal = Some(label!()); break; }
                            T::End => panic!("invoke"),
                            _ => { l.next(); }
                        }
                    }
                }
                if let Callee::Direct(fi) = &callee {
                    let n = &self.funcs[*fi as usize].name;
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n == "llvm.assume" || n == "llvm.donothing" || n.starts_with("llvm.var.annotation") || n.starts_with("llvm.invariant") {
                        return;
                    }
                }
                let isv = self.types.v[ret as usize].ty == Ty::Void;
                ins.push(I::Call { d: if isv { None } else { d }, ret, callee, args, normal });
            }
            _ => ins.push(I::Bad(format!("unsupported instruction {}", s))),
        }
    }
}

impl<'a> Lex<'a> {
    /// Byte offset (in the lexed text) of the current token; valid right after next().
    fn tok_start(&self) -> usize {
        // current token ends at self.p; step back over its text
        let len = match self.cur {
            T::W(w) | T::N(w) | T::M(w) => w.len(),
            T::L(w) | T::G(w) => {
                let q = self.b[self.p - 1] == b'"';
                w.len() + 1 + if q { 2 } else { 0 }
            }
            T::S(w) => w.len() + 2,
            T::C(w) => w.len() + 3,
            T::P(_) => 1,
            T::End => 0,
        };
        self.p - len
    }
}

fn parse_float(s: &str) -> f64 {
    if let Some(h) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else {
        s.parse().unwrap()
    }
}

fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    if from >= b.len() { return b.len(); }
    match b[from..].iter().position(|x| *x == c) { Some(i) => from + i, None => b.len() }
}

fn fname(line: &str) -> String {
    let at = line.find('@').unwrap();
    let mut l = Lex::new(&line[at..]);
    match l.next() { T::G(n) => n.to_string(), _ => panic!() }
}
