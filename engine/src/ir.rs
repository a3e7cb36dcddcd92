//! Textual LLVM IR (as printed by rustc / clang) -> compact decoded functions.
//! Function bodies are decoded lazily, on first call.
use crate::expr::mask;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Func,
    Label,
    Meta,
    Opaque,
}

pub fn round_up(x: u64, a: u64) -> u64 {
    x.div_ceil(a) * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.bits()).div_ceil(8).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => self.size() * 8,
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => round_up((*w as u64).div_ceil(8), self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => round_up((n * t.bits()).div_ceil(8), self.align()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = round_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    round_up(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        o = round_up(o, t.align());
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.bits() / 8 * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    /// number of scalar slots
    pub fn ns(&self) -> usize {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Func | Ty::Opaque => 0,
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.ns(),
            Ty::Struct(f, _) => f.iter().map(|t| t.ns()).sum(),
        }
    }
    pub fn flatten(&self, base: u64, out: &mut Vec<(u64, u16)>) {
        match self {
            Ty::Int(w) => out.push((base, *w)),
            Ty::Ptr | Ty::F64 => out.push((base, 64)),
            Ty::F32 => out.push((base, 32)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let s = if matches!(self, Ty::Vec(..)) {
                    t.bits() / 8
                } else {
                    t.size()
                };
                for i in 0..*n {
                    t.flatten(base + i * s, out)
                }
            }
            Ty::Struct(f, _) => {
                for (i, t) in f.iter().enumerate() {
                    t.flatten(base + self.field_off(i), out)
                }
            }
            _ => {}
        }
    }
    pub fn flat(&self) -> Rc<[(u64, u16)]> {
        let mut v = vec![];
        self.flatten(0, &mut v);
        v.into()
    }
    pub fn scalar_w(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(_, t) | Ty::Arr(_, t) => t.scalar_w(),
            _ => panic!("scalar_w {:?}", self),
        }
    }
    fn is_float(&self) -> bool {
        match self {
            Ty::F32 | Ty::F64 => true,
            Ty::Vec(_, t) => t.is_float(),
            _ => false,
        }
    }
    /// scalar index of aggregate path
    fn path_off(&self, path: &[usize]) -> (usize, Ty) {
        let mut t = self.clone();
        let mut o = 0;
        for &i in path {
            match &t {
                Ty::Struct(f, _) => {
                    for x in &f[..i] {
                        o += x.ns();
                    }
                }
                Ty::Arr(_, e) | Ty::Vec(_, e) => o += e.ns() * i,
                _ => panic!("path"),
            }
            t = t.elem(i);
        }
        (o, t)
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u128),
    A(Rc<[u128]>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
    Move,
}

#[derive(Debug)]
pub enum Callee {
    Sym(u32),
    Ind(Opd),
    Asm(String),
}
#[derive(Debug)]
pub struct CallI {
    pub dst: u32,
    pub rets: Rc<[u16]>, // widths of returned scalars
    pub callee: Callee,
    pub args: Vec<(Opd, Rc<[u16]>)>,
    pub normal: Option<u32>, // invoke: normal destination
}
#[derive(Debug)]
pub enum I {
    Bin(BOp, u16, u32, u32, Opd, Opd), // op,w,n,dst
    Icmp(Pred, u16, u32, u32, Opd, Opd),
    FBin(FOp, u16, u32, u32, Opd, Opd),
    FNeg(u16, u32, u32, Opd),
    FCmp(String, u16, u32, Opd, Opd),
    Cast(CastK, u16, u16, u32, u32, Opd), // kind, from, to, n, dst
    Bitcast(u16, u32, u16, u32, u32, Opd), // fromw, fromn, tow, ton, dst
    Select(Rc<[u16]>, bool, u32, Opd, Opd, Opd),
    Load(u32, Rc<[(u64, u16)]>, Opd),
    Store(Rc<[(u64, u16)]>, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u16, i64)>),
    Alloca(u32, u64, u64, Opd),
    Call(Box<CallI>),
    Move(u32, u32, Opd, u32), // dst, n, src, src offset
    InsertVal(u32, u32, Opd, u32, u32, Opd), // dst, total n, agg, off, n, val
    ExtractElt(u32, u16, u32, Opd, Opd),
    InsertElt(u32, u16, u32, Opd, Opd, Opd),
    Shuffle(u32, u32, Opd, Opd, Rc<[i32]>),
    Cmpxchg(u32, u16, Opd, Opd, Opd),
    Rmw(String, u32, u16, Opd, Opd),
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u16, Opd, u32, Vec<(u128, u32)>),
    Ret(Opd, u32),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
    pub name: String,
}
pub struct Phi {
    pub dst: u32,
    pub n: u32,
    pub inc: Vec<(u32, Opd)>,
}
pub struct Func {
    pub name: String,
    pub sym: u32,
    pub nregs: usize,
    pub params: Vec<(u32, u32)>, // slot, n
    pub blocks: Vec<Block>,
    pub varargs: bool,
}

pub struct Sym {
    pub name: String,
    pub body: Option<(usize, usize, usize)>, // module, start, end
    pub func: Option<Rc<Func>>,
    pub addr: u64,
    pub is_func: bool,
    pub weak: bool,
    pub builtin: u32,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Id(&'a str),
    Num(&'a str),
    Str(&'a str),
    CStr(&'a str),
    Meta,
    Attr,
    Label(&'a str),
    P(u8),
    Nl,
}

fn lex<'a>(s: &'a str, out: &mut Vec<Tok<'a>>) {
    let b = s.as_bytes();
    let mut i = 0;
    let mut line_start = true;
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b'\n' => {
                out.push(Tok::Nl);
                line_start = true;
                i += 1;
                continue;
            }
            b' ' | b'\t' | b'\r' => {
                i += 1;
                continue;
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
                continue;
            }
            b'%' | b'@' => {
                let st;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    let name = &s[st..i];
                    i += 1;
                    out.push(if c == b'%' {
                        Tok::Local(name)
                    } else {
                        Tok::Global(name)
                    });
                } else {
                    st = i + 1;
                    i = st;
                    while i < b.len() && isid(b[i]) {
                        i += 1;
                    }
                    let name = &s[st..i];
                    out.push(if c == b'%' {
                        Tok::Local(name)
                    } else {
                        Tok::Global(name)
                    });
                }
            }
            b'!' => {
                i += 1;
                while i < b.len() && (isid(b[i]) || b[i] == b'\\') {
                    i += 1;
                }
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                }
                out.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::Attr);
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                let t = &s[st..i];
                i += 1;
                if line_start && i < b.len() && b[i] == b':' {
                    i += 1;
                    out.push(Tok::Label(t));
                } else {
                    out.push(Tok::Str(t));
                }
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::CStr(&s[st..i]));
                i += 1;
            }
            _ if c.is_ascii_digit()
                || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) =>
            {
                let st = i;
                i += 1;
                while i < b.len() && (isid(b[i]) || b[i] == b'+') {
                    i += 1;
                }
                let t = &s[st..i];
                if line_start && i < b.len() && b[i] == b':' {
                    i += 1;
                    out.push(Tok::Label(t));
                } else {
                    out.push(Tok::Num(t));
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                let t = &s[st..i];
                if line_start && i < b.len() && b[i] == b':' {
                    i += 1;
                    out.push(Tok::Label(t));
                } else {
                    out.push(Tok::Id(t));
                }
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
        line_start = false;
    }
}

pub struct Module {
    pub text: String,
    types: HashMap<String, Ty>,
    prefix: usize,
}

pub struct Program {
    pub mods: Vec<Module>,
    pub syms: Vec<Sym>,
    pub by_name: HashMap<String, u32>,
    pub by_addr: HashMap<u64, u32>,
    pub local_names: Vec<HashMap<String, u32>>, // module-private symbols
    pub image: Vec<(u64, Vec<u8>)>,
    next_code: u64,
    next_data: u64,
}

struct P<'a> {
    t: Vec<Tok<'a>>,
    i: usize,
    types: &'a HashMap<String, Ty>,
    prog: &'a RefCell<SymTab>,
    module: usize,
}

pub struct SymTab {
    pub syms: Vec<Sym>,
    pub by_name: HashMap<String, u32>,
    pub local: Vec<HashMap<String, u32>>,
    pub next_code: u64,
}

impl SymTab {
    pub fn lookup(&self, module: usize, name: &str) -> Option<u32> {
        if let Some(&s) = self.local[module].get(name) {
            return Some(s);
        }
        self.by_name.get(name).copied()
    }
    fn func(&mut self, module: usize, name: &str) -> u32 {
        if let Some(s) = self.lookup(module, name) {
            return s;
        }
        let id = self.syms.len() as u32;
        let addr = self.next_code;
        self.next_code += 16;
        self.syms.push(Sym {
            name: name.to_string(),
            body: None,
            func: None,
            addr,
            is_func: true,
            weak: false,
            builtin: 0,
        });
        self.by_name.insert(name.to_string(), id);
        id
    }
}

fn parse_int(s: &str, w: u16) -> u128 {
    if let Some(h) = s.strip_prefix("u0x") {
        return u128::from_str_radix(h, 16).unwrap() & mask(w);
    }
    if let Some(n) = s.strip_prefix('-') {
        (n.parse::<u128>().unwrap().wrapping_neg()) & mask(w)
    } else {
        s.parse::<u128>().expect("int") & mask(w)
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    let hex = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(hex(b[i + 1]) * 16 + hex(b[i + 2]));
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

impl<'a> P<'a> {
    fn peek(&self) -> &Tok<'a> {
        self.t.get(self.i).unwrap_or(&Tok::Nl)
    }
    fn peek_at(&self, n: usize) -> &Tok<'a> {
        self.t.get(self.i + n).unwrap_or(&Tok::Nl)
    }
    fn next(&mut self) -> Tok<'a> {
        let t = self.t.get(self.i).cloned().unwrap_or(Tok::Nl);
        self.i += 1;
        t
    }
    fn is_p(&self, c: u8) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect_p(&mut self, c: u8) {
        if !self.eat_p(c) {
            panic!(
                "IR parse: expected {:?} got {:?} near {:?}",
                c as char,
                self.peek(),
                &self.t[self.i.saturating_sub(12)..(self.i + 6).min(self.t.len())]
            );
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if *x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn type_start(&self) -> bool {
        match self.peek() {
            Tok::Id(s) => {
                matches!(
                    *s,
                    "ptr" | "void"
                        | "float"
                        | "double"
                        | "half"
                        | "x86_fp80"
                        | "fp128"
                        | "label"
                        | "metadata"
                        | "token"
                        | "opaque"
                        | "target"
                ) || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P(b'{') | Tok::P(b'<') | Tok::P(b'[') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Id(s) => match s {
                "ptr" => {
                    if self.is_id("addrspace") {
                        self.i += 1;
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "x86_fp80" => Ty::Int(80),
                "half" => Ty::Int(16),
                "fp128" => Ty::Int(128),
                "opaque" => Ty::Opaque,
                _ if s.starts_with('i') => Ty::Int(s[1..].parse().expect("int type")),
                _ => panic!("IR parse: type {s}"),
            },
            Tok::P(b'{') => {
                let mut f = vec![];
                while !self.eat_p(b'}') {
                    f.push(self.ty());
                    self.eat_p(b',');
                }
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P(b'[') => {
                let n = match self.next() {
                    Tok::Num(s) => s.parse().unwrap(),
                    t => panic!("array len {t:?}"),
                };
                assert!(self.eat_id("x"));
                let t = self.ty();
                self.expect_p(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'<') => {
                if self.is_p(b'{') {
                    self.i += 1;
                    let mut f = vec![];
                    while !self.eat_p(b'}') {
                        f.push(self.ty());
                        self.eat_p(b',');
                    }
                    self.expect_p(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = match self.next() {
                        Tok::Num(s) => s.parse().unwrap(),
                        t => panic!("vec len {t:?}"),
                    };
                    assert!(self.eat_id("x"));
                    let t = self.ty();
                    self.expect_p(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::Local(n) => self
                .types
                .get(n)
                .cloned()
                .unwrap_or_else(|| panic!("IR parse: unknown type %{n}")),
            t => panic!(
                "IR parse: type from {t:?} near {:?}",
                &self.t[self.i.saturating_sub(10)..(self.i + 6).min(self.t.len())]
            ),
        };
        t
    }
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Id(s) => {
                    if is_value_kw(s) {
                        return;
                    }
                    let s = *s;
                    self.i += 1;
                    if self.is_p(b'(') {
                        self.skip_parens();
                    } else if s == "align" || s == "alignstack" {
                        self.i += 1;
                    }
                }
                Tok::Str(_) => {
                    self.i += 1;
                    if self.is_p(b'=') {
                        self.i += 2;
                    }
                }
                Tok::Attr => {
                    self.i += 1;
                }
                _ => return,
            }
        }
    }
    fn sym_addr(&mut self, name: &str) -> u128 {
        let mut st = self.prog.borrow_mut();
        let m = self.module;
        match st.lookup(m, name) {
            Some(s) => {
                let s = &st.syms[s as usize];
                if s.weak && s.body.is_none() {
                    0
                } else {
                    s.addr as u128
                }
            }
            None => {
                let f = st.func(m, name);
                st.syms[f as usize].addr as u128
            }
        }
    }
    /// constant of type `ty` as flattened scalars
    fn cval(&mut self, ty: &Ty, out: &mut Vec<u128>) {
        let w = |t: &Ty| t.scalar_w();
        match self.next() {
            Tok::Num(s) => match ty {
                Ty::F64 => out.push(parse_f64(s).to_bits() as u128),
                Ty::F32 => out.push((parse_f64(s) as f32).to_bits() as u128),
                _ => out.push(parse_int(s, w(ty))),
            },
            Tok::Id(s) => match s {
                "true" => out.push(1),
                "false" => out.push(0),
                "null" | "none" => out.push(0),
                "zeroinitializer" | "undef" | "poison" => {
                    for _ in 0..ty.ns() {
                        out.push(0)
                    }
                }
                "splat" => {
                    self.expect_p(b'(');
                    let t = self.ty();
                    let mut v = vec![];
                    self.cval(&t, &mut v);
                    self.expect_p(b')');
                    for _ in 0..ty.ns() {
                        out.push(v[0]);
                    }
                }
                "getelementptr" => {
                    while let Tok::Id(_) = self.peek() {
                        if self.is_id("inrange") {
                            self.i += 1;
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                    }
                    self.expect_p(b'(');
                    let t0 = self.ty();
                    self.expect_p(b',');
                    let bt = self.ty();
                    let mut v = vec![];
                    self.cval(&bt, &mut v);
                    let mut addr = v[0] as i128;
                    let mut cur = t0;
                    let mut first = true;
                    while self.eat_p(b',') {
                        self.eat_id("inrange");
                        let it = self.ty();
                        let mut iv = vec![];
                        self.cval(&it, &mut iv);
                        let x = crate::expr::sext(iv[0], it.scalar_w());
                        if first {
                            addr += x * cur.size() as i128;
                            first = false;
                        } else {
                            addr += match &cur {
                                Ty::Struct(..) => cur.field_off(x as usize) as i128,
                                _ => x * cur.elem(0).size() as i128,
                            };
                            cur = cur.elem(if matches!(cur, Ty::Struct(..)) {
                                x as usize
                            } else {
                                0
                            });
                        }
                    }
                    self.expect_p(b')');
                    out.push(addr as u128 & mask(64));
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "zext" => {
                    self.expect_p(b'(');
                    let t = self.ty();
                    let mut v = vec![];
                    self.cval(&t, &mut v);
                    assert!(self.eat_id("to"));
                    let t2 = self.ty();
                    self.expect_p(b')');
                    if t.ns() == 1 && t2.ns() == 1 {
                        out.push(v[0] & mask(t2.scalar_w()));
                    } else {
                        // vector constant bitcast
                        let mut bits: Vec<(u128, u16)> = vec![];
                        for x in v {
                            bits.push((x, t.scalar_w()));
                        }
                        let mut acc = 0u128;
                        let mut sh = 0;
                        for (x, w) in bits {
                            acc |= x << sh;
                            sh += w as u32;
                        }
                        let tw = t2.scalar_w();
                        for i in 0..t2.ns() {
                            out.push((acc >> (i as u32 * tw as u32)) & mask(tw));
                        }
                    }
                }
                "add" | "sub" | "xor" | "mul" => {
                    while let Tok::Id(_) = self.peek() {
                        self.i += 1;
                    }
                    self.expect_p(b'(');
                    let t = self.ty();
                    let mut v = vec![];
                    self.cval(&t, &mut v);
                    self.expect_p(b',');
                    let t2 = self.ty();
                    self.cval(&t2, &mut v);
                    self.expect_p(b')');
                    let r = match s {
                        "add" => v[0].wrapping_add(v[1]),
                        "sub" => v[0].wrapping_sub(v[1]),
                        "mul" => v[0].wrapping_mul(v[1]),
                        _ => v[0] ^ v[1],
                    };
                    out.push(r & mask(t.scalar_w()));
                }
                "dso_local_equivalent" | "no_cfi" => {
                    self.cval(ty, out);
                }
                "blockaddress" => {
                    self.skip_parens();
                    out.push(0);
                }
                "x" => out.push(0),
                _ => panic!("IR parse: constant {s}"),
            },
            Tok::Global(n) => {
                let a = self.sym_addr(n);
                out.push(a)
            }
            Tok::CStr(s) => {
                for b in unescape(s) {
                    out.push(b as u128)
                }
            }
            Tok::P(b'{') => {
                let mut i = 0;
                let _ = &mut i;
                while !self.eat_p(b'}') {
                    let t = self.ty();
                    self.cval(&t, out);
                    self.eat_p(b',');
                }
            }
            Tok::P(b'[') => {
                while !self.eat_p(b']') {
                    let t = self.ty();
                    self.cval(&t, out);
                    self.eat_p(b',');
                }
            }
            Tok::P(b'<') => {
                let packed = self.eat_p(b'{');
                loop {
                    if packed && self.eat_p(b'}') {
                        self.expect_p(b'>');
                        break;
                    }
                    if !packed && self.eat_p(b'>') {
                        break;
                    }
                    let t = self.ty();
                    self.cval(&t, out);
                    self.eat_p(b',');
                }
            }
            t => panic!(
                "IR parse: constant from {t:?} near {:?}",
                &self.t[self.i.saturating_sub(10)..(self.i + 6).min(self.t.len())]
            ),
        }
    }
}

fn parse_f64(s: &str) -> f64 {
    if let Some(h) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0))
    } else {
        s.parse().unwrap()
    }
}

fn is_value_kw(s: &str) -> bool {
    matches!(
        s,
        "true" | "false"
            | "null"
            | "none"
            | "zeroinitializer"
            | "undef"
            | "poison"
            | "splat"
            | "getelementptr"
            | "ptrtoint"
            | "inttoptr"
            | "bitcast"
            | "trunc"
            | "zext"
            | "addrspacecast"
            | "add"
            | "sub"
            | "xor"
            | "mul"
            | "blockaddress"
            | "dso_local_equivalent"
            | "no_cfi"
            | "asm"
    )
}

struct FnCtx<'a> {
    p: P<'a>,
    slots: HashMap<String, u32>,
    nregs: u32,
    blocks: HashMap<String, u32>,
}

impl<'a> FnCtx<'a> {
    fn slot(&mut self, name: &str, n: usize) -> u32 {
        if let Some(&s) = self.slots.get(name) {
            return s;
        }
        let s = self.nregs;
        self.nregs += n as u32;
        self.slots.insert(name.to_string(), s);
        s
    }
    fn val(&mut self, ty: &Ty) -> Opd {
        if let Tok::Local(n) = self.p.peek() {
            let n = *n;
            self.p.i += 1;
            return Opd::R(self.slot(n, ty.ns()));
        }
        let mut v = vec![];
        self.p.cval(ty, &mut v);
        if ty.ns() == 1 {
            Opd::C(v[0])
        } else {
            Opd::A(v.into())
        }
    }
    fn tyval(&mut self) -> (Ty, Opd) {
        let t = self.p.ty();
        if t == Ty::Meta {
            // skip metadata operand
            let mut d = 0;
            loop {
                match self.p.peek() {
                    Tok::P(b'(') => d += 1,
                    Tok::P(b')') => {
                        if d == 0 {
                            break;
                        }
                        d -= 1
                    }
                    Tok::P(b',') if d == 0 => break,
                    Tok::Nl => break,
                    _ => {}
                }
                self.p.i += 1;
            }
            return (t, Opd::C(0));
        }
        self.p.attrs();
        let v = self.val(&t);
        (t, v)
    }
    fn block(&mut self) -> u32 {
        assert!(self.p.eat_id("label"));
        match self.p.next() {
            Tok::Local(n) => *self
                .blocks
                .get(n)
                .unwrap_or_else(|| panic!("unknown block {n}")),
            t => panic!("label {t:?}"),
        }
    }
    fn to_eol(&mut self) {
        while *self.p.peek() != Tok::Nl {
            self.p.i += 1;
        }
    }
}

fn widths(t: &Ty) -> Rc<[u16]> {
    let mut v = vec![];
    t.flatten(0, &mut v);
    v.iter().map(|x| x.1).collect()
}

impl Program {
    pub fn load(paths: &[String]) -> (Program, RefCell<SymTab>) {
        let mut mods = vec![];
        let st = RefCell::new(SymTab {
            syms: vec![],
            by_name: HashMap::new(),
            local: vec![],
            next_code: 0x10_0000,
        });
        for p in paths {
            let text = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p}: {e}"));
            mods.push(Module {
                text,
                types: HashMap::new(),
                prefix: 0,
            });
            st.borrow_mut().local.push(HashMap::new());
        }
        let mut prog = Program {
            mods,
            syms: vec![],
            by_name: HashMap::new(),
            by_addr: HashMap::new(),
            local_names: vec![],
            image: vec![],
            next_code: 0,
            next_data: 0x1000_0000,
        };
        let _ = prog.next_code;
        let mut globals: Vec<(usize, usize, usize)> = vec![]; // module,start,end
        for m in 0..prog.mods.len() {
            let text = std::mem::take(&mut prog.mods[m].text);
            let b = text.as_bytes();
            let mut pos = 0;
            let mut types: HashMap<String, Ty> = HashMap::new();
            let mut typedefs: Vec<(usize, usize)> = vec![];
            while pos < b.len() {
                let eol = memchr(b, b'\n', pos);
                let line = &text[pos..eol];
                match b[pos] {
                    b'd' if line.starts_with("define ") => {
                        // find end "\n}\n"
                        let mut e = eol;
                        loop {
                            let ne = memchr(b, b'\n', e + 1);
                            if b[e + 1] == b'}' {
                                e = ne;
                                break;
                            }
                            e = ne;
                        }
                        let name = global_name(line);
                        let private = line.starts_with("define internal")
                            || line.starts_with("define private");
                        add_func(&st, m, name, Some((m, pos, e)), private, false);
                        pos = e + 1;
                        continue;
                    }
                    b'd' if line.starts_with("declare ") => {
                        let name = global_name(line);
                        let weak = line.contains("extern_weak");
                        add_func(&st, m, name, None, false, weak);
                    }
                    b'@' => {
                        globals.push((m, pos, eol));
                    }
                    b'%' => {
                        typedefs.push((pos, eol));
                    }
                    _ => {}
                }
                pos = eol + 1;
            }
            // type definitions may refer to later ones: repeat until all are resolved
            while !typedefs.is_empty() {
                let before = typedefs.len();
                let mut rest = vec![];
                for (p0, e0) in typedefs {
                    let mut toks = vec![];
                    lex(&text[p0..e0], &mut toks);
                    let known = toks[1..].iter().all(|t| match t {
                        Tok::Local(n) => types.contains_key(*n),
                        _ => true,
                    });
                    if !known {
                        rest.push((p0, e0));
                        continue;
                    }
                    if toks.len() > 3 && matches!(toks[3], Tok::Id("opaque")) {
                        continue;
                    }
                    if let Tok::Local(n) = toks[0] {
                        let mut p = P { t: toks, i: 3, types: &types, prog: &st, module: m };
                        let t = p.ty();
                        types.insert(n.to_string(), t);
                    }
                }
                if rest.len() == before {
                    break;
                }
                typedefs = rest;
            }
            prog.mods[m].types = types;
            prog.mods[m].text = text;
            prog.mods[m].prefix = 0;
        }
        // globals pass A: addresses
        let mut inits: Vec<(usize, usize, usize, u64, u64)> = vec![];
        let mut aliases: Vec<(usize, usize, usize)> = vec![];
        let mut data = prog.next_data;
        for &(m, s, e) in &globals {
            let line = &prog.mods[m].text[s..e];
            let mut toks = vec![];
            lex(line, &mut toks);
            let name = match toks[0] {
                Tok::Global(n) => n,
                _ => continue,
            };
            let mut p = P {
                t: toks.clone(),
                i: 2,
                types: &prog.mods[m].types,
                prog: &st,
                module: m,
            };
            let mut external = false;
            let mut private = false;
            let mut alias = false;
            loop {
                match p.next() {
                    Tok::Id("global") | Tok::Id("constant") => break,
                    Tok::Id("alias") => {
                        alias = true;
                        break;
                    }
                    Tok::Id("external") | Tok::Id("extern_weak") => external = true,
                    Tok::Id("private") | Tok::Id("internal") => private = true,
                    Tok::Nl => panic!("global {name}"),
                    _ => {}
                }
            }
            if alias {
                aliases.push((m, s, e));
                continue;
            }
            let ty = p.ty();
            let size = ty.size();
            let mut align = ty.align().max(16);
            if let Some(k) = toks.windows(2).rev().find_map(|w| match (&w[0], &w[1]) {
                (Tok::Id("align"), Tok::Num(n)) => n.parse::<u64>().ok(),
                _ => None,
            }) {
                align = align.max(k);
            }
            data = round_up(data, align);
            let addr = data;
            data += size.max(1);
            {
                let mut t = st.borrow_mut();
                let id = t.syms.len() as u32;
                let existing = t.by_name.get(name).copied();
                if external && existing.is_some() {
                    continue;
                }
                t.syms.push(Sym {
                    name: name.to_string(),
                    body: None,
                    func: None,
                    addr,
                    is_func: false,
                    weak: false,
                    builtin: 0,
                });
                if private {
                    t.local[m].insert(name.to_string(), id);
                } else {
                    t.by_name.insert(name.to_string(), id);
                }
            }
            if !external {
                inits.push((m, s, e, addr, size));
            } else {
                prog.image.push((addr, vec![0; size.max(8) as usize]));
                data += 8;
            }
        }
        prog.next_data = data;
        for (m, s, e) in aliases {
            let line = &prog.mods[m].text[s..e];
            let mut toks = vec![];
            lex(line, &mut toks);
            let name = match toks[0] {
                Tok::Global(n) => n,
                _ => continue,
            };
            // target: last Global token on the line (functions aliased by LTO)
            let target = toks
                .iter()
                .rev()
                .find_map(|t| match t {
                    Tok::Global(n) => Some(*n),
                    _ => None,
                })
                .unwrap();
            let mut t = st.borrow_mut();
            if let Some(id) = t.lookup(m, target) {
                t.by_name.insert(name.to_string(), id);
                t.local[m].insert(name.to_string(), id);
            }
        }
        // pass B: initialisers
        for (m, s, e, addr, size) in inits {
            let line = &prog.mods[m].text[s..e];
            let mut toks = vec![];
            lex(line, &mut toks);
            let mut p = P {
                t: toks,
                i: 2,
                types: &prog.mods[m].types,
                prog: &st,
                module: m,
            };
            loop {
                match p.next() {
                    Tok::Id("global") | Tok::Id("constant") => break,
                    _ => {}
                }
            }
            let ty = p.ty();
            let mut bytes = vec![0u8; size as usize];
            if let Tok::CStr(c) = p.peek() {
                let b = unescape(c);
                bytes[..b.len()].copy_from_slice(&b);
            } else if p.is_id("zeroinitializer") || p.is_id("undef") || p.is_id("poison") {
            } else {
                let mut v = vec![];
                p.cval(&ty, &mut v);
                let mut f = vec![];
                ty.flatten(0, &mut f);
                assert_eq!(v.len(), f.len(), "global init {line:.80}");
                for (x, (o, w)) in v.iter().zip(f) {
                    let n = (w as usize).div_ceil(8);
                    let le = x.to_le_bytes();
                    for k in 0..n {
                        bytes[o as usize + k] = le[k];
                    }
                }
            }
            prog.image.push((addr, bytes));
        }
        (prog, st)
    }

    pub fn decode(&self, st: &RefCell<SymTab>, sym: u32) -> Rc<Func> {
        let (m, s, e, name) = {
            let t = st.borrow();
            let y = &t.syms[sym as usize];
            let (m, s, e) = y.body.expect("decode undefined");
            (m, s, e, y.name.clone())
        };
        let text = &self.mods[m].text[s..e];
        let mut toks = vec![];
        lex(text, &mut toks);
        let f = decode_fn(toks, &self.mods[m].types, st, m, sym, &name);
        let f = Rc::new(f);
        st.borrow_mut().syms[sym as usize].func = Some(f.clone());
        f
    }
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    b[from..]
        .iter()
        .position(|&x| x == c)
        .map(|p| p + from)
        .unwrap_or(b.len())
}

fn global_name(line: &str) -> &str {
    let at = {
        // first '@' outside of quotes/attributes
        let b = line.as_bytes();
        let mut i = 0;
        while b[i] != b'@' {
            if b[i] == b'"' {
                i += 1;
                while b[i] != b'"' {
                    i += 1;
                }
            }
            i += 1;
        }
        i
    };
    let r = &line[at + 1..];
    if let Some(q) = r.strip_prefix('"') {
        &q[..q.find('"').unwrap()]
    } else {
        &r[..r.find('(').unwrap()]
    }
}

fn add_func(
    st: &RefCell<SymTab>,
    m: usize,
    name: &str,
    body: Option<(usize, usize, usize)>,
    private: bool,
    weak: bool,
) {
    let mut t = st.borrow_mut();
    if let (false, Some(&id)) = (private, t.by_name.get(name)) {
        if body.is_some() && t.syms[id as usize].body.is_none() {
            t.syms[id as usize].body = body;
            t.syms[id as usize].weak = false;
        }
        return;
    }
    let id = t.syms.len() as u32;
    let addr = t.next_code;
    t.next_code += 16;
    t.syms.push(Sym {
        name: name.to_string(),
        body,
        func: None,
        addr,
        is_func: true,
        weak,
        builtin: 0,
    });
    if private {
        t.local[m].insert(name.to_string(), id);
    } else {
        t.by_name.insert(name.to_string(), id);
    }
}

fn decode_fn<'a>(
    toks: Vec<Tok<'a>>,
    types: &'a HashMap<String, Ty>,
    st: &'a RefCell<SymTab>,
    m: usize,
    sym: u32,
    name: &str,
) -> Func {
    let p = P {
        t: toks,
        i: 0,
        types,
        prog: st,
        module: m,
    };
    let mut c = FnCtx {
        p,
        slots: HashMap::new(),
        nregs: 0,
        blocks: HashMap::new(),
    };
    // header: skip to @name
    while !matches!(c.p.peek(), Tok::Global(_)) {
        c.p.i += 1;
    }
    c.p.i += 1;
    c.p.expect_p(b'(');
    let mut params = vec![];
    let mut unnamed = 0;
    let mut varargs = false;
    while !c.p.eat_p(b')') {
        if c.p.is_p(b'.') || matches!(c.p.peek(), Tok::Id(s) if s.starts_with("...")) {
            varargs = true;
            while !c.p.is_p(b')') {
                c.p.i += 1;
            }
            continue;
        }
        let t = c.p.ty();
        c.p.attrs();
        let n = match c.p.peek() {
            Tok::Local(n) => {
                let n = *n;
                c.p.i += 1;
                if n.bytes().all(|b| b.is_ascii_digit()) {
                    unnamed += 1;
                }
                n.to_string()
            }
            _ => {
                let n = unnamed.to_string();
                unnamed += 1;
                n
            }
        };
        let s = c.slot(&n, t.ns());
        params.push((s, t.ns() as u32));
        c.p.eat_p(b',');
    }
    while !c.p.is_p(b'{') {
        c.p.i += 1;
    }
    c.p.i += 1;
    while *c.p.peek() == Tok::Nl {
        c.p.i += 1;
    }
    let body = c.p.i;
    // labels
    let mut nb = 0;
    let entry_label = match c.p.peek() {
        Tok::Label(l) => l.to_string(),
        _ => unnamed.to_string(),
    };
    c.blocks.insert(entry_label.clone(), 0);
    nb += 1;
    for k in body..c.p.t.len() {
        if let Tok::Label(l) = &c.p.t[k] {
            if !c.blocks.contains_key(*l) {
                c.blocks.insert(l.to_string(), nb);
                nb += 1;
            }
        }
    }
    let mut blocks: Vec<Block> = vec![];
    blocks.push(Block {
        phis: vec![],
        ins: vec![],
        name: entry_label.clone(),
    });
    if let Tok::Label(_) = c.p.peek() {
        c.p.i += 1;
    }
    loop {
        match c.p.peek() {
            Tok::Nl => {
                c.p.i += 1;
                continue;
            }
            Tok::P(b'}') => break,
            Tok::Label(l) => {
                let l = l.to_string();
                c.p.i += 1;
                assert_eq!(c.blocks[&l] as usize, blocks.len(), "block order");
                blocks.push(Block {
                    phis: vec![],
                    ins: vec![],
                    name: l,
                });
                continue;
            }
            _ => {}
        }
        let mut dst_name: Option<&str> = None;
        if let Tok::Local(n) = c.p.peek() {
            if *c.p.peek_at(1) == Tok::P(b'=') {
                dst_name = Some(*n);
                c.p.i += 2;
            }
        }
        let op = match c.p.next() {
            Tok::Id(s) => s,
            Tok::P(b'#') | Tok::Attr => {
                // debug record
                c.to_eol();
                continue;
            }
            t => panic!("instr {t:?} in {name}"),
        };
        if op == "phi" {
            while matches!(c.p.peek(), Tok::Id(_)) && !c.p.type_start() {
                c.p.i += 1;
            }
            let t = c.p.ty();
            let mut inc = vec![];
            loop {
                c.p.expect_p(b'[');
                let v = c.val(&t);
                c.p.expect_p(b',');
                let b = match c.p.next() {
                    Tok::Local(n) => c.blocks[n],
                    t => panic!("phi block {t:?}"),
                };
                c.p.expect_p(b']');
                inc.push((b, v));
                if !c.p.eat_p(b',') {
                    break;
                }
                if !c.p.is_p(b'[') {
                    break;
                }
            }
            let n = t.ns();
            let dst = c.slot(dst_name.unwrap(), n);
            blocks.last_mut().unwrap().phis.push(Phi {
                dst,
                n: n as u32,
                inc,
            });
            c.to_eol();
            continue;
        }
        let ins = decode_ins(&mut c, op, dst_name, m);
        c.to_eol();
        blocks.last_mut().unwrap().ins.push(ins);
    }
    Func {
        name: name.to_string(),
        sym,
        nregs: c.nregs as usize,
        params,
        blocks,
        varargs,
    }
}

fn decode_ins<'a>(c: &mut FnCtx<'a>, op: &'a str, dst: Option<&'a str>, m: usize) -> I {
    let bop = |s: &str| {
        Some(match s {
            "add" => BOp::Add,
            "sub" => BOp::Sub,
            "mul" => BOp::Mul,
            "udiv" => BOp::UDiv,
            "sdiv" => BOp::SDiv,
            "urem" => BOp::URem,
            "srem" => BOp::SRem,
            "shl" => BOp::Shl,
            "lshr" => BOp::LShr,
            "ashr" => BOp::AShr,
            "and" => BOp::And,
            "or" => BOp::Or,
            "xor" => BOp::Xor,
            _ => return None,
        })
    };
    let fop = |s: &str| {
        Some(match s {
            "fadd" => FOp::Add,
            "fsub" => FOp::Sub,
            "fmul" => FOp::Mul,
            "fdiv" => FOp::Div,
            "frem" => FOp::Rem,
            _ => return None,
        })
    };
    let skip_flags = |c: &mut FnCtx| {
        while matches!(c.p.peek(), Tok::Id(_)) && !c.p.type_start() {
            c.p.i += 1;
            if c.p.is_p(b'(') {
                c.p.skip_parens();
            }
        }
    };
    if let Some(b) = bop(op) {
        skip_flags(c);
        let t = c.p.ty();
        let x = c.val(&t);
        c.p.expect_p(b',');
        let y = c.val(&t);
        let d = c.slot(dst.unwrap(), t.ns());
        return I::Bin(b, t.scalar_w(), t.ns() as u32, d, x, y);
    }
    if let Some(b) = fop(op) {
        skip_flags(c);
        let t = c.p.ty();
        let x = c.val(&t);
        c.p.expect_p(b',');
        let y = c.val(&t);
        let d = c.slot(dst.unwrap(), t.ns());
        return I::FBin(b, t.scalar_w(), t.ns() as u32, d, x, y);
    }
    match op {
        "fneg" => {
            skip_flags(c);
            let (t, x) = c.tyval();
            let d = c.slot(dst.unwrap(), t.ns());
            I::FNeg(t.scalar_w(), t.ns() as u32, d, x)
        }
        "icmp" => {
            c.p.eat_id("samesign");
            let pr = match c.p.next() {
                Tok::Id(s) => match s {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => panic!("icmp {s}"),
                },
                t => panic!("icmp {t:?}"),
            };
            let t = c.p.ty();
            let x = c.val(&t);
            c.p.expect_p(b',');
            let y = c.val(&t);
            let d = c.slot(dst.unwrap(), t.ns());
            I::Icmp(pr, t.scalar_w(), t.ns() as u32, d, x, y)
        }
        "fcmp" => {
            let mut pr = String::new();
            while let Tok::Id(s) = c.p.peek() {
                if c.p.type_start() {
                    break;
                }
                pr = s.to_string();
                c.p.i += 1;
            }
            let t = c.p.ty();
            let x = c.val(&t);
            c.p.expect_p(b',');
            let y = c.val(&t);
            let d = c.slot(dst.unwrap(), 1);
            if t.ns() != 1 {
                return I::Unsupported("vector fcmp".into());
            }
            I::FCmp(pr, t.scalar_w(), d, x, y)
        }
        "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc"
        | "fpext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
            skip_flags(c);
            let (t, x) = c.tyval();
            assert!(c.p.eat_id("to"));
            let t2 = c.p.ty();
            let d = c.slot(dst.unwrap(), t2.ns());
            let (w1, w2) = (t.scalar_w(), t2.scalar_w());
            let k = match op {
                "trunc" => CastK::Trunc,
                "zext" => CastK::ZExt,
                "sext" => CastK::SExt,
                "fptoui" => CastK::FpToUi,
                "fptosi" => CastK::FpToSi,
                "uitofp" => CastK::UiToFp,
                "sitofp" => CastK::SiToFp,
                "fptrunc" => CastK::FpTrunc,
                "fpext" => CastK::FpExt,
                "ptrtoint" | "inttoptr" | "addrspacecast" => {
                    if w1 > w2 {
                        CastK::Trunc
                    } else if w1 < w2 {
                        CastK::ZExt
                    } else {
                        CastK::Move
                    }
                }
                _ => {
                    if t.ns() == t2.ns() && w1 == w2 {
                        CastK::Move
                    } else {
                        return I::Bitcast(w1, t.ns() as u32, w2, t2.ns() as u32, d, x);
                    }
                }
            };
            I::Cast(k, w1, w2, t.ns() as u32, d, x)
        }
        "freeze" => {
            let (t, x) = c.tyval();
            let d = c.slot(dst.unwrap(), t.ns());
            I::Move(d, t.ns() as u32, x, 0)
        }
        "select" => {
            skip_flags(c);
            let (ct, cv) = c.tyval();
            c.p.expect_p(b',');
            let (t, a) = c.tyval();
            c.p.expect_p(b',');
            let (_, b) = c.tyval();
            let d = c.slot(dst.unwrap(), t.ns());
            I::Select(widths(&t), ct.ns() > 1, d, cv, a, b)
        }
        "load" => {
            c.p.eat_id("atomic");
            c.p.eat_id("volatile");
            let t = c.p.ty();
            c.p.expect_p(b',');
            let (_, ptr) = c.tyval();
            let d = c.slot(dst.unwrap(), t.ns());
            if let Ty::Vec(_, e) = &t {
                if e.bits() % 8 != 0 {
                    return I::Unsupported("bit vector load".into());
                }
            }
            I::Load(d, t.flat(), ptr)
        }
        "store" => {
            c.p.eat_id("atomic");
            c.p.eat_id("volatile");
            let (t, v) = c.tyval();
            c.p.expect_p(b',');
            let (_, ptr) = c.tyval();
            I::Store(t.flat(), v, ptr)
        }
        "getelementptr" => {
            skip_flags(c);
            let t0 = c.p.ty();
            c.p.expect_p(b',');
            let (bt, base) = c.tyval();
            if bt.ns() != 1 {
                return I::Unsupported("vector gep".into());
            }
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = t0;
            let mut first = true;
            while c.p.eat_p(b',') {
                if *c.p.peek() == Tok::Meta {
                    break;
                }
                let (it, iv) = c.tyval();
                let scale: i64;
                if first {
                    scale = cur.size() as i64;
                    first = false;
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let k = match iv {
                                Opd::C(k) => k as usize,
                                _ => panic!("struct gep index"),
                            };
                            off += cur.field_off(k) as i64;
                            cur = cur.elem(k);
                            continue;
                        }
                        _ => {
                            cur = cur.elem(0);
                            scale = cur.size() as i64;
                        }
                    }
                }
                match iv {
                    Opd::C(k) => off += crate::expr::sext(k, it.scalar_w()) as i64 * scale,
                    v => idx.push((v, it.scalar_w(), scale)),
                }
            }
            let d = c.slot(dst.unwrap(), 1);
            I::Gep(d, base, off, idx)
        }
        "alloca" => {
            c.p.eat_id("inalloca");
            let t = c.p.ty();
            let mut count = Opd::C(1);
            let mut align = t.align().max(16);
            while c.p.eat_p(b',') {
                if c.p.eat_id("align") {
                    if let Tok::Num(n) = c.p.next() {
                        align = align.max(n.parse().unwrap());
                    }
                } else if c.p.type_start() {
                    count = c.tyval().1;
                } else {
                    break;
                }
            }
            let d = c.slot(dst.unwrap(), 1);
            I::Alloca(d, t.size(), align, count)
        }
        "extractvalue" => {
            let (t, v) = c.tyval();
            let mut path = vec![];
            while c.p.eat_p(b',') {
                match c.p.next() {
                    Tok::Num(n) => path.push(n.parse().unwrap()),
                    _ => break,
                }
            }
            let (o, et) = t.path_off(&path);
            let d = c.slot(dst.unwrap(), et.ns());
            I::Move(d, et.ns() as u32, v, o as u32)
        }
        "insertvalue" => {
            let (t, v) = c.tyval();
            c.p.expect_p(b',');
            let (_, x) = c.tyval();
            let mut path = vec![];
            while c.p.eat_p(b',') {
                match c.p.next() {
                    Tok::Num(n) => path.push(n.parse().unwrap()),
                    _ => break,
                }
            }
            let (o, et) = t.path_off(&path);
            let d = c.slot(dst.unwrap(), t.ns());
            I::InsertVal(d, t.ns() as u32, v, o as u32, et.ns() as u32, x)
        }
        "extractelement" => {
            let (t, v) = c.tyval();
            c.p.expect_p(b',');
            let (_, i) = c.tyval();
            let d = c.slot(dst.unwrap(), 1);
            I::ExtractElt(d, t.scalar_w(), t.ns() as u32, v, i)
        }
        "insertelement" => {
            let (t, v) = c.tyval();
            c.p.expect_p(b',');
            let (_, x) = c.tyval();
            c.p.expect_p(b',');
            let (_, i) = c.tyval();
            let d = c.slot(dst.unwrap(), t.ns());
            I::InsertElt(d, t.scalar_w(), t.ns() as u32, v, x, i)
        }
        "shufflevector" => {
            let (t, a) = c.tyval();
            c.p.expect_p(b',');
            let (_, b) = c.tyval();
            c.p.expect_p(b',');
            let mt = c.p.ty();
            // mask: parse elements, poison = -1
            let mut mask = vec![];
            if c.p.eat_id("zeroinitializer") {
                mask = vec![0; mt.ns()];
            } else if c.p.eat_id("poison") || c.p.eat_id("undef") {
                mask = vec![-1; mt.ns()];
            } else if c.p.eat_id("splat") {
                c.p.expect_p(b'(');
                let t = c.p.ty();
                let mut v = vec![];
                c.p.cval(&t, &mut v);
                c.p.expect_p(b')');
                mask = vec![v[0] as i32; mt.ns()];
            } else {
                c.p.expect_p(b'<');
                while !c.p.eat_p(b'>') {
                    c.p.ty();
                    match c.p.next() {
                        Tok::Num(n) => mask.push(n.parse::<i32>().unwrap()),
                        _ => mask.push(-1),
                    }
                    c.p.eat_p(b',');
                }
            }
            let d = c.slot(dst.unwrap(), mask.len());
            I::Shuffle(d, t.ns() as u32, a, b, mask.into())
        }
        "cmpxchg" => {
            c.p.eat_id("weak");
            c.p.eat_id("volatile");
            let (_, ptr) = c.tyval();
            c.p.expect_p(b',');
            let (t, cmp) = c.tyval();
            c.p.expect_p(b',');
            let (_, new) = c.tyval();
            let d = c.slot(dst.unwrap(), 2);
            I::Cmpxchg(d, t.scalar_w(), ptr, cmp, new)
        }
        "atomicrmw" => {
            c.p.eat_id("volatile");
            let o = match c.p.next() {
                Tok::Id(s) => s.to_string(),
                t => panic!("rmw {t:?}"),
            };
            let (_, ptr) = c.tyval();
            c.p.expect_p(b',');
            let (t, v) = c.tyval();
            let d = c.slot(dst.unwrap(), 1);
            I::Rmw(o, d, t.scalar_w(), ptr, v)
        }
        "fence" => I::Nop,
        "landingpad" => {
            let t = c.p.ty();
            let _ = c.slot(dst.unwrap(), t.ns());
            // clauses may be on following lines
            loop {
                c.to_eol();
                let save = c.p.i;
                c.p.i += 1;
                if c.p.is_id("cleanup") || c.p.is_id("catch") || c.p.is_id("filter") {
                    continue;
                }
                c.p.i = save;
                break;
            }
            I::Nop
        }
        "resume" => I::Unsupported("resume".into()),
        "unreachable" => I::Unreachable,
        "ret" => {
            if c.p.is_id("void") {
                return I::Ret(Opd::C(0), 0);
            }
            let (t, v) = c.tyval();
            I::Ret(v, t.ns() as u32)
        }
        "br" => {
            if c.p.is_id("label") {
                let b = c.block();
                I::Br(b)
            } else {
                let (_, v) = c.tyval();
                c.p.expect_p(b',');
                let a = c.block();
                c.p.expect_p(b',');
                let b = c.block();
                I::CondBr(v, a, b)
            }
        }
        "switch" => {
            let (t, v) = c.tyval();
            c.p.expect_p(b',');
            let d = c.block();
            c.p.expect_p(b'[');
            let mut cases = vec![];
            loop {
                while *c.p.peek() == Tok::Nl {
                    c.p.i += 1;
                }
                if c.p.eat_p(b']') {
                    break;
                }
                let ct = c.p.ty();
                let mut cv = vec![];
                c.p.cval(&ct, &mut cv);
                c.p.expect_p(b',');
                let b = c.block();
                cases.push((cv[0], b));
            }
            I::Switch(t.scalar_w(), v, d, cases)
        }
        "tail" | "musttail" | "notail" => {
            c.p.i += 1; // call
            decode_call(c, dst, m, false)
        }
        "call" => decode_call(c, dst, m, false),
        "invoke" => decode_call(c, dst, m, true),
        _ => {
            if let Some(d) = dst {
                c.slot(d, 1);
            }
            I::Unsupported(op.to_string())
        }
    }
}

fn decode_call<'a>(c: &mut FnCtx<'a>, dst: Option<&'a str>, m: usize, invoke: bool) -> I {
    // cc / attrs / fast-math flags until type
    loop {
        if c.p.type_start() {
            break;
        }
        match c.p.next() {
            Tok::Id("cc") => {
                c.p.i += 1;
            }
            Tok::Id(s) => {
                if s == "align" {
                    c.p.i += 1;
                } else if c.p.is_p(b'(') {
                    c.p.skip_parens();
                }
            }
            Tok::Attr | Tok::Str(_) => {}
            t => panic!("call prefix {t:?}"),
        }
    }
    let rt = c.p.ty();
    if c.p.is_p(b'(') {
        c.p.skip_parens();
    }
    let callee = match c.p.next() {
        Tok::Global(n) => {
            let id = c.p.prog.borrow_mut().func(m, n);
            Callee::Sym(id)
        }
        Tok::Local(n) => Callee::Ind(Opd::R(c.slot(n, 1))),
        Tok::Id("asm") => {
            let mut txt = String::new();
            while !c.p.is_p(b'(') {
                if let Tok::Str(s) = c.p.peek() {
                    txt += s;
                    txt += " | ";
                }
                c.p.i += 1;
            }
            Callee::Asm(txt)
        }
        Tok::Id(_) => {
            c.p.i -= 1;
            let mut v = vec![];
            c.p.cval(&Ty::Ptr, &mut v);
            Callee::Ind(Opd::C(v[0]))
        }
        t => panic!("callee {t:?}"),
    };
    c.p.expect_p(b'(');
    let mut args = vec![];
    while !c.p.eat_p(b')') {
        let (t, v) = c.tyval();
        if t != Ty::Meta {
            args.push((v, widths(&t)));
        }
        c.p.eat_p(b',');
    }
    let d = match dst {
        Some(n) => c.slot(n, rt.ns()),
        None => u32::MAX,
    };
    let mut normal = None;
    if invoke {
        while !c.p.is_id("to") {
            c.p.i += 1;
        }
        c.p.i += 1;
        normal = Some(c.block());
    }
    I::Call(Box::new(CallI {
        dst: d,
        rets: widths(&rt),
        callee,
        args,
        normal,
    }))
}

#[allow(dead_code)]
fn _unused(t: &Ty) -> bool {
    t.is_float()
}
