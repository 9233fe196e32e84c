//! Parser for the textual LLVM IR that rustc emits (opaque pointers).
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    St(Vec<Ty>, bool),
    Vec(u32, Box<Ty>),
    Void,
    Other,
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::St(v, p) => {
                if *p {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, t) => ((*n as u64 * t.bits() as u64 + 7) / 8).next_power_of_two(),
            _ => 1,
        }
    }
    /// allocation size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(v, p) => {
                let mut o = 0;
                for t in v {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            Ty::St(v, p) => {
                let mut o = 0;
                for (j, t) in v.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            _ => panic!("field_off of {self:?}"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::St(v, _) => &v[i],
            _ => panic!("elem of {self:?}"),
        }
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            Ty::St(v, _) => v.len(),
            _ => panic!(),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::St(..) | Ty::Vec(..))
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(Ex),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ind(Opd),
    Asm,
}

#[derive(Debug)]
pub enum I {
    Bin { op: BinOp, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: Opd },
    Load { ty: Ty, d: u32, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: u64, idx: Vec<(Opd, u32, u64)> },
    Select { ty: Ty, lanes: u32, d: u32, c: Opd, a: Opd, b: Opd },
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Call { d: Option<u32>, ty: Ty, f: Callee, args: Vec<(Opd, Ty)>, normal: Option<u32> },
    ExtractValue { d: u32, a: Opd, idx: Vec<u32> },
    InsertValue { d: u32, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElem { d: u32, a: Opd, i: Opd },
    InsertElem { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, m: Vec<i64>, n: usize },
    Alloca { d: u32, size: u64, align: u64 },
    Copy { d: u32, a: Opd },
    Nop,
    Unreachable,
    AtomicRmw { d: u32, op: String, ty: Ty, p: Opd, v: Opd },
    CmpXchg { d: u32, ty: Ty, p: Opd, c: Opd, n: Opd },
    Unsupported(String),
}

#[derive(Debug)]
pub struct Phi {
    pub d: u32,
    pub inc: Vec<(u32, Opd)>, // (pred block, value)
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<I>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub ninst: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hook {
    None,
    Panic,
    Abort,
    Intrin,
    Ext,
}

pub struct FuncDecl {
    pub name: String,
    pub addr: u64,
    pub body: Option<(usize, usize)>, // byte range in text
    pub parsed: Option<Rc<Func>>,
    pub hook: Hook,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub ty: Ty,
    pub constant: bool,
    pub data: Vec<u8>,
    pub external: bool,
}

pub struct Module {
    pub text: String,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub faddr: HashMap<u64, u32>,
    pub globals: Vec<Global>,
    pub gaddr: HashMap<String, u64>,
    pub named: HashMap<String, Ty>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Local(String),
    Global(String),
    Int(String),
    Str(Vec<u8>),
    Word(String),
    P(char),
    Meta,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            v.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            v.push(b'\\');
            i += 2;
        } else {
            v.push(s[i]);
            i += 1;
        }
    }
    v
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\n' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let j;
                let name;
                if b.get(i + 1) == Some(&b'"') {
                    let mut k = i + 2;
                    while b[k] != b'"' {
                        k += 1;
                    }
                    name = s[i + 2..k].to_string();
                    j = k + 1;
                } else {
                    let mut k = i + 1;
                    while k < b.len() && is_id(b[k]) {
                        k += 1;
                    }
                    name = s[i + 1..k].to_string();
                    j = k;
                }
                out.push(if c == b'%' { T::Local(name) } else { T::Global(name) });
                i = j;
            }
            b'"' => {
                let mut k = i + 1;
                while b[k] != b'"' {
                    k += 1;
                }
                out.push(T::Str(unescape(&b[i + 1..k])));
                i = k + 1;
            }
            b'c' if b.get(i + 1) == Some(&b'"') => {
                let mut k = i + 2;
                while b[k] != b'"' {
                    k += 1;
                }
                out.push(T::Str(unescape(&b[i + 2..k])));
                i = k + 1;
            }
            b'!' => {
                let mut k = i + 1;
                while k < b.len() && is_id(b[k]) {
                    k += 1;
                }
                out.push(T::Meta);
                i = k;
            }
            b'#' => {
                let mut k = i + 1;
                while k < b.len() && is_id(b[k]) {
                    k += 1;
                }
                i = k;
            }
            b'-' | b'0'..=b'9' => {
                let mut k = i + 1;
                while k < b.len() && is_id(b[k]) {
                    k += 1;
                }
                out.push(T::Int(s[i..k].to_string()));
                i = k;
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let mut k = i;
                while k < b.len() && (is_id(b[k])) {
                    k += 1;
                }
                out.push(T::Word(s[i..k].to_string()));
                i = k.max(i + 1);
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct Ps<'a> {
    t: &'a [T],
    i: usize,
    gaddr: &'a HashMap<String, u64>,
    named: &'a HashMap<String, Ty>,
}

fn parse_int(s: &str) -> u128 {
    if let Some(h) = s.strip_prefix("u0x").or(s.strip_prefix("s0x")) {
        return u128::from_str_radix(h, 16).unwrap();
    }
    if let Some(x) = s.strip_prefix('-') {
        return 0u128.wrapping_sub(x.parse::<u128>().unwrap());
    }
    s.parse::<u128>().unwrap_or_else(|_| panic!("int {s}"))
}

pub fn mkc(ctx: &mut Ctx, k: u128, w: u32) -> Val {
    if w <= 64 {
        Val::C((k & mask(w)) as u64)
    } else {
        Val::S(ctx.konst(k, w))
    }
}

impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> T {
        let t = self.t.get(self.i).cloned().unwrap_or_else(|| panic!("eof in {:?}", &self.t[..self.t.len().min(30)]));
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("expected {c} at {} in {:?}", self.i, &self.t[..self.t.len().min(60)]);
        }
    }
    fn is_w(&self, s: &str) -> bool {
        matches!(self.peek(), Some(T::Word(w)) if w == s)
    }
    fn eat_w(&mut self, s: &str) -> bool {
        if self.is_w(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        match self.next() {
            T::Word(w) => w,
            t => panic!("expected word got {t:?} in {:?}", &self.t[..self.t.len().min(60)]),
        }
    }
    fn skip_parens(&mut self) {
        if self.eat_p('(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    T::P('(') => d += 1,
                    T::P(')') => d -= 1,
                    _ => {}
                }
            }
        }
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            Some(T::Word(w)) => {
                matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "label" | "metadata" | "half" | "fp128" | "x86_fp80" | "bfloat")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P('[')) | Some(T::P('{')) | Some(T::P('<')) => true,
            Some(T::Local(n)) => self.named.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            T::Word(w) => match w.as_str() {
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other,
            },
            T::Local(n) => self.named[&n].clone(),
            T::P('[') => {
                let n = match self.next() {
                    T::Int(s) => s.parse().unwrap(),
                    t => panic!("array len {t:?}"),
                };
                assert!(self.eat_w("x"));
                let e = self.ty();
                self.exp(']');
                Ty::Arr(n, Box::new(e))
            }
            T::P('{') => {
                let mut v = vec![];
                if !self.eat_p('}') {
                    loop {
                        v.push(self.ty());
                        if !self.eat_p(',') {
                            break;
                        }
                    }
                    self.exp('}');
                }
                Ty::St(v, false)
            }
            T::P('<') => {
                if self.eat_p('{') {
                    let mut v = vec![];
                    if !self.is_p('}') {
                        loop {
                            v.push(self.ty());
                            if !self.eat_p(',') {
                                break;
                            }
                        }
                    }
                    self.exp('}');
                    self.exp('>');
                    Ty::St(v, true)
                } else {
                    let n = match self.next() {
                        T::Int(s) => s.parse().unwrap(),
                        t => panic!("vec len {t:?}"),
                    };
                    assert!(self.eat_w("x"));
                    let e = self.ty();
                    self.exp('>');
                    Ty::Vec(n, Box::new(e))
                }
            }
            t => panic!("type? {t:?} in {:?}", &self.t[..self.t.len().min(40)]),
        };
        t
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(T::Word(w)) => {
                    let w = w.clone();
                    if self.is_ty() {
                        return;
                    }
                    match w.as_str() {
                        "undef" | "poison" | "null" | "true" | "false" | "zeroinitializer" | "getelementptr" | "ptrtoint"
                        | "inttoptr" | "sub" | "trunc" | "add" | "splat" | "asm" | "none" | "bitcast" | "xor"
                        | "ptrtoaddr" => return,
                        "align" => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens();
                            } else {
                                self.i += 1;
                            }
                        }
                        _ => {
                            self.i += 1;
                            self.skip_parens();
                        }
                    }
                }
                Some(T::Str(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn zero(ctx: &mut Ctx, ty: &Ty) -> Val {
        match ty {
            Ty::Arr(..) | Ty::St(..) | Ty::Vec(..) => {
                let n = ty.nelem();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    v.push(Self::zero(ctx, ty.elem(i)));
                }
                Val::A(Rc::new(v))
            }
            Ty::Void | Ty::Other => Val::C(0),
            _ => mkc(ctx, 0, ty.bits()),
        }
    }
    fn global(&self, n: &str) -> u64 {
        *self.gaddr.get(n).unwrap_or_else(|| panic!("unknown global @{n}"))
    }
    fn cst(&mut self, ctx: &mut Ctx, ty: &Ty) -> Val {
        match self.next() {
            T::Int(s) => match ty {
                Ty::F32 | Ty::F64 => Val::C(0),
                _ => mkc(ctx, parse_int(&s), ty.bits()),
            },
            T::Global(n) => Val::C(self.global(&n)),
            T::Str(v) => Val::A(Rc::new(v.iter().map(|b| Val::C(*b as u64)).collect())),
            T::Word(w) => match w.as_str() {
                "true" => Val::C(1),
                "false" => Val::C(0),
                "null" | "none" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" => Self::zero(ctx, ty),
                "splat" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.cst(ctx, &t);
                    self.exp(')');
                    Val::A(Rc::new(vec![v; ty.nelem()]))
                }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "ptrtoaddr" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.cst(ctx, &t);
                    assert!(self.eat_w("to"));
                    let to = self.ty();
                    self.exp(')');
                    match v {
                        Val::C(k) => mkc(ctx, k as u128, to.bits()),
                        v => v,
                    }
                }
                "sub" | "add" | "xor" => {
                    while matches!(self.peek(), Some(T::Word(_))) {
                        self.i += 1;
                    }
                    self.exp('(');
                    let t = self.ty();
                    let a = self.cst(ctx, &t);
                    self.exp(',');
                    let t2 = self.ty();
                    let b = self.cst(ctx, &t2);
                    self.exp(')');
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => {
                            let r = match w.as_str() {
                                "sub" => a.wrapping_sub(b),
                                "add" => a.wrapping_add(b),
                                _ => a ^ b,
                            };
                            mkc(ctx, r as u128, t.bits())
                        }
                        _ => panic!("const expr"),
                    }
                }
                "getelementptr" => {
                    loop {
                        match self.peek() {
                            Some(T::Word(w)) if !self.is_ty() => {
                                let _ = w;
                                self.i += 1;
                                if self.is_p('(') && !matches!(self.t.get(self.i - 1), Some(T::Word(x)) if x=="inbounds" || x=="nuw" || x=="nusw" || x=="getelementptr") {
                                    self.skip_parens();
                                }
                            }
                            _ => break,
                        }
                    }
                    self.exp('(');
                    let sty = self.ty();
                    self.exp(',');
                    let pt = self.ty();
                    let base = match self.cst(ctx, &pt) {
                        Val::C(k) => k,
                        _ => panic!(),
                    };
                    let mut cur = sty;
                    let mut off = base;
                    let mut first = true;
                    while self.eat_p(',') {
                        let it = self.ty();
                        let v = match self.cst(ctx, &it) {
                            Val::C(k) => k,
                            _ => panic!(),
                        };
                        let v = if it.bits() < 64 { ((v << (64 - it.bits())) as i64 >> (64 - it.bits())) as u64 } else { v };
                        if first {
                            off = off.wrapping_add(v.wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            off = off.wrapping_add(match &cur {
                                Ty::St(..) => cur.field_off(v as usize),
                                Ty::Arr(_, e) | Ty::Vec(_, e) => v.wrapping_mul(e.size()),
                                _ => panic!(),
                            });
                            cur = cur.elem(v as usize).clone();
                        }
                    }
                    self.exp(')');
                    Val::C(off)
                }
                _ => panic!("constant {w} in {:?}", &self.t[..self.t.len().min(40)]),
            },
            T::P('[') => {
                let mut v = vec![];
                if !self.eat_p(']') {
                    loop {
                        let t = self.ty();
                        v.push(self.cst(ctx, &t));
                        if !self.eat_p(',') {
                            break;
                        }
                    }
                    self.exp(']');
                }
                Val::A(Rc::new(v))
            }
            T::P('{') => {
                let mut v = vec![];
                if !self.eat_p('}') {
                    loop {
                        let t = self.ty();
                        v.push(self.cst(ctx, &t));
                        if !self.eat_p(',') {
                            break;
                        }
                    }
                    self.exp('}');
                }
                Val::A(Rc::new(v))
            }
            T::P('<') => {
                let br = self.eat_p('{');
                let mut v = vec![];
                if !self.is_p('}') && !self.is_p('>') {
                    loop {
                        let t = self.ty();
                        v.push(self.cst(ctx, &t));
                        if !self.eat_p(',') {
                            break;
                        }
                    }
                }
                if br {
                    self.exp('}');
                }
                self.exp('>');
                Val::A(Rc::new(v))
            }
            t => panic!("const {t:?} in {:?}", &self.t[..self.t.len().min(40)]),
        }
    }
}

fn write_const(ctx: &Ctx, v: &Val, ty: &Ty, out: &mut [u8]) {
    match v {
        Val::C(k) => {
            let n = ty.size() as usize;
            for i in 0..n.min(8) {
                out[i] = (k >> (8 * i)) as u8;
            }
        }
        Val::S(e) => {
            let k = ctx.as_const(*e).unwrap();
            for i in 0..ty.size() as usize {
                out[i] = if i < 16 { (k >> (8 * i)) as u8 } else { 0 };
            }
        }
        Val::A(vs) => {
            for (i, x) in vs.iter().enumerate() {
                let o = ty.field_off(i) as usize;
                write_const(ctx, x, ty.elem(i), &mut out[o..]);
            }
        }
    }
}

pub const FUNC_BASE: u64 = 0x10_0000;
pub const GLOBAL_BASE: u64 = 0x100_0000;

fn global_name(line: &str) -> (String, usize) {
    // line starts with '@'
    let b = line.as_bytes();
    if b[1] == b'"' {
        let e = line[2..].find('"').unwrap() + 2;
        (line[2..e].to_string(), e + 1)
    } else {
        let mut k = 1;
        while k < b.len() && is_id(b[k]) {
            k += 1;
        }
        (line[1..k].to_string(), k)
    }
}

fn hook_for(name: &str, has_body: bool) -> Hook {
    if name.starts_with("llvm.") {
        return Hook::Intrin;
    }
    if name.contains("4core9panicking")
        || name.contains("17rust_begin_unwind")
        || name.contains("18handle_alloc_error")
        || name.contains("7raw_vec12handle_error")
        || name.contains("7raw_vec17capacity_overflow")
        || name.contains("4core6option13expect_failed")
        || name.contains("4core6option13unwrap_failed")
    {
        return Hook::Panic;
    }
    if name == "abort" || name.contains("14abort_internal") || name.contains("7process5abort") {
        return Hook::Abort;
    }
    if !has_body || name.starts_with("v_") || matches!(name, "memcmp" | "bcmp" | "memcpy" | "memmove" | "memset" | "strlen") {
        return Hook::Ext;
    }
    Hook::None
}

impl Module {
    pub fn load(text: String, ctx: &mut Ctx) -> Module {
        let mut m = Module {
            text: String::new(),
            funcs: vec![],
            fidx: Default::default(),
            faddr: Default::default(),
            globals: vec![],
            gaddr: Default::default(),
            named: Default::default(),
        };
        // pass 1: names
        let mut pos = 0;
        let mut glines: Vec<(String, usize, usize)> = vec![];
        let mut aliases: Vec<(String, String)> = vec![];
        let bytes = text.as_bytes();
        while pos < bytes.len() {
            let eol = text[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &text[pos..eol];
            if line.starts_with('@') {
                let (n, k) = global_name(line);
                if line[k..].contains(" alias ") && !line[k..].contains("constant ") {
                    aliases.push((n, line[k..].to_string()));
                } else {
                    glines.push((n, pos + k, eol));
                }
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let (n, _) = global_name(&line[at..]);
                let is_def = line.starts_with("define ");
                let mut end = eol;
                if is_def {
                    end = text[pos..].find("\n}").map(|x| pos + x).unwrap();
                }
                let id = m.funcs.len() as u32;
                let addr = FUNC_BASE + id as u64 * 16;
                m.funcs.push(FuncDecl {
                    hook: hook_for(&n, is_def),
                    name: n.clone(),
                    addr,
                    body: if is_def { Some((pos, end)) } else { None },
                    parsed: None,
                });
                m.fidx.insert(n.clone(), id);
                m.faddr.insert(addr, id);
                m.gaddr.insert(n, addr);
                pos = end;
                let e2 = text[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
                pos = e2 + 1;
                if is_def {
                    // skip the closing brace line
                    let e3 = text[pos.min(bytes.len())..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
                    pos = e3 + 1;
                }
                continue;
            } else if line.starts_with('%') && line.contains("= type ") {
                let toks = lex(line);
                let nm = match &toks[0] {
                    T::Local(n) => n.clone(),
                    _ => panic!(),
                };
                let named = std::mem::take(&mut m.named);
                let mut p = Ps { t: &toks, i: 3, gaddr: &m.gaddr, named: &named };
                let ty = if p.is_ty() { p.ty() } else { Ty::Other };
                m.named = named;
                m.named.insert(nm, ty);
            }
            pos = eol + 1;
        }
        // pass 2: global types / addresses
        let mut toks_all = vec![];
        let mut addr = GLOBAL_BASE;
        for (n, a, b) in &glines {
            let toks = lex(&text[*a..*b]);
            // find "global" | "constant"
            let mut i = 0;
            while !matches!(&toks[i], T::Word(w) if w=="global" || w=="constant") {
                i += 1;
            }
            let external = toks[..i].iter().any(|t| matches!(t, T::Word(w) if w=="external" || w=="extern_weak"));
            let constant = matches!(&toks[i], T::Word(w) if w=="constant");
            let (ty, at) = {
                let mut p = Ps { t: &toks, i: i + 1, gaddr: &m.gaddr, named: &m.named };
                let ty = p.ty();
                (ty, p.i)
            };
            let size = ty.size();
            let mut al = ty.align().max(16);
            for (j, t) in toks.iter().enumerate() {
                if matches!(t, T::Word(w) if w=="align") {
                    if let Some(T::Int(s)) = toks.get(j + 1) {
                        if let Ok(v) = s.parse::<u64>() {
                            al = al.max(v);
                        }
                    }
                }
            }
            addr = (addr + al - 1) / al * al;
            m.gaddr.insert(n.clone(), addr);
            m.globals.push(Global { name: n.clone(), addr, ty, constant, data: vec![], external });
            addr += size + 32;
            toks_all.push((toks, at));
        }
        for (n, rest) in aliases {
            let toks = lex(&rest);
            if let Some(T::Global(t)) = toks.iter().rev().find(|t| matches!(t, T::Global(_))) {
                if let Some(a) = m.gaddr.get(t).copied() {
                    m.gaddr.insert(n.clone(), a);
                    if let Some(f) = m.fidx.get(t).copied() {
                        m.fidx.insert(n, f);
                    }
                }
            }
        }
        for (gi, (toks, at)) in toks_all.iter().enumerate() {
            let ty = m.globals[gi].ty.clone();
            let mut data = vec![0u8; ty.size() as usize];
            if !m.globals[gi].external && *at < toks.len() {
                let mut p = Ps { t: toks, i: *at, gaddr: &m.gaddr, named: &m.named };
                let v = p.cst(ctx, &ty);
                write_const(ctx, &v, &ty, &mut data);
            }
            m.globals[gi].data = data;
        }
        m.text = text;
        m
    }

    pub fn func(&mut self, id: u32, ctx: &mut Ctx) -> Rc<Func> {
        if let Some(f) = &self.funcs[id as usize].parsed {
            return f.clone();
        }
        let (a, b) = self.funcs[id as usize].body.unwrap();
        let f = self.parse_func(&self.text[a..b], &self.funcs[id as usize].name, ctx);
        let f = Rc::new(f);
        self.funcs[id as usize].parsed = Some(f.clone());
        f
    }

    fn parse_func(&self, text: &str, name: &str, ctx: &mut Ctx) -> Func {
        let mut lines = text.lines();
        let head = lex(lines.next().unwrap());
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        let mut unnamed = 0usize;
        // parameters: find '(' following the @name
        let mut i = 0;
        while !matches!(&head[i], T::Global(_)) {
            i += 1;
        }
        {
            let mut p = Ps { t: &head, i: i + 1, gaddr: &self.gaddr, named: &self.named };
            p.exp('(');
            while !p.is_p(')') {
                if p.is_p('.') || matches!(p.peek(), Some(T::Word(w)) if w.starts_with("...")) {
                    p.i += 1;
                    continue;
                }
                p.ty();
                p.attrs();
                if let Some(T::Local(n)) = p.peek() {
                    let id = regs.len() as u32;
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    regs.insert(n.clone(), id);
                    params.push(id);
                    p.i += 1;
                } else {
                    let id = regs.len() as u32;
                    regs.insert(format!("{unnamed}"), id);
                    unnamed += 1;
                    params.push(id);
                }
                if !p.eat_p(',') {
                    break;
                }
            }
        }
        // logical lines
        let mut logical: Vec<(bool, String)> = vec![]; // (is_label, text)
        for l in lines {
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let e = if l.starts_with('"') { l[1..].find('"').unwrap() + 1 } else { l.find(':').unwrap() };
                let n = if l.starts_with('"') { l[1..e].to_string() } else { l[..e].to_string() };
                logical.push((true, n));
                continue;
            }
            let b = l.as_bytes();
            if b.len() > 2 && b[2] != b' ' && b[2] != b']' {
                if b[2] == b'#' || b[2] == b';' {
                    continue; // debug records / comments
                }
                logical.push((false, l.to_string()));
            } else if let Some(last) = logical.last_mut() {
                last.1.push(' ');
                last.1.push_str(l);
            }
        }
        // blocks
        let mut bnames: HashMap<String, u32> = HashMap::new();
        let mut groups: Vec<Vec<&str>> = vec![];
        if !logical.is_empty() && !logical[0].0 {
            bnames.insert(format!("{unnamed}"), 0);
            groups.push(vec![]);
        }
        for (lab, s) in &logical {
            if *lab {
                bnames.insert(s.clone(), groups.len() as u32);
                groups.push(vec![]);
            } else {
                groups.last_mut().unwrap().push(s);
            }
        }
        let mut fp = FnP { regs, bn: &bnames, m: self };
        let mut blocks = vec![];
        let mut ninst = 0;
        for g in groups {
            let mut b = Block::default();
            for l in g {
                ninst += 1;
                let toks = lex(l);
                fp.inst(ctx, &toks, &mut b);
            }
            blocks.push(b);
        }
        Func { name: name.to_string(), nregs: fp.regs.len() as u32, params, blocks, ninst }
    }
}

struct FnP<'a> {
    regs: HashMap<String, u32>,
    bn: &'a HashMap<String, u32>,
    m: &'a Module,
}

impl<'a> FnP<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let id = self.regs.len() as u32;
        self.regs.insert(n.to_string(), id);
        id
    }
    fn opd(&mut self, ctx: &mut Ctx, p: &mut Ps, ty: &Ty) -> Opd {
        if let Some(T::Local(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            return Opd::R(self.reg(&n));
        }
        Opd::K(p.cst(ctx, ty))
    }
    fn topd(&mut self, ctx: &mut Ctx, p: &mut Ps) -> (Opd, Ty) {
        let t = p.ty();
        p.attrs();
        let o = self.opd(ctx, p, &t);
        (o, t)
    }
    fn label(&mut self, p: &mut Ps) -> u32 {
        let w = p.word();
        assert_eq!(w, "label");
        match p.next() {
            T::Local(n) => *self.bn.get(&n).unwrap_or_else(|| panic!("label {n}")),
            t => panic!("{t:?}"),
        }
    }
    fn inst(&mut self, ctx: &mut Ctx, toks: &[T], b: &mut Block) {
        let m = self.m;
        let mut p = Ps { t: toks, i: 0, gaddr: &m.gaddr, named: &m.named };
        let mut d = None;
        if let Some(T::Local(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            p.exp('=');
            d = Some(self.reg(&n));
        }
        let mut op = p.word();
        while matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = p.word();
        }
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while !p.is_ty() {
                    p.i += 1;
                }
                let (a, t) = self.topd(ctx, &mut p);
                p.exp(',');
                let bb = self.opd(ctx, &mut p, &t);
                let (w, lanes) = match &t {
                    Ty::Vec(n, e) => (e.bits(), *n),
                    _ => (t.bits(), 0),
                };
                let bop = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "urem" => BinOp::URem,
                    "sdiv" => BinOp::SDiv,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                I::Bin { op: bop, w, lanes, d: d.unwrap(), a, b: bb }
            }
            "icmp" => {
                let mut pr = p.word();
                if pr == "samesign" {
                    pr = p.word();
                }
                let (a, t) = self.topd(ctx, &mut p);
                p.exp(',');
                let bb = self.opd(ctx, &mut p, &t);
                let (w, lanes) = match &t {
                    Ty::Vec(n, e) => (e.bits(), *n),
                    _ => (t.bits(), 0),
                };
                let pd = match pr.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("{pr}"),
                };
                I::Icmp { p: pd, w, lanes, d: d.unwrap(), a, b: bb }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while !p.is_ty() {
                    p.i += 1;
                }
                let (a, from) = self.topd(ctx, &mut p);
                assert!(p.eat_w("to"));
                let to = p.ty();
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" => Cast::Bit,
                    _ => {
                        if from.bits() < to.bits() {
                            Cast::ZExt
                        } else if from.bits() > to.bits() {
                            Cast::Trunc
                        } else {
                            Cast::Bit
                        }
                    }
                };
                I::Cast { k, from, to, d: d.unwrap(), a }
            }
            "load" => {
                while !p.is_ty() {
                    p.i += 1;
                }
                let ty = p.ty();
                p.exp(',');
                let (a, _) = self.topd(ctx, &mut p);
                I::Load { ty, d: d.unwrap(), p: a }
            }
            "store" => {
                while !p.is_ty() {
                    p.i += 1;
                }
                let (v, ty) = self.topd(ctx, &mut p);
                p.exp(',');
                let (a, _) = self.topd(ctx, &mut p);
                I::Store { ty, v, p: a }
            }
            "getelementptr" => {
                while !p.is_ty() {
                    p.i += 1;
                    p.skip_parens();
                }
                let sty = p.ty();
                p.exp(',');
                let (base, _) = self.topd(ctx, &mut p);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = sty;
                let mut first = true;
                while p.is_p(',') && !matches!(p.t.get(p.i + 1), Some(T::Meta)) {
                    p.exp(',');
                    let (o, it) = self.topd(ctx, &mut p);
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else if let Ty::St(..) = cur {
                        let k = match &o {
                            Opd::K(Val::C(k)) => *k,
                            _ => panic!(),
                        };
                        off = off.wrapping_add(cur.field_off(k as usize));
                        cur = cur.elem(k as usize).clone();
                        continue;
                    } else {
                        let e = cur.elem(0).clone();
                        scale = e.size();
                        cur = e;
                    }
                    match &o {
                        Opd::K(Val::C(k)) => {
                            let w = it.bits();
                            let k = if w < 64 { (((*k) << (64 - w)) as i64 >> (64 - w)) as u64 } else { *k };
                            off = off.wrapping_add(k.wrapping_mul(scale));
                        }
                        _ => idx.push((o, it.bits(), scale)),
                    }
                }
                I::Gep { d: d.unwrap(), base, off, idx }
            }
            "select" => {
                while !p.is_ty() {
                    p.i += 1;
                }
                let (c, ct) = self.topd(ctx, &mut p);
                p.exp(',');
                let (a, ty) = self.topd(ctx, &mut p);
                p.exp(',');
                let (bb, _) = self.topd(ctx, &mut p);
                let lanes = match ct {
                    Ty::Vec(n, _) => n,
                    _ => 0,
                };
                I::Select { ty, lanes, d: d.unwrap(), c, a, b: bb }
            }
            "phi" => {
                while !p.is_ty() {
                    p.i += 1;
                }
                let t = p.ty();
                let mut inc = vec![];
                loop {
                    p.exp('[');
                    let v = self.opd(ctx, &mut p, &t);
                    p.exp(',');
                    let bl = match p.next() {
                        T::Local(n) => self.bn[&n],
                        t => panic!("{t:?}"),
                    };
                    p.exp(']');
                    inc.push((bl, v));
                    if !(p.is_p(',') && matches!(p.t.get(p.i + 1), Some(T::P('[')))) {
                        break;
                    }
                    p.exp(',');
                }
                b.phis.push(Phi { d: d.unwrap(), inc });
                return;
            }
            "br" => {
                if p.is_w("label") {
                    I::Br(self.label(&mut p))
                } else {
                    let (c, _) = self.topd(ctx, &mut p);
                    p.exp(',');
                    let t = self.label(&mut p);
                    p.exp(',');
                    let f = self.label(&mut p);
                    I::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (v, t) = self.topd(ctx, &mut p);
                p.exp(',');
                let def = self.label(&mut p);
                p.exp('[');
                let mut cases = vec![];
                while !p.eat_p(']') {
                    let ct = p.ty();
                    let k = match p.next() {
                        T::Int(s) => parse_int(&s) & mask(ct.bits()),
                        T::Word(w) if w == "true" => 1,
                        T::Word(w) if w == "false" => 0,
                        t => panic!("{t:?}"),
                    };
                    p.exp(',');
                    let l = self.label(&mut p);
                    cases.push((k, l));
                }
                I::Switch { w: t.bits(), v, def, cases }
            }
            "ret" => {
                if p.is_w("void") {
                    I::Ret(None)
                } else {
                    let (v, _) = self.topd(ctx, &mut p);
                    I::Ret(Some(v))
                }
            }
            "call" | "invoke" => {
                // flags, cconv, ret attrs
                p.attrs();
                while !p.is_ty() {
                    p.i += 1;
                    p.skip_parens();
                    p.attrs();
                }
                let ty = p.ty();
                // varargs function type
                if p.is_p('(') {
                    p.skip_parens();
                }
                p.attrs();
                let f = match p.next() {
                    T::Global(n) => match m.fidx.get(&n) {
                        Some(f) => Callee::Func(*f),
                        None => panic!("call @{n}"),
                    },
                    T::Local(n) => Callee::Ind(Opd::R(self.reg(&n))),
                    T::Word(w) if w == "asm" => {
                        while !p.is_p('(') {
                            p.i += 1;
                        }
                        Callee::Asm
                    }
                    T::Word(w) if w == "inttoptr" => {
                        p.i -= 1;
                        Callee::Ind(Opd::K(p.cst(ctx, &Ty::Ptr)))
                    }
                    T::Word(w) if w == "poison" || w == "undef" || w == "null" => {
                        Callee::Ind(Opd::K(Val::C(0)))
                    }
                    t => panic!("callee {t:?} in {toks:?}"),
                };
                p.exp('(');
                let mut args = vec![];
                while !p.is_p(')') {
                    if p.is_w("metadata") {
                        // skip metadata argument
                        p.i += 1;
                        let mut depth = 0;
                        loop {
                            match p.peek() {
                                Some(T::P('(')) => depth += 1,
                                Some(T::P(')')) if depth == 0 => break,
                                Some(T::P(')')) => depth -= 1,
                                Some(T::P(',')) if depth == 0 => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                        p.eat_p(',');
                        continue;
                    }
                    let a = self.topd(ctx, &mut p);
                    args.push(a);
                    if !p.eat_p(',') {
                        break;
                    }
                }
                p.exp(')');
                let mut normal = None;
                if op == "invoke" {
                    while !p.is_w("to") {
                        p.i += 1;
                        p.skip_parens();
                    }
                    p.i += 1;
                    normal = Some(self.label(&mut p));
                }
                I::Call { d, ty, f, args, normal }
            }
            "extractvalue" => {
                let (a, _) = self.topd(ctx, &mut p);
                let mut idx = vec![];
                while p.eat_p(',') {
                    match p.peek() {
                        Some(T::Int(s)) => idx.push(s.parse().unwrap()),
                        _ => break,
                    }
                    p.i += 1;
                }
                I::ExtractValue { d: d.unwrap(), a, idx }
            }
            "insertvalue" => {
                let (a, _) = self.topd(ctx, &mut p);
                p.exp(',');
                let (v, _) = self.topd(ctx, &mut p);
                let mut idx = vec![];
                while p.eat_p(',') {
                    match p.peek() {
                        Some(T::Int(s)) => idx.push(s.parse().unwrap()),
                        _ => break,
                    }
                    p.i += 1;
                }
                I::InsertValue { d: d.unwrap(), a, v, idx }
            }
            "extractelement" => {
                let (a, _) = self.topd(ctx, &mut p);
                p.exp(',');
                let (i, _) = self.topd(ctx, &mut p);
                I::ExtractElem { d: d.unwrap(), a, i }
            }
            "insertelement" => {
                let (a, _) = self.topd(ctx, &mut p);
                p.exp(',');
                let (v, _) = self.topd(ctx, &mut p);
                p.exp(',');
                let (i, _) = self.topd(ctx, &mut p);
                I::InsertElem { d: d.unwrap(), a, v, i }
            }
            "shufflevector" => {
                let (a, t) = self.topd(ctx, &mut p);
                p.exp(',');
                let (bb, _) = self.topd(ctx, &mut p);
                p.exp(',');
                let mt = p.ty();
                let mv = p.cst(ctx, &mt);
                let ms = match mv {
                    Val::A(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(k) => *k as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => panic!(),
                };
                I::Shuffle { d: d.unwrap(), a, b: bb, m: ms, n: t.nelem() }
            }
            "alloca" => {
                p.eat_w("inalloca");
                let t = p.ty();
                let mut n = 1;
                let mut al = t.align();
                while p.eat_p(',') {
                    if p.eat_w("align") {
                        if let T::Int(s) = p.next() {
                            al = s.parse().unwrap();
                        }
                    } else if p.is_ty() {
                        let it = p.ty();
                        match self.opd(ctx, &mut p, &it) {
                            Opd::K(Val::C(k)) => n = k,
                            _ => panic!("dynamic alloca"),
                        }
                    } else {
                        break;
                    }
                }
                I::Alloca { d: d.unwrap(), size: t.size() * n, align: al }
            }
            "freeze" => {
                let (a, _) = self.topd(ctx, &mut p);
                I::Copy { d: d.unwrap(), a }
            }
            "fence" => I::Nop,
            "unreachable" => I::Unreachable,
            "atomicrmw" => {
                while !matches!(p.peek(), Some(T::Word(w)) if matches!(w.as_str(), "add"|"sub"|"xchg"|"and"|"or"|"xor"|"umax"|"umin"|"max"|"min"|"nand")) {
                    p.i += 1;
                }
                let o = p.word();
                let (pp, _) = self.topd(ctx, &mut p);
                p.exp(',');
                let (v, ty) = self.topd(ctx, &mut p);
                I::AtomicRmw { d: d.unwrap(), op: o, ty, p: pp, v }
            }
            "cmpxchg" => {
                while !p.is_ty() {
                    p.i += 1;
                }
                let (pp, _) = self.topd(ctx, &mut p);
                p.exp(',');
                let (c, ty) = self.topd(ctx, &mut p);
                p.exp(',');
                let (n, _) = self.topd(ctx, &mut p);
                I::CmpXchg { d: d.unwrap(), ty, p: pp, c, n }
            }
            _ => I::Unsupported(op.clone()),
        };
        b.insts.push(ins);
    }
}
