//! Parser for the subset of textual LLVM IR that rustc emits, plus the lowered form.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Vec(u64, Arc<Ty>),
    Label,
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16).max(1)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) }
            }
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    /// Allocation size in bytes.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for f in fs.iter() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vec(n, t) => {
                let bits = n * (t.width() as u64);
                ((bits + 7) / 8).next_power_of_two()
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i { return o; }
                    o += f.size();
                }
                panic!("field_off out of range")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off on scalar"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem on scalar"),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

/// Constant value.
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Agg(Vec<K>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    /// wide or aggregate constant (index into the function's pool)
    P(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, Zext, Sext, Copy }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Ind(Opd), Asm(String) }

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { dst: u32, size: u64, align: u64, n: Option<Opd> },
    Load { dst: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Bin { dst: u32, op: BinOp, w: u32, lanes: u32, a: Opd, b: Opd },
    Icmp { dst: u32, p: Pred, w: u32, lanes: u32, a: Opd, b: Opd },
    Cast { dst: u32, op: CastOp, fw: u32, tw: u32, lanes: u32, a: Opd },
    BitcastV { dst: u32, from: Ty, to: Ty, a: Opd },
    Select { dst: u32, w: u32, vec_cond: bool, ty: Ty, c: Opd, a: Opd, b: Opd },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { v: Opd, w: u32, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Call { dst: Option<u32>, callee: Callee, args: Vec<(Opd, Ty)>, ret: Ty, normal: Option<u32> },
    ExtractValue { dst: u32, a: Opd, path: Vec<u32> },
    InsertValue { dst: u32, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElement { dst: u32, a: Opd, i: Opd },
    InsertElement { dst: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Vec<u32>, n: u32 },
    AtomicRmw { dst: u32, op: String, w: u32, p: Opd, v: Opd },
    CmpXchg { dst: u32, w: u32, p: Opd, cmp: Opd, new: Opd },
    Nop,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub byval: Vec<Option<Ty>>,
    pub blocks: Vec<Block>,
    pub pool: Vec<(K, Ty)>,
    pub max_pool: u32,
}

pub struct FuncEntry {
    pub name: String,
    pub body: Option<(usize, usize)>,
    pub weak: bool,
    pub parsed: OnceLock<Result<Arc<Func>, String>>,
    pub addr: u64,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub init: Option<(usize, usize)>,
    pub external: bool,
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<FuncEntry>,
    pub func_by_name: HashMap<String, u32>,
    pub func_by_addr: HashMap<u64, u32>,
    pub globals: Vec<Global>,
    pub sym: HashMap<String, u64>,
    pub gbase: u64,
    pub gimage: Vec<u8>,
    /// aliases name -> target
    pub aliases: HashMap<String, String>,
}

pub const GBASE: u64 = 0x0010_0000;
pub const FBASE: u64 = 0x4000_0000;

type R<T> = Result<T, String>;

struct P<'a> {
    t: &'a [u8],
    i: usize,
    m: &'a HashMap<String, Ty>,
}

impl<'a> P<'a> {
    fn err<T>(&self, s: &str) -> R<T> {
        let a = self.i.min(self.t.len());
        let e = (a + 80).min(self.t.len());
        Err(format!("{} at '{}'", s, String::from_utf8_lossy(&self.t[a..e]).replace('\n', "\\n")))
    }
    /// Skip blanks (not newlines).
    fn ws(&mut self) {
        while self.i < self.t.len() && (self.t[self.i] == b' ' || self.t[self.i] == b'\t') { self.i += 1; }
    }
    fn wsnl(&mut self) {
        loop {
            while self.i < self.t.len() && matches!(self.t[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1; }
            if self.i < self.t.len() && self.t[self.i] == b';' { self.eol(); } else { return; }
        }
    }
    fn eol(&mut self) {
        while self.i < self.t.len() && self.t[self.i] != b'\n' { self.i += 1; }
    }
    fn peek(&self) -> u8 { if self.i < self.t.len() { self.t[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.peek() == c { self.i += 1; true } else { false }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) { Ok(()) } else { self.err(&format!("expected '{}'", c as char)) }
    }
    fn looking(&self, s: &str) -> bool { self.t[self.i..].starts_with(s.as_bytes()) }
    /// Eat a keyword (must be followed by a non-word char).
    fn kw(&mut self, s: &str) -> bool {
        self.ws();
        if self.looking(s) {
            let n = self.i + s.len();
            let c = if n < self.t.len() { self.t[n] } else { 0 };
            if !(c.is_ascii_alphanumeric() || c == b'_' || c == b'.') {
                self.i = n;
                return true;
            }
        }
        false
    }
    fn word(&mut self) -> String {
        self.ws();
        let s = self.i;
        while self.i < self.t.len() {
            let c = self.t[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' { self.i += 1; } else { break; }
        }
        String::from_utf8_lossy(&self.t[s..self.i]).into_owned()
    }
    fn peek_word(&mut self) -> String {
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    fn qstring(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut out = Vec::new();
        while self.peek() != b'"' {
            let c = self.peek();
            if c == b'\\' {
                let h = |x: u8| (x as char).to_digit(16);
                if self.t[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                    continue;
                }
                if let (Some(a), Some(b)) = (h(self.t[self.i + 1]), h(self.t[self.i + 2])) {
                    out.push((a * 16 + b) as u8);
                    self.i += 3;
                    continue;
                }
            }
            out.push(c);
            self.i += 1;
        }
        self.i += 1;
        out
    }
    /// Name after a sigil (% or @).
    fn name(&mut self) -> String {
        if self.peek() == b'"' {
            String::from_utf8_lossy(&self.qstring()).into_owned()
        } else {
            let s = self.i;
            while self.i < self.t.len() {
                let c = self.t[self.i];
                if c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') { self.i += 1; } else { break; }
            }
            String::from_utf8_lossy(&self.t[s..self.i]).into_owned()
        }
    }
    fn uint(&mut self) -> R<u64> {
        self.ws();
        let s = self.i;
        while self.peek().is_ascii_digit() { self.i += 1; }
        std::str::from_utf8(&self.t[s..self.i]).unwrap().parse().map_err(|_| "uint".to_string())
    }
    /// Skip a balanced (...) group; at '('.
    fn skip_parens(&mut self) {
        let mut d = 0;
        while self.i < self.t.len() {
            match self.t[self.i] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.qstring(); continue; }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn ty(&mut self) -> R<Ty> {
        self.ws();
        let c = self.peek();
        let t = match c {
            b'[' => {
                self.i += 1;
                let n = self.uint()?;
                self.ws();
                if !self.kw("x") { return self.err("expected x"); }
                let t = self.ty()?;
                self.expect(b']')?;
                Ty::Arr(n, Arc::new(t))
            }
            b'{' => {
                self.i += 1;
                let fs = self.tys(b'}')?;
                Ty::Struct(Arc::new(fs), false)
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.i += 1;
                    let fs = self.tys(b'}')?;
                    self.expect(b'>')?;
                    Ty::Struct(Arc::new(fs), true)
                } else {
                    let n = self.uint()?;
                    if !self.kw("x") { return self.err("expected x"); }
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    Ty::Vec(n, Arc::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                match self.m.get(&n) {
                    Some(t) => t.clone(),
                    None => return self.err(&format!("unknown type %{}", n)),
                }
            }
            _ => {
                let s = self.i;
                let w = self.word();
                if w == "ptr" {
                    if self.kw("addrspace") { self.ws(); self.skip_parens(); }
                    Ty::Ptr
                } else if w == "void" { Ty::Void }
                else if w == "float" { Ty::F32 }
                else if w == "double" { Ty::F64 }
                else if w == "label" { Ty::Label }
                else if w == "metadata" { Ty::Meta }
                else if w.starts_with('i') && w[1..].parse::<u32>().is_ok() { Ty::Int(w[1..].parse().unwrap()) }
                else { self.i = s; return self.err("type"); }
            }
        };
        Ok(t)
    }
    fn tys(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = Vec::new();
        self.ws();
        if self.eat(end) { return Ok(v); }
        loop {
            v.push(self.ty()?);
            self.ws();
            if self.eat(b',') { continue; }
            self.expect(end)?;
            return Ok(v);
        }
    }
    /// Skip parameter / return attributes.
    fn attrs(&mut self) {
        loop {
            self.ws();
            let s = self.i;
            let c = self.peek();
            if c == b'"' {
                self.qstring();
                if self.eat(b'=') { self.ws(); self.qstring(); }
                continue;
            }
            if !c.is_ascii_alphabetic() { return; }
            let w = self.word();
            match w.as_str() {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr"
                | "ptrtoint" | "c" | "splat" | "sub" | "add" | "xor" | "trunc" | "bitcast" | "asm" | "blockaddress"
                | "ptr" | "void" | "float" | "double" | "metadata" => { self.i = s; return; }
                "align" => { self.ws(); if self.peek() == b'(' { self.skip_parens(); } else { let _ = self.uint(); } continue; }
                "cc" => { let _ = self.uint(); continue; }
                _ => {}
            }
            if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()) { self.i = s; return; }
            if self.peek() == b'(' { self.skip_parens(); }
        }
    }
}

fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }

/// Resolve symbols: name -> address
struct Ctx<'a> {
    sym: &'a HashMap<String, u64>,
}

fn parse_int(p: &mut P, w: u32) -> R<u128> {
    p.ws();
    let neg = if p.peek() == b'-' { p.i += 1; true } else { false };
    let s = p.i;
    while p.peek().is_ascii_digit() { p.i += 1; }
    let v: u128 = std::str::from_utf8(&p.t[s..p.i]).unwrap().parse().map_err(|_| "int literal".to_string())?;
    Ok(if neg { v.wrapping_neg() } else { v } & mask(w))
}

fn zero(ty: &Ty) -> K {
    match ty {
        Ty::Arr(n, t) | Ty::Vec(n, t) => K::Agg((0..*n).map(|_| zero(t)).collect()),
        Ty::Struct(fs, _) => K::Agg(fs.iter().map(zero).collect()),
        _ => K::Int(0),
    }
}

fn constant(p: &mut P, cx: &Ctx, ty: &Ty) -> R<K> {
    p.ws();
    let c = p.peek();
    match c {
        b'@' => {
            p.i += 1;
            let n = p.name();
            match cx.sym.get(&n) {
                Some(a) => Ok(K::Int(*a as u128)),
                None => p.err(&format!("unknown symbol @{}", n)),
            }
        }
        b'-' | b'0'..=b'9' => {
            if matches!(ty, Ty::F32 | Ty::F64) {
                // hex float or decimal
                if p.looking("0x") {
                    p.i += 2;
                    let w = p.word();
                    let bits = u64::from_str_radix(&w, 16).map_err(|_| "hexfloat".to_string())?;
                    return Ok(K::Int(if *ty == Ty::F32 { (f64::from_bits(bits) as f32).to_bits() as u128 } else { bits as u128 }));
                }
                let s = p.i;
                while matches!(p.peek(), b'-' | b'+' | b'.' | b'e' | b'0'..=b'9') { p.i += 1; }
                let f: f64 = std::str::from_utf8(&p.t[s..p.i]).unwrap().parse().map_err(|_| "float".to_string())?;
                return Ok(K::Int(if *ty == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }));
            }
            Ok(K::Int(parse_int(p, ty.width())?))
        }
        b'[' => {
            p.i += 1;
            Ok(K::Agg(const_list(p, cx, b']')?))
        }
        b'{' => {
            p.i += 1;
            Ok(K::Agg(const_list(p, cx, b'}')?))
        }
        b'<' => {
            p.i += 1;
            p.ws();
            if p.peek() == b'{' {
                p.i += 1;
                let l = const_list(p, cx, b'}')?;
                p.expect(b'>')?;
                Ok(K::Agg(l))
            } else {
                Ok(K::Agg(const_list(p, cx, b'>')?))
            }
        }
        b'c' if p.looking("c\"") => {
            p.i += 1;
            let b = p.qstring();
            Ok(K::Agg(b.into_iter().map(|x| K::Int(x as u128)).collect()))
        }
        _ => {
            let w = p.word();
            match w.as_str() {
                "true" => Ok(K::Int(1)),
                "false" | "null" => Ok(K::Int(0)),
                "undef" | "poison" | "zeroinitializer" => Ok(zero(ty)),
                "none" => Ok(K::Int(0)),
                "splat" => {
                    p.expect(b'(')?;
                    let t = p.ty()?;
                    let v = constant(p, cx, &t)?;
                    p.expect(b')')?;
                    let n = match ty { Ty::Vec(n, _) => *n, _ => return p.err("splat") };
                    Ok(K::Agg((0..n).map(|_| v.clone()).collect()))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" => {
                    p.expect(b'(')?;
                    let t = p.ty()?;
                    let v = constant(p, cx, &t)?;
                    if !p.kw("to") { return p.err("expected to"); }
                    let t2 = p.ty()?;
                    p.expect(b')')?;
                    Ok(match v { K::Int(x) => K::Int(x & mask(t2.width())), o => o })
                }
                "getelementptr" => {
                    loop {
                        p.ws();
                        if p.peek() == b'(' { break; }
                        let s = p.i;
                        p.word();
                        if p.i == s { return p.err("const gep"); }
                        p.ws();
                        // inrange(...) attribute
                        if p.peek() == b'(' {
                            let prev = String::from_utf8_lossy(&p.t[s..p.i]).trim().to_string();
                            if prev == "inrange" { p.skip_parens(); } else { break; }
                        }
                    }
                    p.expect(b'(')?;
                    let t = p.ty()?;
                    p.expect(b',')?;
                    let _pt = p.ty()?;
                    let base = match constant(p, cx, &Ty::Ptr)? { K::Int(x) => x, _ => return p.err("gep base") };
                    let mut cur = t;
                    let mut off = 0i64;
                    let mut first = true;
                    while p.eat(b',') {
                        let it = p.ty()?;
                        let iv = match constant(p, cx, &it)? { K::Int(x) => sext(x, it.width()), _ => return p.err("gep idx") };
                        if first { off += iv * cur.size() as i64; first = false; }
                        else { off += cur.field_off(iv as usize) as i64; cur = cur.elem(iv as usize); }
                    }
                    p.expect(b')')?;
                    Ok(K::Int((base as u64).wrapping_add(off as u64) as u128))
                }
                "add" | "sub" | "xor" => {
                    while p.kw("nuw") || p.kw("nsw") {}
                    p.expect(b'(')?;
                    let t = p.ty()?;
                    let a = constant(p, cx, &t)?;
                    p.expect(b',')?;
                    let t2 = p.ty()?;
                    let b = constant(p, cx, &t2)?;
                    p.expect(b')')?;
                    match (a, b) {
                        (K::Int(a), K::Int(b)) => Ok(K::Int(match w.as_str() {
                            "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b,
                        } & mask(t.width()))),
                        _ => p.err("const arith"),
                    }
                }
                _ => p.err(&format!("constant '{}'", w)),
            }
        }
    }
}

fn sext(x: u128, w: u32) -> i64 {
    if w >= 64 { x as u64 as i64 } else { ((x as u64) << (64 - w)) as i64 >> (64 - w) }
}

fn const_list(p: &mut P, cx: &Ctx, end: u8) -> R<Vec<K>> {
    let mut v = Vec::new();
    p.ws();
    if p.eat(end) { return Ok(v); }
    loop {
        let t = p.ty()?;
        v.push(constant(p, cx, &t)?);
        if p.eat(b',') { continue; }
        p.expect(end)?;
        return Ok(v);
    }
}

pub fn write_const(out: &mut [u8], k: &K, ty: &Ty) {
    match (k, ty) {
        (K::Int(x), t) => {
            let n = ((t.width() + 7) / 8) as usize;
            for i in 0..n { out[i] = (x >> (8 * i)) as u8; }
        }
        (K::Agg(v), t) => {
            for (i, e) in v.iter().enumerate() {
                let o = t.field_off(i) as usize;
                let et = t.elem(i);
                write_const(&mut out[o..], e, &et);
            }
        }
    }
}

pub fn load_module(text: String) -> R<Module> {
    let bytes = text.as_bytes();
    let mut types: HashMap<String, Ty> = HashMap::new();
    let mut funcs: Vec<FuncEntry> = Vec::new();
    let mut globals: Vec<Global> = Vec::new();
    let mut aliases = HashMap::new();
    let mut pos = 0usize;
    let n = bytes.len();
    while pos < n {
        let e = bytes[pos..].iter().position(|&c| c == b'\n').map(|x| pos + x).unwrap_or(n);
        let line = &bytes[pos..e];
        if line.starts_with(b"define ") || line.starts_with(b"declare ") {
            let at = line.iter().position(|&c| c == b'@').ok_or("define without @")?;
            let mut p = P { t: bytes, i: pos + at + 1, m: &types };
            let name = p.name();
            let addr = FBASE + 16 * funcs.len() as u64;
            if line.starts_with(b"define ") {
                // find the closing brace line
                let mut q = e + 1;
                loop {
                    let e2 = bytes[q..].iter().position(|&c| c == b'\n').map(|x| q + x).unwrap_or(n);
                    if &bytes[q..e2] == b"}" { break; }
                    if e2 >= n { return Err("unterminated define".into()); }
                    q = e2 + 1;
                }
                funcs.push(FuncEntry { name, body: Some((pos, q)), weak: false, parsed: OnceLock::new(), addr });
                pos = q + 2;
                continue;
            } else {
                funcs.push(FuncEntry { name, body: None, weak: line.windows(11).any(|w| w == b"extern_weak"), parsed: OnceLock::new(), addr });
            }
        } else if line.starts_with(b"%") {
            let mut p = P { t: bytes, i: pos + 1, m: &types };
            let name = p.name();
            p.ws();
            p.expect(b'=')?;
            if !p.kw("type") { return p.err("type decl"); }
            p.ws();
            if !p.looking("opaque") {
                let t = p.ty()?;
                types.insert(name, t);
            }
        } else if line.starts_with(b"@") {
            let mut p = P { t: bytes, i: pos + 1, m: &types };
            let name = p.name();
            p.expect(b'=')?;
            let mut external = false;
            let mut constant = false;
            let mut is_alias = false;
            loop {
                p.ws();
                let w = p.word();
                match w.as_str() {
                    "external" | "extern_weak" => external = true,
                    "global" => break,
                    "constant" => { constant = true; break; }
                    "alias" | "ifunc" => { is_alias = true; break; }
                    "" => return p.err("global"),
                    _ => {
                        if p.peek() == b'(' { p.skip_parens(); }
                    }
                }
            }
            let ty = p.ty()?;
            if is_alias {
                p.expect(b',')?;
                let _ = p.ty()?;
                p.ws();
                if p.peek() == b'@' { p.i += 1; let t = p.name(); aliases.insert(name, t); }
            } else {
                p.ws();
                let is = p.i;
                let init = if external { None } else { Some((is, e)) };
                globals.push(Global { name, size: ty.size(), ty, addr: 0, constant, init, external });
            }
        }
        pos = e + 1;
    }
    // addresses
    let mut a = GBASE;
    let mut sym = HashMap::new();
    for g in globals.iter_mut() {
        if g.external && g.name != "environ" { g.addr = 0; sym.insert(g.name.clone(), 0); continue; }
        a = (a + 15) / 16 * 16;
        g.addr = a;
        a += g.size.max(1) + 16; // guard gap
        sym.insert(g.name.clone(), g.addr);
    }
    let mut func_by_name = HashMap::new();
    let mut func_by_addr = HashMap::new();
    for (i, f) in funcs.iter().enumerate() {
        // extern_weak functions resolve to null unless defined
        let mut addr = f.addr;
        if f.body.is_none() && f.weak { addr = 0; }
        sym.insert(f.name.clone(), addr);
        func_by_name.insert(f.name.clone(), i as u32);
        func_by_addr.insert(f.addr, i as u32);
    }
    for (n, t) in aliases.iter() { if let Some(x) = sym.get(t).copied() { sym.insert(n.clone(), x); } }
    let mut gimage = vec![0u8; (a - GBASE) as usize];
    {
        let cx = Ctx { sym: &sym };
        for g in globals.iter() {
            if let Some((s, _)) = g.init {
                let mut p = P { t: bytes, i: s, m: &types };
                let k = constant(&mut p, &cx, &g.ty).map_err(|e| format!("global @{}: {}", g.name, e))?;
                let o = (g.addr - GBASE) as usize;
                write_const(&mut gimage[o..o + g.size as usize], &k, &g.ty);
            }
        }
    }
    Ok(Module { text, types, funcs, func_by_name, func_by_addr, globals, sym, gbase: GBASE, gimage, aliases })
}

struct FB<'a> {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nblocks: u32,
    pool: Vec<(K, Ty)>,
    cx: Ctx<'a>,
    fname: &'a HashMap<String, u32>,
    aliases: &'a HashMap<String, String>,
}

impl<'a> FB<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) { return *r; }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) { return *r; }
        let r = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, p: &mut P, ty: &Ty) -> R<Opd> {
        p.ws();
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Ok(Opd::R(self.reg(&n)));
        }
        let k = constant(p, &self.cx, ty)?;
        match k {
            K::Int(x) if ty.width() <= 64 => Ok(Opd::C(x as u64)),
            k => {
                self.pool.push((k, ty.clone()));
                Ok(Opd::P(self.pool.len() as u32 - 1))
            }
        }
    }
    fn tyopd(&mut self, p: &mut P) -> R<(Opd, Ty)> {
        let t = p.ty()?;
        p.attrs();
        let o = self.opd(p, &t)?;
        Ok((o, t))
    }
    fn label(&mut self, p: &mut P) -> R<u32> {
        if !p.kw("label") { return p.err("label"); }
        p.ws();
        p.expect(b'%')?;
        let n = p.name();
        Ok(self.block(&n))
    }
}

pub fn get_func(m: &Module, idx: u32) -> R<Arc<Func>> {
    let fe = &m.funcs[idx as usize];
    fe.parsed.get_or_init(|| parse_func(m, fe).map(Arc::new)).clone()
}

fn parse_func(m: &Module, fe: &FuncEntry) -> R<Func> {
    let (s, e) = fe.body.ok_or_else(|| format!("no body for {}", fe.name))?;
    let bytes = &m.text.as_bytes()[..e];
    let at = bytes[s..].iter().position(|&c| c == b'@').unwrap() + s;
    let mut p = P { t: bytes, i: at + 1, m: &m.types };
    let _ = p.name();
    let mut fb = FB {
        regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0, pool: Vec::new(),
        cx: Ctx { sym: &m.sym }, fname: &m.func_by_name, aliases: &m.aliases,
    };
    p.expect(b'(')?;
    let mut params = Vec::new();
    let mut byval = Vec::new();
    let mut unnamed = 0;
    p.ws();
    if !p.eat(b')') {
        loop {
            p.ws();
            if p.looking("...") { p.i += 3; p.expect(b')')?; break; }
            let _t = p.ty()?;
            let as0 = p.i;
            p.attrs();
            let attr = String::from_utf8_lossy(&p.t[as0..p.i]).into_owned();
            let bv = if attr.contains("byval(") {
                let k = as0 + attr.find("byval(").unwrap() + 6;
                let mut q = P { t: bytes, i: k, m: &m.types };
                Some(q.ty()?)
            } else { None };
            byval.push(bv);
            p.ws();
            if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                params.push(fb.reg(&n));
            } else {
                params.push(fb.reg(&format!("{}", unnamed)));
                unnamed += 1;
            }
            if p.eat(b',') { continue; }
            p.expect(b')')?;
            break;
        }
    }
    // to '{' at end of line
    p.eol();
    let mut blocks: Vec<Block> = Vec::new();
    let mut cur: Option<u32> = None;
    loop {
        p.wsnl();
        if p.i >= e { break; }
        // label?
        let ls = p.i;
        let lab = if p.peek() == b'"' {
            let n = p.qstring();
            if p.peek() == b':' { Some(String::from_utf8_lossy(&n).into_owned()) } else { p.i = ls; None }
        } else {
            let n = p.name();
            if !n.is_empty() && p.peek() == b':' { Some(n) } else { p.i = ls; None }
        };
        if let Some(l) = lab {
            let b = fb.block(&l);
            while blocks.len() <= b as usize { blocks.push(Block::default()); }
            // entry must be 0
            if cur.is_none() && b != 0 { return Err("entry block is not first".into()); }
            cur = Some(b);
            p.eol();
            continue;
        }
        if cur.is_none() {
            let b = fb.block(&format!("{}", unnamed));
            while blocks.len() <= b as usize { blocks.push(Block::default()); }
            cur = Some(b);
        }
        let start = p.i;
        let r = parse_ins(&mut p, &mut fb);
        let cb = cur.unwrap() as usize;
        while blocks.len() < fb.nblocks as usize { blocks.push(Block::default()); }
        match r {
            Ok(PI::Ins(i)) => blocks[cb].ins.push(i),
            Ok(PI::Phi(d, v)) => blocks[cb].phis.push((d, v)),
            Ok(PI::None) => {}
            Err(err) => {
                let mut q = P { t: bytes, i: start, m: &m.types };
                q.eol();
                let l = String::from_utf8_lossy(&bytes[start..q.i]).into_owned();
                blocks[cb].ins.push(Ins::Unsupported(format!("{} in `{}`", err, l)));
                p.i = p.i.max(q.i);
            }
        }
        p.eol();
    }
    let nregs = fb.regs.len() as u32;
    Ok(Func { name: fe.name.clone(), nregs, params, byval, blocks, pool: fb.pool, max_pool: 0 })
}

enum PI { Ins(Ins), Phi(u32, Vec<(u32, Opd)>), None }

fn lanes(t: &Ty) -> (u32, u32) {
    match t { Ty::Vec(n, e) => (e.width(), *n as u32), t => (t.width(), 0) }
}

fn parse_ins(p: &mut P, fb: &mut FB) -> R<PI> {
    let mut dst: Option<u32> = None;
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name();
        dst = Some(fb.reg(&n));
        p.expect(b'=')?;
    }
    p.ws();
    let mut op = p.word();
    if matches!(op.as_str(), "tail" | "musttail" | "notail") { op = p.word(); }
    let d = dst.unwrap_or(u32::MAX);
    let bin = |s: &str| -> Option<BinOp> {
        Some(match s {
            "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
            "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr,
            "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, _ => return None,
        })
    };
    if let Some(b) = bin(&op) {
        while p.kw("nuw") || p.kw("nsw") || p.kw("exact") || p.kw("disjoint") {}
        let t = p.ty()?;
        let a = fb.opd(p, &t)?;
        p.expect(b',')?;
        let c = fb.opd(p, &t)?;
        let (w, l) = lanes(&t);
        return Ok(PI::Ins(Ins::Bin { dst: d, op: b, w, lanes: l, a, b: c }));
    }
    let ins = match op.as_str() {
        "alloca" => {
            let t = p.ty()?;
            let mut n = None;
            let mut align = t.align();
            while p.eat(b',') {
                if p.kw("align") { align = p.uint()?; }
                else { let (o, _) = fb.tyopd(p)?; n = Some(o); }
            }
            Ins::Alloca { dst: d, size: t.size(), align, n }
        }
        "load" => {
            while p.kw("volatile") || p.kw("atomic") {}
            let t = p.ty()?;
            p.expect(b',')?;
            let (ptr, _) = fb.tyopd(p)?;
            Ins::Load { dst: d, ty: t, p: ptr }
        }
        "store" => {
            while p.kw("volatile") || p.kw("atomic") {}
            let (v, t) = fb.tyopd(p)?;
            p.expect(b',')?;
            let (ptr, _) = fb.tyopd(p)?;
            Ins::Store { ty: t, v, p: ptr }
        }
        "getelementptr" => {
            while p.kw("inbounds") || p.kw("nuw") || p.kw("nusw") {}
            let t = p.ty()?;
            p.expect(b',')?;
            let (base, bt) = fb.tyopd(p)?;
            if bt != Ty::Ptr { return Err("vector gep".into()); }
            let mut cur = t;
            let mut off = 0i64;
            let mut idx = Vec::new();
            let mut first = true;
            loop {
                p.ws();
                if p.peek() != b',' { break; }
                let save = p.i;
                p.i += 1;
                p.ws();
                if p.peek() == b'!' { p.i = save; break; }
                let (o, it) = fb.tyopd(p)?;
                if first {
                    first = false;
                    match o {
                        Opd::C(x) => off += sext(x as u128, it.width()) * cur.size() as i64,
                        o => idx.push((o, it.width(), cur.size() as i64)),
                    }
                } else {
                    match o {
                        Opd::C(x) => {
                            let k = sext(x as u128, it.width());
                            match &cur {
                                Ty::Struct(..) => { off += cur.field_off(k as usize) as i64; }
                                _ => { off += cur.elem(0).size() as i64 * k; }
                            }
                            cur = match &cur { Ty::Struct(..) => cur.elem(k as usize), _ => cur.elem(0) };
                        }
                        o => {
                            let et = cur.elem(0);
                            idx.push((o, it.width(), et.size() as i64));
                            cur = et;
                        }
                    }
                }
            }
            Ins::Gep { dst: d, base, off, idx }
        }
        "icmp" => {
            p.kw("samesign");
            let w = p.word();
            let pr = match w.as_str() {
                "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle,
                _ => return p.err("icmp pred"),
            };
            let t = p.ty()?;
            let a = fb.opd(p, &t)?;
            p.expect(b',')?;
            let b = fb.opd(p, &t)?;
            let (w, l) = lanes(&t);
            Ins::Icmp { dst: d, p: pr, w, lanes: l, a, b }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "freeze" | "addrspacecast" => {
            while p.kw("nuw") || p.kw("nsw") || p.kw("nneg") {}
            let t = p.ty()?;
            let a = fb.opd(p, &t)?;
            let t2 = if op == "freeze" { t.clone() } else {
                if !p.kw("to") { return p.err("to"); }
                p.ty()?
            };
            if op == "bitcast" && (matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..))) {
                Ins::BitcastV { dst: d, from: t, to: t2, a }
            } else {
                let (fw, l) = lanes(&t);
                let (tw, _) = lanes(&t2);
                let k = match op.as_str() {
                    "trunc" => CastOp::Trunc, "zext" => CastOp::Zext, "sext" => CastOp::Sext,
                    "ptrtoint" | "inttoptr" => if tw > fw { CastOp::Zext } else if tw < fw { CastOp::Trunc } else { CastOp::Copy },
                    _ => CastOp::Copy,
                };
                Ins::Cast { dst: d, op: k, fw, tw, lanes: l, a }
            }
        }
        "select" => {
            while p.kw("fast") || p.kw("nnan") || p.kw("nsz") || p.kw("ninf") {}
            let (c, ct) = fb.tyopd(p)?;
            p.expect(b',')?;
            let (a, t) = fb.tyopd(p)?;
            p.expect(b',')?;
            let (b, _) = fb.tyopd(p)?;
            let (w, _) = lanes(&t);
            Ins::Select { dst: d, w, vec_cond: matches!(ct, Ty::Vec(..)), ty: t, c, a, b }
        }
        "phi" => {
            let t = p.ty()?;
            let mut v = Vec::new();
            loop {
                p.ws();
                if p.peek() == b'!' { break; }
                p.expect(b'[')?;
                let o = fb.opd(p, &t)?;
                p.expect(b',')?;
                p.ws();
                p.expect(b'%')?;
                let n = p.name();
                p.expect(b']')?;
                v.push((fb.block(&n), o));
                if !p.eat(b',') { break; }
            }
            return Ok(PI::Phi(d, v));
        }
        "br" => {
            p.ws();
            if p.looking("label") {
                let l = fb.label(p)?;
                Ins::Br(l)
            } else {
                let (c, _) = fb.tyopd(p)?;
                p.expect(b',')?;
                let t = fb.label(p)?;
                p.expect(b',')?;
                let f = fb.label(p)?;
                Ins::CondBr(c, t, f)
            }
        }
        "switch" => {
            let (v, t) = fb.tyopd(p)?;
            p.expect(b',')?;
            let default = fb.label(p)?;
            p.expect(b'[')?;
            let mut cases = Vec::new();
            loop {
                p.wsnl();
                if p.peek() == b']' { p.i += 1; break; }
                let ct = p.ty()?;
                let k = parse_int_or_bool(p, ct.width())?;
                p.expect(b',')?;
                let l = fb.label(p)?;
                cases.push((k, l));
            }
            Ins::Switch { v, w: t.width(), default, cases }
        }
        "ret" => {
            p.ws();
            if p.looking("void") { p.i += 4; Ins::Ret(None) }
            else { let (o, _) = fb.tyopd(p)?; Ins::Ret(Some(o)) }
        }
        "unreachable" => Ins::Unreachable,
        "call" | "invoke" => {
            while p.kw("fast") || p.kw("nnan") {}
            p.attrs(); // cconv + return attributes
            let ret = p.ty()?;
            p.ws();
            if p.peek() == b'(' { p.skip_parens(); p.ws(); }
            p.attrs();
            p.ws();
            let callee = if p.peek() == b'@' {
                p.i += 1;
                let mut n = p.name();
                if let Some(t) = fb.aliases.get(&n) { n = t.clone(); }
                match fb.fname.get(&n) { Some(i) => Callee::Func(*i), None => return p.err(&format!("callee @{}", n)) }
            } else if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                Callee::Ind(Opd::R(fb.reg(&n)))
            } else if p.kw("asm") {
                while p.kw("sideeffect") || p.kw("alignstack") || p.kw("inteldialect") || p.kw("unwind") {}
                p.ws();
                let s = p.qstring();
                p.expect(b',')?;
                p.ws();
                p.qstring();
                Callee::Asm(String::from_utf8_lossy(&s).into_owned())
            } else {
                let o = fb.opd(p, &Ty::Ptr)?;
                Callee::Ind(o)
            };
            p.expect(b'(')?;
            let mut args = Vec::new();
            p.ws();
            if !p.eat(b')') {
                loop {
                    let t = p.ty()?;
                    if t == Ty::Meta {
                        // skip to the matching end of this argument
                        let mut dpt = 0;
                        loop {
                            match p.peek() {
                                b'(' => dpt += 1,
                                b')' if dpt == 0 => break,
                                b')' => dpt -= 1,
                                b',' if dpt == 0 => break,
                                b'"' => { p.qstring(); continue; }
                                _ => {}
                            }
                            p.i += 1;
                        }
                        args.push((Opd::C(0), Ty::Meta));
                    } else {
                        p.attrs();
                        let o = fb.opd(p, &t)?;
                        args.push((o, t));
                    }
                    if p.eat(b',') { continue; }
                    p.expect(b')')?;
                    break;
                }
            }
            let mut normal = None;
            if op == "invoke" {
                // find "to label %x"
                loop {
                    p.wsnl();
                    if p.kw("to") { break; }
                    if p.peek() == b'"' { p.qstring(); continue; }
                    if p.peek() == b'(' { p.skip_parens(); continue; }
                    if p.peek() == b'[' { while p.peek() != b']' { p.i += 1; } p.i += 1; continue; }
                    if p.i >= p.t.len() { return p.err("invoke"); }
                    let s = p.i;
                    p.word();
                    if p.i == s { p.i += 1; }
                }
                normal = Some(fb.label(p)?);
            }
            let dst = if ret == Ty::Void { None } else { dst };
            Ins::Call { dst, callee, args, ret, normal }
        }
        "extractvalue" => {
            let (a, _) = fb.tyopd(p)?;
            let mut path = Vec::new();
            loop {
                p.ws();
                if p.peek() != b',' { break; }
                let s = p.i;
                p.i += 1;
                p.ws();
                if p.peek() == b'!' { p.i = s; break; }
                path.push(p.uint()? as u32);
            }
            Ins::ExtractValue { dst: d, a, path }
        }
        "insertvalue" => {
            let (a, _) = fb.tyopd(p)?;
            p.expect(b',')?;
            let (v, _) = fb.tyopd(p)?;
            let mut path = Vec::new();
            loop {
                p.ws();
                if p.peek() != b',' { break; }
                let s = p.i;
                p.i += 1;
                p.ws();
                if p.peek() == b'!' { p.i = s; break; }
                path.push(p.uint()? as u32);
            }
            Ins::InsertValue { dst: d, a, v, path }
        }
        "extractelement" => {
            let (a, _) = fb.tyopd(p)?;
            p.expect(b',')?;
            let (i, _) = fb.tyopd(p)?;
            Ins::ExtractElement { dst: d, a, i }
        }
        "insertelement" => {
            let (a, _) = fb.tyopd(p)?;
            p.expect(b',')?;
            let (v, _) = fb.tyopd(p)?;
            p.expect(b',')?;
            let (i, _) = fb.tyopd(p)?;
            Ins::InsertElement { dst: d, a, v, i }
        }
        "shufflevector" => {
            let (a, t) = fb.tyopd(p)?;
            p.expect(b',')?;
            let (b, _) = fb.tyopd(p)?;
            p.expect(b',')?;
            let mt = p.ty()?;
            let k = constant(p, &fb.cx, &mt)?;
            let mask = match k { K::Agg(v) => v.iter().map(|x| if let K::Int(i) = x { *i as u32 } else { 0 }).collect(), _ => return p.err("mask") };
            let n = match t { Ty::Vec(n, _) => n as u32, _ => 0 };
            Ins::Shuffle { dst: d, a, b, mask, n }
        }
        "atomicrmw" => {
            while p.kw("volatile") {}
            let o = p.word();
            let (ptr, _) = fb.tyopd(p)?;
            p.expect(b',')?;
            let (v, t) = fb.tyopd(p)?;
            Ins::AtomicRmw { dst: d, op: o, w: t.width(), p: ptr, v }
        }
        "cmpxchg" => {
            while p.kw("volatile") || p.kw("weak") {}
            let (ptr, _) = fb.tyopd(p)?;
            p.expect(b',')?;
            let (c, t) = fb.tyopd(p)?;
            p.expect(b',')?;
            let (n, _) = fb.tyopd(p)?;
            Ins::CmpXchg { dst: d, w: t.width(), p: ptr, cmp: c, new: n }
        }
        "fence" => Ins::Nop,
        "landingpad" | "cleanup" | "catch" | "filter" => return Ok(PI::None),
        "resume" => Ins::Unsupported("resume".into()),
        _ => return p.err(&format!("opcode {}", op)),
    };
    Ok(PI::Ins(ins))
}

fn parse_int_or_bool(p: &mut P, w: u32) -> R<u128> {
    p.ws();
    if p.kw("true") { return Ok(1); }
    if p.kw("false") { return Ok(0); }
    parse_int(p, w)
}
