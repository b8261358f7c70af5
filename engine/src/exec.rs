//! Concolic interpreter for one path: runs concretely under a model while keeping a symbolic shadow,
//! turning every input-dependent decision into a solver query about the untaken side.
use crate::expr::*;
use crate::ir::{self, BinOp, Callee, CastOp, Func, Ins, Module, Opd, Pred, Ty, K};
use crate::mem::*;
use crate::solver::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone)]
pub enum Val { S(u64, u32), W(Box<(u128, u32)>), A(Rc<Vec<Val>>) }

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    Done,
    Assume,
    Panic(String),
    Ub(String),
    Violation(u32),
    Unsupported(String),
    Limit(String),
}
type X<T> = Result<T, Box<Stop>>;

fn ub<T>(s: String) -> X<T> { Err(Box::new(Stop::Ub(s))) }
fn unsup<T>(s: String) -> X<T> { Err(Box::new(Stop::Unsupported(s))) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fk {
    Body, Panic, Nop, Malloc, Calloc, Realloc, Free, Memalign, Bcmp, Memcmp, Memchr, Strlen, Errno, Zero, Abort, WriteFd,
    Memcpy, Memset, Min(bool), Max(bool), SatAdd(bool), SatSub(bool), WithOv(u8, bool), Fshl, Fshr, Ctlz, Cttz, Ctpop, Bswap, Bitrev, Abs, Ucmp, Scmp,
    IsConst, Assume, Trap, Ident, Expect,
    Sym, VAssume, VAssert, VAssertEq, VEq, Out, Cover, Conc, Unknown,
}

pub fn classify(name: &str, has_body: bool) -> Fk {
    if name.starts_with("llvm.") {
        let n = &name[5..];
        let p = |s: &str| n.starts_with(s);
        if p("lifetime") || p("experimental.noalias") || p("dbg.") || p("x86.sse2.pause") || p("prefetch") { return Fk::Nop; }
        if p("memcpy") || p("memmove") { return Fk::Memcpy; }
        if p("memset") { return Fk::Memset; }
        if p("umin") { return Fk::Min(false); }
        if p("smin") { return Fk::Min(true); }
        if p("umax") { return Fk::Max(false); }
        if p("smax") { return Fk::Max(true); }
        if p("uadd.sat") { return Fk::SatAdd(false); }
        if p("sadd.sat") { return Fk::SatAdd(true); }
        if p("usub.sat") { return Fk::SatSub(false); }
        if p("ssub.sat") { return Fk::SatSub(true); }
        if p("uadd.with.overflow") { return Fk::WithOv(0, false); }
        if p("sadd.with.overflow") { return Fk::WithOv(0, true); }
        if p("usub.with.overflow") { return Fk::WithOv(1, false); }
        if p("ssub.with.overflow") { return Fk::WithOv(1, true); }
        if p("umul.with.overflow") { return Fk::WithOv(2, false); }
        if p("smul.with.overflow") { return Fk::WithOv(2, true); }
        if p("fshl") { return Fk::Fshl; }
        if p("fshr") { return Fk::Fshr; }
        if p("ctlz") { return Fk::Ctlz; }
        if p("cttz") { return Fk::Cttz; }
        if p("ctpop") { return Fk::Ctpop; }
        if p("bswap") { return Fk::Bswap; }
        if p("bitreverse") { return Fk::Bitrev; }
        if p("abs.") { return Fk::Abs; }
        if p("ucmp") { return Fk::Ucmp; }
        if p("scmp") { return Fk::Scmp; }
        if p("is.constant") { return Fk::IsConst; }
        if p("assume") { return Fk::Assume; }
        if p("trap") { return Fk::Trap; }
        if p("threadlocal.address") { return Fk::Ident; }
        if p("expect") { return Fk::Expect; }
        return Fk::Unknown;
    }
    if name.contains("4core9panicking") && (name.contains("9panic_fmt") || name.contains("18panic_nounwind_fmt")) { return Fk::Panic; }
    if name.contains("3std9panicking11begin_panic") { return Fk::Panic; }
    if name.contains("18handle_alloc_error") { return Fk::Panic; }
    // The seeds of hash maps are random, so any hash is one the program must work with: always the same one.
    if name.contains("6random11RandomState") && name.contains("8hash_one") { return Fk::Zero; }
    if has_body { return Fk::Body; }
    match name {
        "malloc" => Fk::Malloc,
        "calloc" => Fk::Calloc,
        "realloc" => Fk::Realloc,
        "free" => Fk::Free,
        "posix_memalign" => Fk::Memalign,
        "bcmp" => Fk::Bcmp,
        "memcmp" => Fk::Memcmp,
        "memchr" => Fk::Memchr,
        "memcpy" | "memmove" => Fk::Memcpy,
        "memset" => Fk::Memset,
        "strlen" => Fk::Strlen,
        "__errno_location" => Fk::Errno,
        "getenv" | "__cxa_thread_atexit_impl" => Fk::Zero,
        "abort" => Fk::Abort,
        "vx_sym" => Fk::Sym,
        "vx_assume" => Fk::VAssume,
        "vx_assert" => Fk::VAssert,
        "vx_assert_eq" => Fk::VAssertEq,
        "vx_eq" => Fk::VEq,
        "vx_out" => Fk::Out,
        "vx_cover" => Fk::Cover,
        "vx_conc" => Fk::Conc,
        _ if name.ends_with("__rust_alloc") => Fk::Malloc,
        _ if name.ends_with("__rust_dealloc") => Fk::Free,
        _ if name.contains("no_alloc_shim_is_unstable") => Fk::Nop,
        _ => Fk::Unknown,
    }
}

struct Frame {
    f: *const Func,
    fi: u32,
    base: usize,
    block: u32,
    ip: usize,
    dst: Option<u32>,
    normal: Option<u32>,
    sp: usize,
}

#[derive(Default)]
struct Group { cons: Vec<u32>, h: u128 }

/// A prefix to explore: an input model plus the number of leading decisions already settled by the parent.
#[derive(Clone)]
pub struct Item { pub model: Vec<u8>, pub bound: u32, pub expect: u64 }

pub struct PathResult {
    pub stop: Stop,
    pub model: Vec<u8>,
    pub out_hash: u64,
    pub nouts: u32,
    pub steps: u64,
    pub events: u32,
    pub stack: Vec<String>,
}

pub struct Shared {
    pub m: Module,
    pub kinds: Vec<Fk>,
    pub gstate: Vec<u8>,
    pub cache: Cache,
    pub max_steps: u64,
    pub selfcheck: bool,
}

pub struct Exec<'a> {
    pub sh: &'a Shared,
    pub ar: Arena,
    pub solver: Solver,
    pub mem: Mem,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    model: Vec<u8>,
    nsym: usize,
    // path condition
    pcset: HashSet<u32>,
    groups: Vec<Group>,
    gof: [u16; 128],
    dom: [[u64; 4]; 128],
    truths: FxMap<u32, [u64; 4]>,
    event: u32,
    bound: u32,
    expect: u64,
    rolling: u64,
    pub children: Vec<Item>,
    steps: u64,
    out_hash: u64,
    nouts: u32,
    errno: u64,
    pub covers: HashSet<u32>,
    pub asserts: HashMap<u32, u64>,
    pub funcs_used: HashMap<u32, u64>,
    pub cache_hits: u64,
    pub decisions: u64,
    pub concretisations: u64,
    pub unknowns: Vec<String>,
    pub divergences: u64,
    pub max_sym: usize,
    edge: HashSet<(u32, u32)>,
    pub total_steps: u64,
    pub trace_out: Option<Vec<Vec<u8>>>,
    pub trace_ins: bool,
}

fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}
const FNV0: u64 = 0xcbf29ce484222325;
fn mix64(mut x: u64) -> u64 { x ^= x >> 31; x = x.wrapping_mul(0x7fb5d329728ea185); x ^= x >> 27; x.wrapping_mul(0x81dadef4bc2dd44d) ^ (x >> 33) }

impl<'a> Exec<'a> {
    pub fn new(sh: &'a Shared, timeout_ms: u32) -> Exec<'a> {
        Exec {
            sh, ar: Arena::new(), solver: Solver::new(timeout_ms), mem: Mem::new(&sh.m.gimage, &sh.gstate),
            regs: vec![], frames: vec![], model: vec![], nsym: 0, pcset: HashSet::new(), groups: vec![], gof: [u16::MAX; 128], dom: [[u64::MAX; 4]; 128], truths: FxMap::default(),
            event: 0, bound: 0, expect: 0, rolling: 0, children: vec![], steps: 0, out_hash: 0, nouts: 0, errno: 0,
            covers: HashSet::new(), asserts: HashMap::new(), funcs_used: HashMap::new(), cache_hits: 0, decisions: 0, concretisations: 0,
            unknowns: vec![], divergences: 0, max_sym: 0, edge: HashSet::new(), total_steps: 0, trace_out: None, trace_ins: std::env::var("LSX_TRACE").is_ok(),
        }
    }

    // ---------------------------------------------------------------- path condition

    /// Values of the single byte `c` depends on for which `c` holds.
    fn truth(&mut self, c: u32) -> [u64; 4] {
        if let Some(t) = self.truths.get(&c) { return *t; }
        let i = self.ar.n(c).sup.trailing_zeros() as usize;
        let mut t = [0u64; 4];
        let mut m = vec![0u8; i + 1];
        for v in 0..256usize {
            m[i] = v as u8;
            let mut memo = FxMap::default();
            if self.ar.eval(c, &m, &mut memo) == 1 { t[v >> 6] |= 1 << (v & 63); }
        }
        self.truths.insert(c, t);
        t
    }

    /// Syntactic / single-byte implication by the path condition; used only to drop redundant constraints.
    fn implied(&mut self, c: u32) -> bool {
        if self.pcset.contains(&c) { return true; }
        let n = *self.ar.n(c);
        if n.key.op == Op::Const { return n.key.k == 1; }
        if n.sup.is_power_of_two() {
            let i = n.sup.trailing_zeros() as usize;
            let t = self.truth(c);
            return (0..4).all(|k| self.dom[i][k] & !t[k] == 0);
        }
        match n.key.op {
            Op::And => self.implied(n.key.a) && self.implied(n.key.b),
            Op::Or => self.implied(n.key.a) || self.implied(n.key.b),
            Op::Not => {
                let m = *self.ar.n(n.key.a);
                match m.key.op {
                    Op::And | Op::Or => {
                        let (x, y) = (self.ar.not(m.key.a), self.ar.not(m.key.b));
                        if m.key.op == Op::And { self.implied(x) || self.implied(y) } else { self.implied(x) && self.implied(y) }
                    }
                    _ => false,
                }
            }
            _ => false,
        }
    }

    /// Rewrite an expression using what the path condition already fixes about single bytes.
    fn simp(&mut self, e: u32, memo: &mut FxMap<u32, u32>) -> u32 {
        let n = *self.ar.n(e);
        if n.sup == 0 { return e; }
        if let Some(x) = memo.get(&e) { return *x; }
        let mut r = e;
        if n.sup.is_power_of_two() {
            let i = n.sup.trailing_zeros() as usize;
            let d = self.dom[i];
            let cnt: u32 = d.iter().map(|x| x.count_ones()).sum();
            if cnt == 1 {
                let k = (0..4).find(|k| d[*k] != 0).unwrap();
                let v = (k as u32 * 64 + d[k].trailing_zeros()) as u8;
                let mut m = vec![0u8; i + 1];
                m[i] = v;
                let mut mm = FxMap::default();
                let x = self.ar.eval(e, &m, &mut mm);
                r = self.ar.con(x, n.key.w as u32);
                memo.insert(e, r);
                return r;
            }
            if n.key.w == 1 {
                let t = self.truth(e);
                if (0..4).all(|k| d[k] & !t[k] == 0) { r = self.ar.con(1, 1); }
                else if (0..4).all(|k| d[k] & t[k] == 0) { r = self.ar.con(0, 1); }
                memo.insert(e, r);
                return r;
            }
        }
        if n.key.op != Op::Sym {
            let a = self.simp(n.key.a, memo);
            let b = if n.key.b != 0 { self.simp(n.key.b, memo) } else { 0 };
            let c = if n.key.c != 0 { self.simp(n.key.c, memo) } else { 0 };
            if a != n.key.a || b != n.key.b || c != n.key.c { r = self.ar.rebuild(e, a, b, c); }
        }
        memo.insert(e, r);
        r
    }
    fn simplify(&mut self, e: u32) -> u32 {
        let n = self.ar.n(e);
        if n.sup == 0 || n.sup.is_power_of_two() { return e; }
        let mut memo = FxMap::default();
        self.simp(e, &mut memo)
    }

    fn pc_add(&mut self, c: u32) {
        if self.ar.as_const(c).is_some() { return; }
        if self.pcset.contains(&c) { return; }
        let n = *self.ar.n(c);
        match n.key.op {
            Op::And => { self.pcset.insert(c); self.pc_add(n.key.a); self.pc_add(n.key.b); return; }
            Op::Not => {
                let m = *self.ar.n(n.key.a);
                if m.key.op == Op::Or {
                    self.pcset.insert(c);
                    let (x, y) = (self.ar.not(m.key.a), self.ar.not(m.key.b));
                    self.pc_add(x);
                    self.pc_add(y);
                    return;
                }
            }
            _ => {}
        }
        if n.sup.is_power_of_two() {
            let i = n.sup.trailing_zeros() as usize;
            let t = self.truth(c);
            for k in 0..4 { self.dom[i][k] &= t[k]; }
        } else if self.implied(c) { self.pcset.insert(c); return; }
        else {
            // disjunctions lose the disjuncts that are already false
            let d = match n.key.op {
                Op::Or => Some((n.key.a, n.key.b)),
                Op::Not => { let m = *self.ar.n(n.key.a); if m.key.op == Op::And { Some((self.ar.not(m.key.a), self.ar.not(m.key.b))) } else { None } }
                _ => None,
            };
            if let Some((a, b)) = d {
                let (na, nb) = (self.ar.not(a), self.ar.not(b));
                if self.implied(na) { self.pcset.insert(c); self.pc_add(b); return; }
                if self.implied(nb) { self.pcset.insert(c); self.pc_add(a); return; }
            }
        }
        self.pcset.insert(c);
        let n = *self.ar.n(c);
        let mut target: u16 = u16::MAX;
        let mut s = n.sup;
        while s != 0 {
            let i = s.trailing_zeros() as usize;
            s &= s - 1;
            let g = self.gof[i];
            if g == u16::MAX {
                if target == u16::MAX {
                    self.groups.push(Group::default());
                    target = (self.groups.len() - 1) as u16;
                }
                self.gof[i] = target;
            } else if target == u16::MAX { target = g; }
            else if g != target {
                let old = std::mem::take(&mut self.groups[g as usize]);
                let t = &mut self.groups[target as usize];
                t.cons.extend(old.cons);
                t.h = t.h.wrapping_add(old.h);
                for x in self.gof.iter_mut() { if *x == g { *x = target; } }
            }
        }
        let t = &mut self.groups[target as usize];
        t.cons.push(c);
        t.h = t.h.wrapping_add(n.h.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835) ^ (n.h >> 64));
    }

    fn slice(&self, sup: u128) -> (Vec<u32>, u128) {
        let mut seen: [bool; 256] = [false; 256];
        let mut v = vec![];
        let mut h = 0u128;
        let mut s = sup;
        while s != 0 {
            let i = s.trailing_zeros() as usize;
            s &= s - 1;
            let g = self.gof[i];
            if g != u16::MAX && !seen[(g & 255) as usize] {
                seen[(g & 255) as usize] = true;
                v.extend_from_slice(&self.groups[g as usize].cons);
                h = h.wrapping_add(self.groups[g as usize].h);
            }
        }
        (v, h)
    }

    /// Is `pc && c` satisfiable? Returns a full model.
    fn feasible(&mut self, cs: &[u32]) -> X<Option<Vec<u8>>> {
        let mut sup = 0u128;
        let mut key = 0u128;
        for c in cs {
            if let Some(k) = self.ar.as_const(*c) { if k == 0 { return Ok(None); } else { continue; } }
            let n = self.ar.n(*c);
            sup |= n.sup;
            key = key.wrapping_add((n.h ^ 0xABCDEF).wrapping_mul(0xD6E8FEB86659FD93A3779B97F4A7C15F));
            if cs.len() == 1 {
                let neg = self.ar.not(*c);
                if self.pcset.contains(&neg) { return Ok(None); }
            }
        }
        let (mut v, h) = self.slice(sup);
        key = key.wrapping_add(h.wrapping_mul(0xF39CC0605CEDC8341082276BF3A27251));
        let ans = match self.sh.cache.get(key) {
            Some(a) => { self.cache_hits += 1; a }
            None => {
                v.extend_from_slice(cs);
                // The same query over other input bytes has the same answer.
                let mut all = 0u128;
                for c in &v { all |= self.ar.n(*c).sup; }
                let mut rank = [0u8; 128];
                let mut back = vec![];
                let mut s = all;
                while s != 0 {
                    let i = s.trailing_zeros() as u8;
                    s &= s - 1;
                    rank[i as usize] = back.len() as u8;
                    back.push(i);
                }
                let mut memo = FxMap::default();
                let mut ckey = 0u128;
                for c in &v {
                    let h = self.ar.hash_renamed(*c, &rank, &mut memo);
                    ckey = ckey.wrapping_add((h ^ 0x1357_9BDF).wrapping_mul(0x9FB21C651E98DF25B5026F5AA96619E9));
                }
                let a = match self.sh.cache.get(ckey) {
                    Some(Ans::Sat(m)) => { self.cache_hits += 1; Ans::Sat(m.into_iter().map(|(i, b)| (back[i as usize], b)).collect()) }
                    Some(a) => { self.cache_hits += 1; a }
                    None => {
                        let a = self.solver.check(&self.ar, &v);
                        let c = match &a { Ans::Sat(m) => Ans::Sat(m.iter().map(|(i, b)| (rank[*i as usize], *b)).collect()), a => a.clone() };
                        self.sh.cache.put(ckey, c);
                        a
                    }
                };
                self.sh.cache.put(key, a.clone());
                a
            }
        };
        match ans {
            Ans::Unsat => Ok(None),
            Ans::Sat(m) => {
                let mut model = self.model.clone();
                for (i, b) in m {
                    if model.len() <= i as usize { model.resize(i as usize + 1, 0); }
                    model[i as usize] = b;
                }
                if self.sh.selfcheck {
                    let mut memo = FxMap::default();
                    for c in v.iter().chain(cs) {
                        if self.ar.eval(*c, &model, &mut memo) != 1 { return unsup("self-check: model does not satisfy its query".into()); }
                    }
                }
                Ok(Some(model))
            }
            Ans::Unknown => {
                if self.unknowns.len() < 20 { self.unknowns.push(format!("solver returned unknown at decision {}", self.event)); }
                Err(Box::new(Stop::Limit("solver returned unknown".into())))
            }
        }
    }

    fn roll(&self, c: u32) -> u64 { mix64(self.rolling ^ self.ar.n(c).h as u64 ^ 0x1234567) }

    /// Record a decision: `taken` holds now; each of `others` is an alternative to explore.
    fn decide(&mut self, taken: u32, others: &[u32]) -> X<()> {
        if self.ar.as_const(taken) == Some(1) { return Ok(()); }
        if self.pcset.contains(&taken) { return Ok(()); }
        if self.sh.selfcheck {
            let mut memo = FxMap::default();
            if self.ar.eval(taken, &self.model, &mut memo) != 1 {
                return unsup(format!("self-check: shadow disagrees with concrete value: {}", smt2(&self.ar, &[taken], "sat")));
            }
        }
        let ev = self.event;
        self.event += 1;
        if ev >= self.bound {
            self.decisions += 1;
            for o in others {
                if let Some(m) = self.feasible(&[*o])? {
                    let expect = self.roll(*o);
                    self.children.push(Item { model: m, bound: ev + 1, expect });
                }
            }
        }
        self.rolling = self.roll(taken);
        if ev + 1 == self.bound && self.rolling != self.expect {
            self.divergences += 1;
            return unsup("replayed prefix diverged from its parent".into());
        }
        self.pc_add(taken);
        Ok(())
    }

    fn branch(&mut self, con: bool, ex: u32) -> X<bool> {
        if ex != 0 {
            let ex = self.simplify(ex);
            let neg = self.ar.not(ex);
            if con { self.decide(ex, &[neg])?; } else { self.decide(neg, &[ex])?; }
        }
        Ok(con)
    }

    /// Fix a symbolic value to its concrete value, exploring every other feasible value.
    fn concretise(&mut self, con: u128, ex: u32) -> X<()> {
        if ex == 0 { return Ok(()); }
        let ex = self.simplify(ex);
        if self.ar.as_const(ex).is_some() { return Ok(()); }
        let w = self.ar.w(ex);
        let k = self.ar.con(con, w);
        let eq = self.ar.bin(Op::Eq, ex, k);
        if self.ar.as_const(eq) == Some(1) || self.pcset.contains(&eq) { return Ok(()); }
        let ev = self.event;
        self.event += 1;
        if ev >= self.bound {
            self.concretisations += 1;
            let mut excl = vec![self.ar.not(eq)];
            loop {
                match self.feasible(&excl)? {
                    None => break,
                    Some(m) => {
                        let mut memo = FxMap::default();
                        let v = self.ar.eval(ex, &m, &mut memo);
                        let k2 = self.ar.con(v, w);
                        let e2 = self.ar.bin(Op::Eq, ex, k2);
                        let expect = self.roll(e2);
                        self.children.push(Item { model: m, bound: ev + 1, expect });
                        let n2 = self.ar.not(e2);
                        excl.push(n2);
                        if excl.len() > 5000 { return Err(Box::new(Stop::Limit("too many values in concretisation".into()))); }
                    }
                }
            }
        }
        self.rolling = self.roll(eq);
        if ev + 1 == self.bound && self.rolling != self.expect {
            self.divergences += 1;
            return unsup("replayed prefix diverged from its parent (concretisation)".into());
        }
        self.pc_add(eq);
        Ok(())
    }

    // ---------------------------------------------------------------- values

    fn ex128(&mut self, c: u128, e: u32, w: u32) -> u32 { if e != 0 { e } else { self.ar.con(c, w) } }

    /// Result of an operation whose shadow was computed: constants collapse to "concrete".
    #[inline]
    fn norm(&self, e: u32) -> u32 { if e != 0 && self.ar.n(e).key.op == Op::Const { 0 } else { e } }

    fn from_k(k: &K, ty: &Ty) -> Val {
        match (k, ty) {
            (K::Int(x), t) => if t.width() > 64 { Val::W(Box::new((*x, 0))) } else { Val::S(*x as u64, 0) },
            (K::Agg(v), t) => Val::A(Rc::new(v.iter().enumerate().map(|(i, e)| Self::from_k(e, &t.elem(i))).collect())),
        }
    }

    #[inline]
    fn ev(&self, o: &Opd) -> Val {
        match o {
            Opd::R(r) => { let fr = self.frames.last().unwrap(); self.regs[fr.base + *r as usize].clone() }
            Opd::C(k) => Val::S(*k, 0),
            Opd::P(i) => { let f = unsafe { &*self.frames.last().unwrap().f }; let (k, t) = &f.pool[*i as usize]; Self::from_k(k, t) }
        }
    }
    #[inline]
    fn es(&self, o: &Opd) -> (u64, u32) {
        match o {
            Opd::R(r) => { let fr = self.frames.last().unwrap(); match &self.regs[fr.base + *r as usize] { Val::S(a, b) => (*a, *b), Val::W(x) => (x.0 as u64, x.1), _ => (0, 0) } }
            Opd::C(k) => (*k, 0),
            Opd::P(_) => match self.ev(o) { Val::S(a, b) => (a, b), Val::W(x) => (x.0 as u64, x.1), _ => (0, 0) },
        }
    }
    fn ew(v: &Val) -> (u128, u32) {
        match v { Val::S(a, b) => (*a as u128, *b), Val::W(x) => (x.0, x.1), Val::A(_) => (0, 0) }
    }
    fn mkv(c: u128, e: u32, w: u32) -> Val { if w > 64 { Val::W(Box::new((c, e))) } else { Val::S(c as u64, e) } }
    #[inline]
    fn set(&mut self, d: u32, v: Val) {
        let b = self.frames.last().unwrap().base;
        self.regs[b + d as usize] = v;
    }

    fn zero_of(ty: &Ty) -> Val {
        match ty {
            Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(Self::zero_of).collect())),
            Ty::Arr(n, t) | Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| Self::zero_of(t)).collect())),
            t => if t.width() > 64 { Val::W(Box::new((0, 0))) } else { Val::S(0, 0) },
        }
    }

    // ---------------------------------------------------------------- arithmetic

    fn bin1(&mut self, op: BinOp, w: u32, a: (u128, u32), b: (u128, u32)) -> X<(u128, u32)> {
        let o = match op {
            BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr,
            BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor,
        };
        if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && b.0 == 0 { return ub("division by zero".into()); }
        let c = bin_con(o, a.0, b.0, w);
        if a.1 == 0 && b.1 == 0 { return Ok((c, 0)); }
        let (x, y) = (self.ex128(a.0, a.1, w), self.ex128(b.0, b.1, w));
        let e = self.ar.bin(o, x, y);
        Ok((c, self.norm(e)))
    }

    fn cmp1(&mut self, p: Pred, w: u32, a: (u128, u32), b: (u128, u32)) -> (u128, u32) {
        let (o, swap, neg) = match p {
            Pred::Eq => (Op::Eq, false, false), Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false), Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false), Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false), Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false), Pred::Sge => (Op::Sle, true, false),
        };
        let (x, y) = if swap { (b, a) } else { (a, b) };
        let mut c = bin_con(o, x.0, y.0, w);
        if neg { c ^= 1; }
        if a.1 == 0 && b.1 == 0 { return (c, 0); }
        let (ex, ey) = (self.ex128(x.0, x.1, w), self.ex128(y.0, y.1, w));
        let mut e = self.ar.bin(o, ex, ey);
        if neg { e = self.ar.not(e); }
        (c, self.norm(e))
    }

    fn cast1(&mut self, op: CastOp, fw: u32, tw: u32, a: (u128, u32)) -> (u128, u32) {
        match op {
            CastOp::Copy => a,
            CastOp::Trunc => { let e = if a.1 != 0 { let e = self.ar.extract(a.1, 0, tw); self.norm(e) } else { 0 }; (a.0 & mask(tw), e) }
            CastOp::Zext => { let e = if a.1 != 0 { self.ar.zext(a.1, tw) } else { 0 }; (a.0, e) }
            CastOp::Sext => { let e = if a.1 != 0 { self.ar.sext(a.1, tw) } else { 0 }; (sx(a.0, fw) as u128 & mask(tw), e) }
        }
    }

    // ---------------------------------------------------------------- memory

    /// Resolve a pointer for an access of `n` bytes: concrete address, forking when symbolic.
    fn addr(&mut self, p: (u64, u32)) -> X<u64> {
        if p.1 != 0 { self.concretise(p.0 as u128, p.1)?; }
        Ok(p.0)
    }

    fn load_int(&mut self, addr: u64, nbytes: usize, w: u32) -> X<(u128, u32)> {
        let (ri, o) = match self.mem.at(addr, nbytes as u64, false) { Ok(x) => x, Err(e) => return ub(e) };
        let r = &self.mem.r[ri];
        let mut c: u128 = 0;
        let mut any = 0u32;
        for i in (0..nbytes).rev() { c = (c << 8) | r.data[o + i] as u128; any |= r.sh[o + i]; }
        let m = mask(w);
        if any == 0 { return Ok((c & m, 0)); }
        let mut e = 0u32;
        for i in (0..nbytes).rev() {
            let r = &self.mem.r[ri];
            let (s, d) = (r.sh[o + i], r.data[o + i]);
            let be = if s != 0 { s } else { self.ar.con(d as u128, 8) };
            e = if e == 0 { be } else { self.ar.concat(e, be) };
        }
        if (nbytes * 8) as u32 > w { e = self.ar.extract(e, 0, w); }
        Ok((c & m, self.norm(e)))
    }

    fn store_int(&mut self, addr: u64, nbytes: usize, c: u128, e: u32) -> X<()> {
        let (ri, o) = match self.mem.at(addr, nbytes as u64, true) { Ok(x) => x, Err(e) => return ub(e) };
        self.mem.note(ri, o, nbytes);
        let r = &mut self.mem.r[ri];
        for i in 0..nbytes { r.data[o + i] = (c >> (8 * i)) as u8; }
        if e == 0 { for i in 0..nbytes { r.sh[o + i] = 0; } return Ok(()); }
        let w = self.ar.w(e);
        let e = if w < (nbytes * 8) as u32 { self.ar.zext(e, (nbytes * 8) as u32) } else { e };
        for i in 0..nbytes {
            let b = self.ar.extract(e, 8 * i as u32, 8);
            let b = self.norm(b);
            self.mem.r[ri].sh[o + i] = b;
        }
        Ok(())
    }

    /// Table lookup at a symbolic address: an exact ite over every address the expression can denote,
    /// provided the possible addresses stay within one object of concrete bytes.
    fn table_load(&mut self, addr: u64, ex: u32, n: usize, w: u32) -> X<Option<(u128, u32)>> {
        let (ob, on) = match self.mem.object(addr) { Some(x) => x, None => return Ok(None) };
        if on > 4096 { return Ok(None); }
        // addr = k + x
        let nd = *self.ar.n(ex);
        let (x, k) = if nd.key.op == Op::Add {
            match self.ar.as_const(nd.key.b) { Some(k) => (nd.key.a, k as u64), None => return Ok(None) }
        } else { (ex, 0) };
        let pm = self.ar.n(x).pm;
        if pm.count_ones() > 10 || pm > 0xffff_ffff { return Ok(None); }
        // range check is a decision of its own
        let lo = ob.wrapping_sub(k);
        let hi = ob + on - n as u64 - 0;
        let hi = hi.wrapping_sub(k);
        let (klo, khi) = (self.ar.con(lo as u128, 64), self.ar.con(hi as u128, 64));
        if lo as i64 >= 0 && (hi as i64) < 0 { return Ok(None); }
        let c1 = if (lo as i64) <= 0 { self.ar.con(1, 1) } else { self.ar.bin(Op::Ule, klo, x) };
        let c2 = self.ar.bin(Op::Ule, x, khi);
        let inr = self.ar.bin(Op::And, c1, c2);
        let inr_now = addr >= ob && addr + n as u64 <= ob + on;
        if !inr_now { return Ok(None); }
        let neg = self.ar.not(inr);
        self.decide(inr, &[neg])?;
        // enumerate x over submasks of pm in increasing order
        let mut runs: Vec<(u64, u64, u128)> = vec![]; // lo..=hi value
        let pm = pm as u64;
        let mut v: u64 = 0;
        loop {
            let a = k.wrapping_add(v);
            if a >= ob && a + n as u64 <= ob + on {
                let (d, s) = match self.mem.bytes(a, n as u64) { Ok(x) => x, Err(_) => return Ok(None) };
                if s.iter().any(|x| *x != 0) { return Ok(None); }
                let mut val = 0u128;
                for i in (0..n).rev() { val = (val << 8) | d[i] as u128; }
                val &= mask(w);
                match runs.last_mut() { Some(r) if r.2 == val => r.1 = v, _ => runs.push((v, v, val)) }
            }
            if v == pm { break; }
            v = (v.wrapping_sub(pm)) & pm;
            if v == 0 { break; }
        }
        if runs.is_empty() || runs.len() > 600 { return Ok(None); }
        // nested ite: value of the last run is the default
        let mut e = self.ar.con(runs[runs.len() - 1].2, w);
        // binary split keeps the depth logarithmic
        fn build(ar: &mut Arena, x: u32, runs: &[(u64, u64, u128)], w: u32) -> u32 {
            if runs.len() == 1 { return ar.con(runs[0].2, w); }
            let m = runs.len() / 2;
            let l = build(ar, x, &runs[..m], w);
            let r = build(ar, x, &runs[m..], w);
            let xw = ar.w(x);
            let k = ar.con(runs[m].0 as u128, xw);
            let c = ar.bin(Op::Ult, x, k);
            ar.ite(c, l, r)
        }
        if runs.len() > 1 { e = build(&mut self.ar, x, &runs, w); }
        let (c, _) = self.load_int(addr, n, w)?;
        Ok(Some((c, self.norm(e))))
    }

    fn load(&mut self, ty: &Ty, p: (u64, u32)) -> X<Val> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                let a = self.addr(p)?;
                let n = match ty { Ty::Struct(fs, _) => fs.len(), Ty::Arr(n, _) => *n as usize, _ => 0 };
                let mut v = Vec::with_capacity(n);
                for i in 0..n { v.push(self.load(&ty.elem(i), (a + ty.field_off(i), 0))?); }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(n, t) => {
                let a = self.addr(p)?;
                let ew = t.width();
                if ew % 8 != 0 {
                    let bits = (*n as u32) * ew;
                    let (c, e) = self.load_int(a, ((bits + 7) / 8) as usize, bits)?;
                    return self.split_vec(c, e, ew, *n as u32);
                }
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n { v.push(self.load(t, (a + i * (ew as u64 / 8), 0))?); }
                Ok(Val::A(Rc::new(v)))
            }
            t => {
                let w = t.width();
                let n = ((w + 7) / 8) as usize;
                if p.1 != 0 {
                    if let Some((c, e)) = self.table_load(p.0, p.1, n, w)? { return Ok(Self::mkv(c, e, w)); }
                }
                let a = self.addr(p)?;
                let (c, e) = self.load_int(a, n, w)?;
                Ok(Self::mkv(c, e, w))
            }
        }
    }

    fn split_vec(&mut self, c: u128, e: u32, ew: u32, n: u32) -> X<Val> {
        let mut v = vec![];
        for i in 0..n {
            let x = if e != 0 { let x = self.ar.extract(e, i * ew, ew); self.norm(x) } else { 0 };
            v.push(Self::mkv((c >> (i * ew)) & mask(ew), x, ew));
        }
        Ok(Val::A(Rc::new(v)))
    }
    fn join_vec(&mut self, v: &Val, ew: u32) -> X<(u128, u32, u32)> {
        match v {
            Val::A(xs) => {
                let tot = ew * xs.len() as u32;
                if tot > 128 { return unsup("vector wider than 128 bits".into()); }
                let mut c = 0u128;
                let mut any = false;
                for (i, x) in xs.iter().enumerate() { let (k, e) = Self::ew(x); c |= k << (i as u32 * ew); any |= e != 0; }
                let mut e = 0;
                if any {
                    for x in xs.iter().rev() {
                        let (k, ee) = Self::ew(x);
                        let p = self.ex128(k, ee, ew);
                        e = if e == 0 { p } else { self.ar.concat(e, p) };
                    }
                    e = self.norm(e);
                }
                Ok((c, e, tot))
            }
            v => { let (c, e) = Self::ew(v); Ok((c, e, ew)) }
        }
    }

    fn store(&mut self, ty: &Ty, v: &Val, a: u64) -> X<()> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                if let Val::A(xs) = v {
                    for (i, x) in xs.iter().enumerate() { self.store(&ty.elem(i), x, a + ty.field_off(i))?; }
                }
                Ok(())
            }
            Ty::Vec(n, t) => {
                let ew = t.width();
                if ew % 8 != 0 {
                    let (c, e, tot) = self.join_vec(v, ew)?;
                    return self.store_int(a, ((tot + 7) / 8) as usize, c, e);
                }
                if let Val::A(xs) = v {
                    for i in 0..*n as usize { self.store(t, &xs[i], a + i as u64 * (ew as u64 / 8))?; }
                }
                Ok(())
            }
            t => {
                let (c, e) = Self::ew(v);
                self.store_int(a, ((t.width() + 7) / 8) as usize, c, e)
            }
        }
    }

    // ---------------------------------------------------------------- main loop

    pub fn run(&mut self, entry: u32, item: Item) -> PathResult {
        if self.ar.nodes.len() > 3_000_000 { self.ar.clear(); self.truths.clear(); self.solver.reset(); }
        self.mem.reset(&self.sh.m.gimage);
        self.regs.clear();
        self.frames.clear();
        self.nsym = 0;
        self.pcset.clear();
        self.groups.clear();
        self.gof = [u16::MAX; 128];
        self.dom = [[u64::MAX; 4]; 128];
        self.event = 0;
        self.rolling = 0x9E37;
        self.bound = item.bound;
        self.expect = item.expect;
        self.model = item.model;
        self.children.clear();
        self.steps = 0;
        self.out_hash = FNV0;
        self.nouts = 0;
        self.errno = 0;
        if let Some(t) = &mut self.trace_out { t.clear(); }
        let r = self.push_call(entry, vec![], None, None).and_then(|_| self.exec());
        let stop = match r { Ok(()) => Stop::Done, Err(s) => *s };
        let mut stack = vec![];
        if !matches!(stop, Stop::Done | Stop::Assume) {
            for f in self.frames.iter().rev().take(24) { stack.push(self.sh.m.funcs[f.fi as usize].name.clone()); }
        }
        self.total_steps += self.steps;
        self.max_sym = self.max_sym.max(self.nsym);
        let mut model = self.model.clone();
        model.resize(self.nsym, 0);
        PathResult { stop, model, out_hash: self.out_hash, nouts: self.nouts, steps: self.steps, events: self.event, stack }
    }

    fn push_call(&mut self, fi: u32, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) -> X<()> {
        let f = match ir::get_func(&self.sh.m, fi) { Ok(f) => f, Err(e) => return unsup(e) };
        let fp: *const Func = Arc::as_ptr(&f);
        let base = self.regs.len();
        if self.frames.len() > 3000 { return ub("call stack deeper than 3000 frames".into()); }
        self.regs.resize(base + f.nregs as usize, Val::S(0, 0));
        let sp = self.mem.sp;
        for (i, a) in args.into_iter().enumerate() {
            if i < f.params.len() {
                let mut a = a;
                if let Some(Some(t)) = f.byval.get(i) {
                    let src = match a { Val::S(p, _) => p, _ => 0 };
                    let n = t.size();
                    let p = match self.mem.alloca(n, 16) { Ok(p) => p, Err(e) => return ub(e) };
                    if let Err(e) = self.mem.copy(p, src, n) { return ub(e); }
                    a = Val::S(p, 0);
                }
                self.regs[base + f.params[i] as usize] = a;
            }
        }
        *self.funcs_used.entry(fi).or_insert(0) += 1;
        self.frames.push(Frame { f: fp, fi, base, block: 0, ip: 0, dst, normal, sp });
        Ok(())
    }

    fn goto(&mut self, to: u32) {
        let fr = self.frames.last_mut().unwrap();
        let from = fr.block;
        fr.block = to;
        fr.ip = 0;
        let f = unsafe { &*fr.f };
        let fi = fr.fi;
        let b = &f.blocks[to as usize];
        self.edge.insert((fi, to));
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                for (p, o) in inc { if *p == from { let v = self.ev(o); self.set(*d, v); break; } }
            } else {
                let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
                for (d, inc) in &b.phis {
                    for (p, o) in inc { if *p == from { tmp.push((*d, self.ev(o))); break; } }
                }
                for (d, v) in tmp { self.set(d, v); }
            }
        }
    }

    fn exec(&mut self) -> X<()> {
        loop {
            self.steps += 1;
            if self.steps > self.sh.max_steps { return Err(Box::new(Stop::Limit("step limit".into()))); }
            let fr = self.frames.last_mut().unwrap();
            let f: &'static Func = unsafe { &*fr.f };
            let b = &f.blocks[fr.block as usize];
            if fr.ip >= b.ins.len() { return unsup(format!("fell off block in {}", f.name)); }
            let ins = &b.ins[fr.ip];
            fr.ip += 1;
            if self.trace_ins { let fr = self.frames.last().unwrap(); eprintln!("[{}:{}] {:?}   regs {:?}", fr.block, fr.ip, ins, self.regs[fr.base..].iter().map(|v| match v { Val::S(a, _) => *a, _ => 7777 }).collect::<Vec<_>>()); }
            match ins {
                Ins::Bin { dst, op, w, lanes, a, b } => {
                    if *lanes == 0 && *w <= 64 {
                        let (x, y) = (self.es(a), self.es(b));
                        if x.1 == 0 && y.1 == 0 {
                            let m = if *w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                            let r = match op {
                                BinOp::Add => x.0.wrapping_add(y.0) & m,
                                BinOp::Sub => x.0.wrapping_sub(y.0) & m,
                                BinOp::And => x.0 & y.0,
                                BinOp::Or => x.0 | y.0,
                                BinOp::Xor => x.0 ^ y.0,
                                BinOp::Mul => x.0.wrapping_mul(y.0) & m,
                                _ => self.bin1(*op, *w, (x.0 as u128, 0), (y.0 as u128, 0))?.0 as u64,
                            };
                            self.set(*dst, Val::S(r, 0));
                        } else {
                            let r = self.bin1(*op, *w, (x.0 as u128, x.1), (y.0 as u128, y.1))?;
                            self.set(*dst, Val::S(r.0 as u64, r.1));
                        }
                    } else if *lanes == 0 {
                        let (x, y) = (self.ev(a), self.ev(b));
                        let r = self.bin1(*op, *w, Self::ew(&x), Self::ew(&y))?;
                        self.set(*dst, Self::mkv(r.0, r.1, *w));
                    } else {
                        let (x, y) = (self.ev(a), self.ev(b));
                        if let (Val::A(x), Val::A(y)) = (x, y) {
                            let mut v = Vec::with_capacity(x.len());
                            for i in 0..x.len() { let r = self.bin1(*op, *w, Self::ew(&x[i]), Self::ew(&y[i]))?; v.push(Self::mkv(r.0, r.1, *w)); }
                            self.set(*dst, Val::A(Rc::new(v)));
                        } else { return unsup("vector operand".into()); }
                    }
                }
                Ins::Icmp { dst, p, w, lanes, a, b } => {
                    if *lanes == 0 {
                        if *w <= 64 {
                            let (x, y) = (self.es(a), self.es(b));
                            let r = self.cmp1(*p, *w, (x.0 as u128, x.1), (y.0 as u128, y.1));
                            self.set(*dst, Val::S(r.0 as u64, r.1));
                        } else {
                            let (x, y) = (self.ev(a), self.ev(b));
                            let r = self.cmp1(*p, *w, Self::ew(&x), Self::ew(&y));
                            self.set(*dst, Val::S(r.0 as u64, r.1));
                        }
                    } else {
                        let (x, y) = (self.ev(a), self.ev(b));
                        if let (Val::A(x), Val::A(y)) = (x, y) {
                            let mut v = Vec::with_capacity(x.len());
                            for i in 0..x.len() { let r = self.cmp1(*p, *w, Self::ew(&x[i]), Self::ew(&y[i])); v.push(Val::S(r.0 as u64, r.1)); }
                            self.set(*dst, Val::A(Rc::new(v)));
                        } else { return unsup("vector operand".into()); }
                    }
                }
                Ins::Cast { dst, op, fw, tw, lanes, a } => {
                    if *lanes == 0 {
                        if *fw <= 64 && *tw <= 64 {
                            let x = self.es(a);
                            let r = self.cast1(*op, *fw, *tw, (x.0 as u128, x.1));
                            self.set(*dst, Val::S(r.0 as u64, r.1));
                        } else if *op == CastOp::Copy {
                            let x = self.ev(a);
                            self.set(*dst, x);
                        } else {
                            let x = self.ev(a);
                            let r = self.cast1(*op, *fw, *tw, Self::ew(&x));
                            self.set(*dst, Self::mkv(r.0, r.1, *tw));
                        }
                    } else {
                        match self.ev(a) {
                            Val::A(x) => {
                                let mut v = Vec::with_capacity(x.len());
                                for i in 0..x.len() { let r = self.cast1(*op, *fw, *tw, Self::ew(&x[i])); v.push(Self::mkv(r.0, r.1, *tw)); }
                                self.set(*dst, Val::A(Rc::new(v)));
                            }
                            _ => return unsup("vector operand".into()),
                        }
                    }
                }
                Ins::Load { dst, ty, p } => {
                    let p = self.es(p);
                    let v = self.load(ty, p)?;
                    self.set(*dst, v);
                }
                Ins::Store { ty, v, p } => {
                    let p = self.es(p);
                    let a = self.addr(p)?;
                    if ty.is_scalar() && ty.width() <= 64 {
                        let v = self.es(v);
                        self.store_int(a, ((ty.width() + 7) / 8) as usize, v.0 as u128, v.1)?;
                    } else {
                        let v = self.ev(v);
                        self.store(ty, &v, a)?;
                    }
                }
                Ins::Gep { dst, base, off, idx } => {
                    let b = self.es(base);
                    let mut c = b.0.wrapping_add(*off as u64);
                    let mut e = b.1;
                    if e != 0 && *off != 0 { let k = self.ar.con(*off as u64 as u128, 64); e = self.ar.bin(Op::Add, e, k); }
                    for (o, w, sz) in idx {
                        let (ic, ie) = self.es(o);
                        let s = sx(ic as u128, *w) as i64;
                        let pc = c;
                        c = c.wrapping_add((s.wrapping_mul(*sz)) as u64);
                        if ie != 0 || e != 0 {
                            let be = if e != 0 { e } else { self.ar.con(pc as u128, 64) };
                            let ix = if ie != 0 { self.ar.sext(ie, 64) } else { self.ar.con(s as u64 as u128, 64) };
                            let k = self.ar.con(*sz as u64 as u128, 64);
                            let m = self.ar.bin(Op::Mul, ix, k);
                            e = self.ar.bin(Op::Add, be, m);
                            e = self.norm(e);
                        }
                    }
                    self.set(*dst, Val::S(c, e));
                }
                Ins::Br(l) => self.goto(*l),
                Ins::CondBr(c, t, e) => {
                    let (v, x) = self.es(c);
                    let r = self.branch(v & 1 == 1, x)?;
                    self.goto(if r { *t } else { *e });
                }
                Ins::Switch { v, w, default, cases } => {
                    let (c, e) = if *w <= 64 { let x = self.es(v); (x.0 as u128, x.1) } else { let x = self.ev(v); Self::ew(&x) };
                    let t = cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*default);
                    if e != 0 {
                        // one alternative per distinct target
                        let mut targets: Vec<(u32, u32)> = vec![];
                        let mut anyc = self.ar.con(0, 1);
                        for (k, l) in cases {
                            let kk = self.ar.con(*k, *w);
                            let q = self.ar.bin(Op::Eq, e, kk);
                            anyc = self.ar.bin(Op::Or, anyc, q);
                            match targets.iter_mut().find(|x| x.0 == *l) { Some(x) => { x.1 = self.ar.bin(Op::Or, x.1, q); } None => targets.push((*l, q)) }
                        }
                        let nd = self.ar.not(anyc);
                        match targets.iter_mut().find(|x| x.0 == *default) { Some(x) => { x.1 = self.ar.bin(Op::Or, x.1, nd); } None => targets.push((*default, nd)) }
                        for t in targets.iter_mut() { t.1 = self.simplify(t.1); }
                        let taken = targets.iter().find(|x| x.0 == t).unwrap().1;
                        let others: Vec<u32> = targets.iter().filter(|x| x.0 != t).map(|x| x.1).collect();
                        self.decide(taken, &others)?;
                    }
                    self.goto(t);
                }
                Ins::Select { dst, w: _, vec_cond, ty, c, a, b } => {
                    if *vec_cond {
                        let (cv, av, bv) = (self.ev(c), self.ev(a), self.ev(b));
                        if let (Val::A(cv), Val::A(av), Val::A(bv)) = (cv, av, bv) {
                            let ew = ty.elem(0).width();
                            let mut v = vec![];
                            for i in 0..cv.len() {
                                let (cc, ce) = Self::ew(&cv[i]);
                                let r = self.sel(cc & 1 == 1, ce, &av[i], &bv[i], ew);
                                v.push(r);
                            }
                            self.set(*dst, Val::A(Rc::new(v)));
                        } else { return unsup("vector select".into()); }
                    } else {
                        let (cc, ce) = self.es(c);
                        let t = cc & 1 == 1;
                        if ce == 0 {
                            let v = if t { self.ev(a) } else { self.ev(b) };
                            self.set(*dst, v);
                        } else if ty.is_scalar() && *ty != Ty::Ptr {
                            let (av, bv) = (self.ev(a), self.ev(b));
                            let r = self.sel(t, ce, &av, &bv, ty.width());
                            self.set(*dst, r);
                        } else {
                            let t = self.branch(t, ce)?;
                            let v = if t { self.ev(a) } else { self.ev(b) };
                            self.set(*dst, v);
                        }
                    }
                }
                Ins::Call { dst, callee, args, ret, normal } => self.call(*dst, callee, args, ret, *normal)?,
                Ins::Ret(v) => {
                    let v = v.as_ref().map(|o| self.ev(o));
                    let fr = self.frames.pop().unwrap();
                    self.regs.truncate(fr.base);
                    self.mem.pop_stack(fr.sp);
                    if self.frames.is_empty() { return Ok(()); }
                    if let (Some(d), Some(v)) = (fr.dst, v) { self.set(d, v); }
                    if let Some(n) = fr.normal { self.goto(n); }
                }
                Ins::Alloca { dst, size, align, n } => {
                    let k = match n { Some(o) => { let x = self.es(o); self.concretise(x.0 as u128, x.1)?; x.0 } None => 1 };
                    match self.mem.alloca(size * k, *align) { Ok(a) => self.set(*dst, Val::S(a, 0)), Err(e) => return ub(e) }
                }
                Ins::ExtractValue { dst, a, path } => {
                    let mut v = self.ev(a);
                    for i in path { v = match v { Val::A(x) => x[*i as usize].clone(), v => v }; }
                    self.set(*dst, v);
                }
                Ins::InsertValue { dst, a, v, path } => {
                    let base = self.ev(a);
                    let nv = self.ev(v);
                    fn put(b: Val, p: &[u32], v: Val) -> Val {
                        if p.is_empty() { return v; }
                        match b {
                            Val::A(x) => {
                                let mut y = (*x).clone();
                                let old = std::mem::replace(&mut y[p[0] as usize], Val::S(0, 0));
                                y[p[0] as usize] = put(old, &p[1..], v);
                                Val::A(Rc::new(y))
                            }
                            b => b,
                        }
                    }
                    let r = put(base, path, nv);
                    self.set(*dst, r);
                }
                Ins::ExtractElement { dst, a, i } => {
                    let x = self.es(i);
                    self.concretise(x.0 as u128, x.1)?;
                    let v = match self.ev(a) { Val::A(v) => v.get(x.0 as usize).cloned().unwrap_or(Val::S(0, 0)), v => v };
                    self.set(*dst, v);
                }
                Ins::InsertElement { dst, a, v, i } => {
                    let x = self.es(i);
                    self.concretise(x.0 as u128, x.1)?;
                    let nv = self.ev(v);
                    match self.ev(a) {
                        Val::A(o) => { let mut y = (*o).clone(); if (x.0 as usize) < y.len() { y[x.0 as usize] = nv; } self.set(*dst, Val::A(Rc::new(y))); }
                        _ => return unsup("insertelement".into()),
                    }
                }
                Ins::Shuffle { dst, a, b, mask: mk, n } => {
                    let (av, bv) = (self.ev(a), self.ev(b));
                    if let (Val::A(x), Val::A(y)) = (av, bv) {
                        let v = mk.iter().map(|i| if *i < *n { x[*i as usize].clone() } else { y[(*i - *n) as usize].clone() }).collect();
                        self.set(*dst, Val::A(Rc::new(v)));
                    } else { return unsup("shuffle".into()); }
                }
                Ins::BitcastV { dst, from, to, a } => {
                    let v = self.ev(a);
                    let (c, e, tot) = match from {
                        Ty::Vec(_, t) => self.join_vec(&v, t.width())?,
                        t => { let x = Self::ew(&v); (x.0, x.1, t.width()) }
                    };
                    let r = match to {
                        Ty::Vec(n, t) => self.split_vec(c, e, t.width(), *n as u32)?,
                        _ => Self::mkv(c, e, tot),
                    };
                    self.set(*dst, r);
                }
                Ins::AtomicRmw { dst, op, w, p, v } => {
                    let p = self.es(p);
                    let a = self.addr(p)?;
                    let n = ((*w + 7) / 8) as usize;
                    let old = self.load_int(a, n, *w)?;
                    let v = self.es(v);
                    let v = (v.0 as u128, v.1);
                    let new = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin1(BinOp::Add, *w, old, v)?,
                        "sub" => self.bin1(BinOp::Sub, *w, old, v)?,
                        "and" => self.bin1(BinOp::And, *w, old, v)?,
                        "or" => self.bin1(BinOp::Or, *w, old, v)?,
                        "xor" => self.bin1(BinOp::Xor, *w, old, v)?,
                        o => return unsup(format!("atomicrmw {}", o)),
                    };
                    self.store_int(a, n, new.0, new.1)?;
                    self.set(*dst, Self::mkv(old.0, old.1, *w));
                }
                Ins::CmpXchg { dst, w, p, cmp, new } => {
                    let p = self.es(p);
                    let a = self.addr(p)?;
                    let n = ((*w + 7) / 8) as usize;
                    let old = self.load_int(a, n, *w)?;
                    let c = self.es(cmp);
                    let q = self.cmp1(Pred::Eq, *w, old, (c.0 as u128, c.1));
                    let ok = self.branch(q.0 == 1, q.1)?;
                    if ok { let v = self.es(new); self.store_int(a, n, v.0 as u128, v.1)?; }
                    self.set(*dst, Val::A(Rc::new(vec![Self::mkv(old.0, old.1, *w), Val::S(ok as u64, 0)])));
                }
                Ins::Unreachable => return ub(format!("reached unreachable code in {}", f.name)),
                Ins::Nop => {}
                Ins::Unsupported(s) => return unsup(format!("{} in {}", s, f.name)),
            }
        }
    }

    fn sel(&mut self, t: bool, ce: u32, a: &Val, b: &Val, w: u32) -> Val {
        let (x, y) = (Self::ew(a), Self::ew(b));
        let c = if t { x.0 } else { y.0 };
        // Known from the path condition already: no need for a case split.
        let known = ce == 0 || self.implied(ce) || { let neg = self.ar.not(ce); self.implied(neg) };
        if known { return Self::mkv(c, if t { x.1 } else { y.1 }, w); }
        let (ex, ey) = (self.ex128(x.0, x.1, w), self.ex128(y.0, y.1, w));
        let e = self.ar.ite(ce, ex, ey);
        Self::mkv(c, self.norm(e), w)
    }

    fn str_at(&self, p: u64, n: u64) -> String {
        match self.mem.bytes(p, n) { Ok((b, _)) => String::from_utf8_lossy(b).into_owned(), Err(_) => "?".into() }
    }

    fn call(&mut self, dst: Option<u32>, callee: &Callee, args: &[(Opd, Ty)], ret: &Ty, normal: Option<u32>) -> X<()> {
        let fi = match callee {
            Callee::Func(i) => *i,
            Callee::Ind(o) => {
                let p = self.es(o);
                let a = self.addr(p)?;
                match self.sh.m.func_by_addr.get(&a) { Some(i) => *i, None => return ub(format!("indirect call to {:#x}", a)) }
            }
            Callee::Asm(s) => {
                if s.is_empty() {
                    // black_box style barrier
                    if let Some(d) = dst { if let Some((o, _)) = args.get(0) { let v = self.ev(o); self.set(d, v); } }
                    if let Some(n) = normal { self.goto(n); }
                    return Ok(());
                }
                return unsup(format!("inline asm {}", s));
            }
        };
        let k = self.sh.kinds[fi as usize];
        if k == Fk::Body {
            let a: Vec<Val> = args.iter().map(|(o, _)| self.ev(o)).collect();
            return self.push_call(fi, a, dst, normal);
        }
        let r = self.builtin(k, fi, args, ret)?;
        if let (Some(d), Some(v)) = (dst, r) { self.set(d, v); }
        if let Some(n) = normal { self.goto(n); }
        Ok(())
    }

    fn carg(&mut self, args: &[(Opd, Ty)], i: usize) -> X<u64> {
        let x = self.es(&args[i].0);
        self.concretise(x.0 as u128, x.1)?;
        Ok(x.0)
    }

    /// Bytewise equality of two equally long buffers as (concrete, shadow).
    fn eq_bytes(&mut self, p: u64, q: u64, n: u64) -> X<(bool, u32)> {
        let (a, sa) = match self.mem.bytes(p, n) { Ok((a, s)) => (a.to_vec(), s.to_vec()), Err(e) => return ub(e) };
        let (b, sb) = match self.mem.bytes(q, n) { Ok((a, s)) => (a.to_vec(), s.to_vec()), Err(e) => return ub(e) };
        let con = a == b;
        for i in 0..n as usize { if sa[i] == 0 && sb[i] == 0 && a[i] != b[i] { return Ok((false, 0)); } }
        let mut e = self.ar.con(1, 1);
        for i in 0..n as usize {
            if sa[i] == 0 && sb[i] == 0 { continue; }
            let x = self.ex128(a[i] as u128, sa[i], 8);
            let y = self.ex128(b[i] as u128, sb[i], 8);
            let q = self.ar.bin(Op::Eq, x, y);
            e = self.ar.bin(Op::And, e, q);
        }
        Ok((con, self.norm(e)))
    }

    fn lanes_map<F: FnMut(&mut Self, u32, (u128, u32)) -> X<(u128, u32)>>(&mut self, v: Val, ty: &Ty, mut f: F) -> X<Val> {
        match ty {
            Ty::Vec(_, t) => match v {
                Val::A(xs) => {
                    let w = t.width();
                    let mut o = vec![];
                    for x in xs.iter() { let r = f(self, w, Self::ew(x))?; o.push(Self::mkv(r.0, r.1, w)); }
                    Ok(Val::A(Rc::new(o)))
                }
                _ => unsup("vector intrinsic".into()),
            },
            t => { let w = t.width(); let r = f(self, w, Self::ew(&v))?; Ok(Self::mkv(r.0, r.1, w)) }
        }
    }

    fn builtin(&mut self, k: Fk, fi: u32, args: &[(Opd, Ty)], ret: &Ty) -> X<Option<Val>> {
        let s = |c: u64| Ok(Some(Val::S(c, 0)));
        match k {
            Fk::Nop => Ok(Some(Self::zero_of(ret))),
            Fk::Zero => s(0),
            Fk::IsConst => s(0),
            Fk::Ident | Fk::Expect => Ok(Some(self.ev(&args[0].0))),
            Fk::Assume => {
                let (c, e) = self.es(&args[0].0);
                if c & 1 == 0 { return ub("llvm.assume of a false condition".into()); }
                if e != 0 { let neg = self.ar.not(e); self.decide(e, &[neg])?; }
                Ok(None)
            }
            Fk::Trap => ub("trap".into()),
            Fk::Abort => Err(Box::new(Stop::Panic("abort".into()))),
            Fk::Panic => {
                // last pointer argument is &Location { file: &str, line, col }
                let mut msg = String::from("panic");
                if let Some((o, _)) = args.iter().rev().find(|a| a.1 == Ty::Ptr) {
                    let l = self.es(o).0;
                    let g = |a: u64, n: usize, me: &mut Self| me.load_int(a, n, (n * 8) as u32).map(|x| x.0 as u64);
                    if let (Ok(fp), Ok(fl), Ok(line), Ok(col)) = (g(l, 8, self), g(l + 8, 8, self), g(l + 16, 4, self), g(l + 20, 4, self)) {
                        let fl = if fl > 0 && fl < 400 { fl } else { 0 };
                        msg = format!("panic at {}:{}:{}", self.str_at(fp, fl).trim_end_matches('\0'), line, col);
                    }
                }
                Err(Box::new(Stop::Panic(msg)))
            }
            Fk::Malloc => {
                let n = self.carg(args, 0)?;
                match self.mem.malloc(n, 16) { Ok(a) => s(a), Err(e) => Err(Box::new(Stop::Limit(e))) }
            }
            Fk::Calloc => {
                let n = self.carg(args, 0)?;
                let m = self.carg(args, 1)?;
                match self.mem.malloc(n.saturating_mul(m), 16) { Ok(a) => s(a), Err(e) => Err(Box::new(Stop::Limit(e))) }
            }
            Fk::Realloc => {
                let p = self.carg(args, 0)?;
                let n = self.carg(args, 1)?;
                match self.mem.realloc(p, n) { Ok(a) => s(a), Err(e) => ub(e) }
            }
            Fk::Free => {
                let p = self.carg(args, 0)?;
                match self.mem.free(p) { Ok(()) => s(0), Err(e) => ub(e) }
            }
            Fk::Memalign => {
                let out = self.carg(args, 0)?;
                let al = self.carg(args, 1)?;
                let n = self.carg(args, 2)?;
                match self.mem.malloc(n, al) { Ok(a) => { self.store_int(out, 8, a as u128, 0)?; s(0) } Err(e) => Err(Box::new(Stop::Limit(e))) }
            }
            Fk::Errno => {
                if self.errno == 0 { self.errno = match self.mem.malloc(4, 16) { Ok(a) => a, Err(e) => return ub(e) }; }
                s(self.errno)
            }
            Fk::Memcpy => {
                let d = self.carg(args, 0)?;
                let p = self.carg(args, 1)?;
                let n = self.carg(args, 2)?;
                if let Err(e) = self.mem.copy(d, p, n) { return ub(e); }
                s(d)
            }
            Fk::Memset => {
                let d = self.carg(args, 0)?;
                let v = self.es(&args[1].0);
                let n = self.carg(args, 2)?;
                let (ri, o) = match self.mem.at(d, n, true) { Ok(x) => x, Err(e) => return ub(e) };
                if n > 0 {
                    self.mem.note(ri, o, n as usize);
                    let e = if v.1 != 0 { let e = self.ar.extract(v.1, 0, 8); self.norm(e) } else { 0 };
                    let r = &mut self.mem.r[ri];
                    for x in &mut r.data[o..o + n as usize] { *x = v.0 as u8; }
                    for x in &mut r.sh[o..o + n as usize] { *x = e; }
                }
                s(d)
            }
            Fk::Bcmp => {
                let n = self.carg(args, 2)?;
                let p = self.carg(args, 0)?;
                let q = self.carg(args, 1)?;
                if n == 0 { return s(0); }
                let (c, e) = self.eq_bytes(p, q, n)?;
                let e = if e != 0 { let x = self.ar.not(e); self.ar.zext(x, 32) } else { 0 };
                Ok(Some(Val::S(!c as u64, e)))
            }
            Fk::Memcmp => {
                let n = self.carg(args, 2)?;
                let p = self.carg(args, 0)?;
                let q = self.carg(args, 1)?;
                if n == 0 { return s(0); }
                let (a, sa) = match self.mem.bytes(p, n) { Ok((a, s)) => (a.to_vec(), s.to_vec()), Err(e) => return ub(e) };
                let (b, sb) = match self.mem.bytes(q, n) { Ok((a, s)) => (a.to_vec(), s.to_vec()), Err(e) => return ub(e) };
                let con = match a.cmp(&b) { std::cmp::Ordering::Less => 0xffff_ffffu64, std::cmp::Ordering::Equal => 0, _ => 1 };
                if sa.iter().chain(sb.iter()).all(|x| *x == 0) { return s(con); }
                let mut e = self.ar.con(0, 32);
                for i in (0..n as usize).rev() {
                    let x = self.ex128(a[i] as u128, sa[i], 8);
                    let y = self.ex128(b[i] as u128, sb[i], 8);
                    let eq = self.ar.bin(Op::Eq, x, y);
                    let lt = self.ar.bin(Op::Ult, x, y);
                    let (mi, pl) = (self.ar.con(0xffff_ffff, 32), self.ar.con(1, 32));
                    let d = self.ar.ite(lt, mi, pl);
                    e = self.ar.ite(eq, e, d);
                }
                Ok(Some(Val::S(con, self.norm(e))))
            }
            Fk::Memchr => {
                let p = self.carg(args, 0)?;
                let c = self.es(&args[1].0);
                let n = self.carg(args, 2)?;
                for i in 0..n {
                    let b = self.load_int(p + i, 1, 8)?;
                    let ce = if c.1 != 0 { self.ar.extract(c.1, 0, 8) } else { 0 };
                    let q = self.cmp1(Pred::Eq, 8, b, ((c.0 & 255) as u128, ce));
                    if self.branch(q.0 == 1, q.1)? { return s(p + i); }
                }
                s(0)
            }
            Fk::Strlen => {
                let p = self.carg(args, 0)?;
                let mut i = 0;
                loop {
                    let b = self.load_int(p + i, 1, 8)?;
                    let q = self.cmp1(Pred::Eq, 8, b, (0, 0));
                    if self.branch(q.0 == 1, q.1)? { return s(i); }
                    i += 1;
                }
            }
            Fk::WriteFd => s(0),
            Fk::Min(sg) | Fk::Max(sg) => {
                let min = matches!(k, Fk::Min(_));
                let b = self.ev(&args[1].0);
                let a = self.ev(&args[0].0);
                let bs: Vec<(u128, u32)> = match &b { Val::A(v) => v.iter().map(Self::ew).collect(), v => vec![Self::ew(v)] };
                let mut i = 0;
                let r = self.lanes_map(a, &args[0].1, |me, w, x| {
                    let y = bs[i];
                    i += 1;
                    let p = if sg { Pred::Slt } else { Pred::Ult };
                    let c = if min { me.cmp1(p, w, x, y) } else { me.cmp1(p, w, y, x) };
                    let r = me.sel(c.0 == 1, c.1, &Self::mkv(x.0, x.1, w), &Self::mkv(y.0, y.1, w), w);
                    Ok(Self::ew(&r))
                })?;
                Ok(Some(r))
            }
            Fk::SatAdd(sg) | Fk::SatSub(sg) => {
                if sg { return unsup("signed saturating op".into()); }
                let add = matches!(k, Fk::SatAdd(_));
                let b = self.ev(&args[1].0);
                let a = self.ev(&args[0].0);
                let bs: Vec<(u128, u32)> = match &b { Val::A(v) => v.iter().map(Self::ew).collect(), v => vec![Self::ew(v)] };
                let mut i = 0;
                let r = self.lanes_map(a, &args[0].1, |me, w, x| {
                    let y = bs[i];
                    i += 1;
                    if add {
                        let r = me.bin1(BinOp::Add, w, x, y)?;
                        let ov = me.cmp1(Pred::Ult, w, r, x);
                        let v = me.sel(ov.0 == 1, ov.1, &Self::mkv(mask(w), 0, w), &Self::mkv(r.0, r.1, w), w);
                        Ok(Self::ew(&v))
                    } else {
                        let r = me.bin1(BinOp::Sub, w, x, y)?;
                        let ov = me.cmp1(Pred::Ult, w, x, y);
                        let v = me.sel(ov.0 == 1, ov.1, &Self::mkv(0, 0, w), &Self::mkv(r.0, r.1, w), w);
                        Ok(Self::ew(&v))
                    }
                })?;
                Ok(Some(r))
            }
            Fk::WithOv(op, sg) => {
                let w = args[0].1.width();
                let (a, b) = (self.ev(&args[0].0), self.ev(&args[1].0));
                let (x, y) = (Self::ew(&a), Self::ew(&b));
                if w > 64 { return unsup("wide overflow op".into()); }
                let bop = match op { 0 => BinOp::Add, 1 => BinOp::Sub, _ => BinOp::Mul };
                let r = self.bin1(bop, w, x, y)?;
                // overflow: compare against the result at double width
                let w2 = w * 2;
                let c = if sg { CastOp::Sext } else { CastOp::Zext };
                let (x2, y2) = (self.cast1(c, w, w2, x), self.cast1(c, w, w2, y));
                let r2 = self.bin1(bop, w2, x2, y2)?;
                let rr = self.cast1(c, w, w2, r);
                let ov = self.cmp1(Pred::Ne, w2, r2, rr);
                Ok(Some(Val::A(Rc::new(vec![Self::mkv(r.0, r.1, w), Val::S(ov.0 as u64, ov.1)]))))
            }
            Fk::Fshl | Fk::Fshr => {
                let w = args[0].1.width();
                if w > 64 { return unsup("wide funnel shift".into()); }
                let (a, b, c) = (self.es(&args[0].0), self.es(&args[1].0), self.es(&args[2].0));
                self.concretise(c.0 as u128, c.1)?;
                let sh = (c.0 % w as u64) as u32;
                let sh = if k == Fk::Fshl { sh } else { w - sh };
                let con = (((a.0 as u128) << w | b.0 as u128) << sh >> w) & mask(w);
                let e = if a.1 != 0 || b.1 != 0 {
                    let (x, y) = (self.ex128(a.0 as u128, a.1, w), self.ex128(b.0 as u128, b.1, w));
                    let cc = self.ar.concat(x, y);
                    let e = self.ar.extract(cc, w - sh, w);
                    self.norm(e)
                } else { 0 };
                Ok(Some(Val::S(con as u64, e)))
            }
            Fk::Ctlz | Fk::Cttz | Fk::Ctpop | Fk::Bswap | Fk::Bitrev => {
                let a = self.ev(&args[0].0);
                let r = self.lanes_map(a, &args[0].1, |me, w, x| {
                    let con = match k {
                        Fk::Ctlz => if x.0 == 0 { w as u128 } else { (x.0.leading_zeros() - (128 - w)) as u128 },
                        Fk::Cttz => if x.0 == 0 { w as u128 } else { x.0.trailing_zeros() as u128 },
                        Fk::Ctpop => x.0.count_ones() as u128,
                        Fk::Bswap => x.0.swap_bytes() >> (128 - w),
                        _ => x.0.reverse_bits() >> (128 - w),
                    };
                    if x.1 == 0 { return Ok((con, 0)); }
                    let ar = &mut me.ar;
                    let e = match k {
                        Fk::Bswap => {
                            let mut e = 0;
                            for i in 0..w / 8 { let b = ar.extract(x.1, 8 * i, 8); e = if e == 0 { b } else { ar.concat(e, b) }; }
                            e
                        }
                        Fk::Bitrev => {
                            let mut e = 0;
                            for i in 0..w { let b = ar.extract(x.1, i, 1); e = if e == 0 { b } else { ar.concat(e, b) }; }
                            e
                        }
                        Fk::Ctpop => {
                            let mut e = ar.con(0, w);
                            for i in 0..w { let b = ar.extract(x.1, i, 1); let z = ar.zext(b, w); e = ar.bin(Op::Add, e, z); }
                            e
                        }
                        _ => {
                            let mut e = ar.con(w as u128, w);
                            for j in 0..w {
                                // lowest-priority bit first, so the winning bit is tested last
                                let i = if k == Fk::Ctlz { j } else { w - 1 - j };
                                let b = ar.extract(x.1, i, 1);
                                let v = if k == Fk::Ctlz { w - 1 - i } else { i };
                                let kk = ar.con(v as u128, w);
                                e = ar.ite(b, kk, e);
                            }
                            e
                        }
                    };
                    Ok((con, me.norm(e)))
                })?;
                Ok(Some(r))
            }
            Fk::Abs => {
                let a = self.ev(&args[0].0);
                let r = self.lanes_map(a, &args[0].1, |me, w, x| {
                    let n = me.bin1(BinOp::Sub, w, (0, 0), x)?;
                    let c = me.cmp1(Pred::Slt, w, x, (0, 0));
                    let v = me.sel(c.0 == 1, c.1, &Self::mkv(n.0, n.1, w), &Self::mkv(x.0, x.1, w), w);
                    Ok(Self::ew(&v))
                })?;
                Ok(Some(r))
            }
            Fk::Ucmp | Fk::Scmp => {
                let w = args[0].1.width();
                let rw = ret.width();
                let (a, b) = (self.ev(&args[0].0), self.ev(&args[1].0));
                let (x, y) = (Self::ew(&a), Self::ew(&b));
                let p = if k == Fk::Ucmp { Pred::Ult } else { Pred::Slt };
                let lt = self.cmp1(p, w, x, y);
                let gt = self.cmp1(p, w, y, x);
                let one = Self::mkv(1, 0, rw);
                let zero = Self::mkv(0, 0, rw);
                let m1 = Self::mkv(mask(rw), 0, rw);
                let g = self.sel(gt.0 == 1, gt.1, &one, &zero, rw);
                let r = self.sel(lt.0 == 1, lt.1, &m1, &g, rw);
                Ok(Some(r))
            }
            // ------------------------------------------------------------ harness interface
            Fk::Sym => {
                let p = self.carg(args, 0)?;
                let n = self.carg(args, 1)? as usize;
                let (ri, o) = match self.mem.at(p, n as u64, true) { Ok(x) => x, Err(e) => return ub(e) };
                self.mem.note(ri, o, n);
                for i in 0..n {
                    let ix = self.nsym;
                    if ix >= 128 { return unsup("more than 128 symbolic bytes".into()); }
                    self.nsym += 1;
                    if self.model.len() <= ix { self.model.resize(ix + 1, 0); }
                    let e = self.ar.sym(ix as u32);
                    let b = self.model[ix];
                    let r = &mut self.mem.r[ri];
                    r.data[o + i] = b;
                    r.sh[o + i] = e;
                }
                Ok(None)
            }
            Fk::VAssume => {
                let x = self.es(&args[0].0);
                let z = self.cmp1(Pred::Ne, 32, (x.0 as u128, x.1), (0, 0));
                if self.branch(z.0 == 1, z.1)? { Ok(None) } else { Err(Box::new(Stop::Assume)) }
            }
            Fk::VAssert => {
                let x = self.es(&args[0].0);
                let code = self.carg(args, 1)? as u32;
                *self.asserts.entry(code).or_insert(0) += 1;
                let z = self.cmp1(Pred::Ne, 32, (x.0 as u128, x.1), (0, 0));
                if self.branch(z.0 == 1, z.1)? { Ok(None) } else { Err(Box::new(Stop::Violation(code))) }
            }
            Fk::VAssertEq => {
                let p = self.carg(args, 0)?;
                let n = self.carg(args, 1)?;
                let q = self.carg(args, 2)?;
                let m = self.carg(args, 3)?;
                let code = self.carg(args, 4)? as u32;
                *self.asserts.entry(code).or_insert(0) += 1;
                if n != m { return Err(Box::new(Stop::Violation(code))); }
                if n == 0 { return Ok(None); }
                let (c, e) = self.eq_bytes(p, q, n)?;
                if self.branch(c, e)? { Ok(None) } else { Err(Box::new(Stop::Violation(code))) }
            }
            Fk::VEq => {
                let p = self.carg(args, 0)?;
                let n = self.carg(args, 1)?;
                let q = self.carg(args, 2)?;
                let m = self.carg(args, 3)?;
                if n != m { return s(0); }
                if n == 0 { return s(1); }
                let (c, e) = self.eq_bytes(p, q, n)?;
                let e = if e != 0 { self.ar.zext(e, 32) } else { 0 };
                Ok(Some(Val::S(c as u64, e)))
            }
            Fk::Out => {
                let p = self.carg(args, 0)?;
                let n = self.carg(args, 1)?;
                let h = match self.mem.bytes(p, n) { Ok((b, _)) => { let h = fnv(self.out_hash, &(n as u64).to_le_bytes()); fnv(h, b) } Err(e) => return ub(e) };
                if self.trace_out.is_some() {
                    let b = self.mem.bytes(p, n).unwrap().0.to_vec();
                    self.trace_out.as_mut().unwrap().push(b);
                }
                self.out_hash = h;
                self.nouts += 1;
                Ok(None)
            }
            Fk::Cover => {
                let c = self.carg(args, 0)? as u32;
                self.covers.insert(c);
                Ok(None)
            }
            Fk::Conc => {
                let x = self.ev(&args[0].0);
                let (c, e) = Self::ew(&x);
                self.concretise(c, e)?;
                Ok(Some(Val::S(c as u64, 0)))
            }
            Fk::Unknown => unsup(format!("call to external function {}", self.sh.m.funcs[fi as usize].name)),
            Fk::Body => unreachable!(),
        }
    }

    pub fn blocks_covered(&self) -> &HashSet<(u32, u32)> { &self.edge }
}
