//! Z3 back end (C API) and SMT-LIB2 export of queries.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::Mutex;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_get_numeral_uint64(c: P, v: P, r: *mut u64) -> bool;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

#[derive(Clone, Debug)]
pub enum Ans { Sat(Vec<(u8, u8)>), Unsat, Unknown }

/// Result cache shared by all threads. Keys are structural hashes, so arena numbering does not matter.
pub struct Cache { shards: Vec<Mutex<HashMap<u128, Ans>>> }
impl Cache {
    pub fn new() -> Cache { Cache { shards: (0..64).map(|_| Mutex::new(HashMap::new())).collect() } }
    pub fn get(&self, k: u128) -> Option<Ans> { self.shards[(k & 63) as usize].lock().unwrap().get(&k).cloned() }
    pub fn put(&self, k: u128, a: Ans) { self.shards[(k & 63) as usize].lock().unwrap().insert(k, a); }
    pub fn len(&self) -> usize { self.shards.iter().map(|s| s.lock().unwrap().len()).sum() }
}

extern "C" fn on_error(_c: P, _e: c_int) {}

pub struct Solver {
    cx: P,
    s: P,
    memo: Vec<P>,
    bytes: Vec<P>,
    sorts: HashMap<u32, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    since: u64,
    timeout_ms: u32,
    pub dump: Option<(String, u64, u64)>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver { cx: std::ptr::null_mut(), s: std::ptr::null_mut(), memo: vec![], bytes: vec![], sorts: HashMap::new(),
            queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0, since: 0, timeout_ms, dump: None };
        s.open();
        s
    }
    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.cx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.cx, Some(on_error));
            self.s = Z3_mk_simple_solver(self.cx);
            Z3_solver_inc_ref(self.cx, self.s);
            let p = Z3_mk_params(self.cx);
            Z3_params_inc_ref(self.cx, p);
            let t = CString::new("timeout").unwrap();
            let ts = Z3_mk_string_symbol(self.cx, t.as_ptr());
            Z3_params_set_uint(self.cx, p, ts, self.timeout_ms);
            Z3_solver_set_params(self.cx, self.s, p);
        }
        self.memo.clear();
        self.bytes.clear();
        self.sorts.clear();
        self.since = 0;
    }
    /// Forget everything lowered so far (the arena was reset, or the context grew too large).
    pub fn reset(&mut self) {
        unsafe { Z3_del_context(self.cx); }
        self.open();
    }
    fn sort(&mut self, w: u32) -> P {
        let cx = self.cx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(cx, w) })
    }
    fn byte(&mut self, i: u32) -> P {
        while self.bytes.len() <= i as usize {
            let so = self.sort(8);
            let n = CString::new(format!("b{}", self.bytes.len())).unwrap();
            let x = unsafe { let sy = Z3_mk_string_symbol(self.cx, n.as_ptr()); Z3_mk_const(self.cx, sy, so) };
            self.bytes.push(x);
        }
        self.bytes[i as usize]
    }
    fn num(&mut self, k: u128, w: u32) -> P {
        let so = self.sort(w);
        unsafe {
            if w <= 64 { Z3_mk_unsigned_int64(self.cx, k as u64, so) }
            else { let s = CString::new(format!("{}", k)).unwrap(); Z3_mk_numeral(self.cx, s.as_ptr(), so) }
        }
    }
    /// As a bit-vector (1-bit booleans are converted).
    fn bv(&mut self, ar: &Arena, e: u32) -> P {
        let x = self.lower(ar, e);
        if ar.w(e) == 1 {
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            unsafe { Z3_mk_ite(self.cx, x, o, z) }
        } else { x }
    }
    fn lower(&mut self, ar: &Arena, e: u32) -> P {
        if let Some(p) = self.memo.get(e as usize) { if !p.is_null() { return *p; } }
        let n = *ar.n(e);
        let w = n.key.w as u32;
        let cx = self.cx;
        let (a, b, c) = (n.key.a, n.key.b, n.key.c);
        let r = unsafe {
            match n.key.op {
                Op::Const => if w == 1 { if n.key.k == 1 { Z3_mk_true(cx) } else { Z3_mk_false(cx) } } else { self.num(n.key.k, w) },
                Op::Sym => self.byte(a),
                Op::Not => { let x = self.lower(ar, a); if w == 1 { Z3_mk_not(cx, x) } else { Z3_mk_bvnot(cx, x) } }
                Op::Ite => { let (x, y, z) = (self.lower(ar, a), self.lower(ar, b), self.lower(ar, c)); Z3_mk_ite(cx, x, y, z) }
                Op::Extract => {
                    let x = self.lower(ar, a);
                    let r = Z3_mk_extract(cx, n.key.k as u32 + w - 1, n.key.k as u32, x);
                    if w == 1 { let o = self.num(1, 1); Z3_mk_eq(cx, r, o) } else { r }
                }
                Op::Concat => { let (x, y) = (self.bv(ar, a), self.bv(ar, b)); Z3_mk_concat(cx, x, y) }
                Op::Zext => { let iw = ar.w(a); let x = self.bv(ar, a); Z3_mk_zero_ext(cx, w - iw, x) }
                Op::Sext => { let iw = ar.w(a); let x = self.bv(ar, a); Z3_mk_sign_ext(cx, w - iw, x) }
                Op::Eq => { let (x, y) = (self.lower(ar, a), self.lower(ar, b)); Z3_mk_eq(cx, x, y) }
                op => {
                    let iw = ar.w(a);
                    if iw == 1 && matches!(op, Op::And | Op::Or | Op::Xor) {
                        let v = [self.lower(ar, a), self.lower(ar, b)];
                        match op { Op::And => Z3_mk_and(cx, 2, v.as_ptr()), Op::Or => Z3_mk_or(cx, 2, v.as_ptr()), _ => Z3_mk_xor(cx, v[0], v[1]) }
                    } else {
                        let (x, y) = (self.bv(ar, a), self.bv(ar, b));
                        let r = match op {
                            Op::Add => Z3_mk_bvadd(cx, x, y), Op::Sub => Z3_mk_bvsub(cx, x, y), Op::Mul => Z3_mk_bvmul(cx, x, y),
                            Op::UDiv => Z3_mk_bvudiv(cx, x, y), Op::SDiv => Z3_mk_bvsdiv(cx, x, y), Op::URem => Z3_mk_bvurem(cx, x, y),
                            Op::SRem => Z3_mk_bvsrem(cx, x, y), Op::Shl => Z3_mk_bvshl(cx, x, y), Op::LShr => Z3_mk_bvlshr(cx, x, y),
                            Op::AShr => Z3_mk_bvashr(cx, x, y), Op::And => Z3_mk_bvand(cx, x, y), Op::Or => Z3_mk_bvor(cx, x, y),
                            Op::Xor => Z3_mk_bvxor(cx, x, y), Op::Ult => Z3_mk_bvult(cx, x, y), Op::Ule => Z3_mk_bvule(cx, x, y),
                            Op::Slt => Z3_mk_bvslt(cx, x, y), Op::Sle => Z3_mk_bvsle(cx, x, y),
                            _ => unreachable!(),
                        };
                        if w == 1 && !matches!(op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) { let o = self.num(1, 1); Z3_mk_eq(cx, r, o) } else { r }
                    }
                }
            }
        };
        if self.memo.len() <= e as usize { self.memo.resize(e as usize + 64, std::ptr::null_mut()); }
        self.memo[e as usize] = r;
        r
    }
    /// Satisfiability of the conjunction of `cs` (1-bit expressions).
    pub fn check(&mut self, ar: &Arena, cs: &[u32]) -> Ans {
        if self.since > 30_000 { self.reset(); }
        self.since += 1;
        self.queries += 1;
        let t0 = std::time::Instant::now();
        let mut sup = 0u128;
        let r;
        unsafe {
            Z3_solver_push(self.cx, self.s);
            for c in cs {
                sup |= ar.n(*c).sup;
                let a = self.lower(ar, *c);
                Z3_solver_assert(self.cx, self.s, a);
            }
            r = Z3_solver_check(self.cx, self.s);
        }
        let ans = match r {
            1 => {
                let mut v = Vec::new();
                unsafe {
                    let m = Z3_solver_get_model(self.cx, self.s);
                    Z3_model_inc_ref(self.cx, m);
                    let mut s = sup;
                    while s != 0 {
                        let i = s.trailing_zeros();
                        s &= s - 1;
                        let x = self.byte(i);
                        let mut out: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.cx, m, x, true, &mut out) { Z3_get_numeral_uint64(self.cx, out, &mut u); }
                        v.push((i as u8, u as u8));
                    }
                    Z3_model_dec_ref(self.cx, m);
                }
                self.sat += 1;
                Ans::Sat(v)
            }
            -1 => { self.unsat += 1; Ans::Unsat }
            _ => {
                self.unknown += 1;
                let _ = unsafe { Z3_get_error_code(self.cx) };
                Ans::Unknown
            }
        };
        unsafe { Z3_solver_pop(self.cx, self.s, 1); }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        if let Some((dir, every, left)) = self.dump.clone() {
            if left > 0 && self.queries % every == 0 {
                self.dump = Some((dir.clone(), every, left - 1));
                let name = format!("{}/q{:?}-{}.smt2", dir, std::thread::current().id(), self.queries).replace("ThreadId(", "").replace(')', "");
                let status = match ans { Ans::Sat(_) => "sat", Ans::Unsat => "unsat", _ => "unknown" };
                let _ = std::fs::write(name, smt2(ar, cs, status));
            }
        }
        ans
    }
}

/// SMT-LIB2 text for a conjunction, for cross-checking with other solvers.
pub fn smt2(ar: &Arena, cs: &[u32], status: &str) -> String {
    let mut out = String::from("(set-logic QF_BV)\n");
    out.push_str(&format!("(set-info :status {})\n", status));
    let mut sup = 0u128;
    for c in cs { sup |= ar.n(*c).sup; }
    for i in 0..128 { if sup >> i & 1 == 1 { out.push_str(&format!("(declare-const b{} (_ BitVec 8))\n", i)); } }
    let mut done: HashMap<u32, ()> = HashMap::new();
    fn sort(w: u32) -> String { if w == 1 { "Bool".into() } else { format!("(_ BitVec {})", w) } }
    fn r(ar: &Arena, e: u32, bv: bool) -> String {
        let n = ar.n(e);
        let w = n.key.w as u32;
        let s = match n.key.op {
            Op::Const => if w == 1 { if n.key.k == 1 { "true".into() } else { "false".to_string() } } else { format!("(_ bv{} {})", n.key.k, w) },
            Op::Sym => format!("b{}", n.key.a),
            _ => format!("e{}", e),
        };
        if bv && w == 1 { format!("(ite {} #b1 #b0)", s) } else { s }
    }
    fn go(ar: &Arena, e: u32, out: &mut String, done: &mut HashMap<u32, ()>) {
        let n = *ar.n(e);
        if done.contains_key(&e) || matches!(n.key.op, Op::Const | Op::Sym) { return; }
        let (a, b, c) = (n.key.a, n.key.b, n.key.c);
        go(ar, a, out, done);
        if b != 0 { go(ar, b, out, done); }
        if c != 0 { go(ar, c, out, done); }
        let w = n.key.w as u32;
        let body = match n.key.op {
            Op::Not => if w == 1 { format!("(not {})", r(ar, a, false)) } else { format!("(bvnot {})", r(ar, a, false)) },
            Op::Ite => format!("(ite {} {} {})", r(ar, a, false), r(ar, b, false), r(ar, c, false)),
            Op::Extract => {
                let s = format!("((_ extract {} {}) {})", n.key.k as u32 + w - 1, n.key.k, r(ar, a, true));
                if w == 1 { format!("(= {} #b1)", s) } else { s }
            }
            Op::Concat => format!("(concat {} {})", r(ar, a, true), r(ar, b, true)),
            Op::Zext => format!("((_ zero_extend {}) {})", w - ar.w(a), r(ar, a, true)),
            Op::Sext => format!("((_ sign_extend {}) {})", w - ar.w(a), r(ar, a, true)),
            Op::Eq => format!("(= {} {})", r(ar, a, false), r(ar, b, false)),
            op => {
                let iw = ar.w(a);
                if iw == 1 && matches!(op, Op::And | Op::Or | Op::Xor) {
                    let o = match op { Op::And => "and", Op::Or => "or", _ => "xor" };
                    format!("({} {} {})", o, r(ar, a, false), r(ar, b, false))
                } else {
                    let o = match op {
                        Op::Add => "bvadd", Op::Sub => "bvsub", Op::Mul => "bvmul", Op::UDiv => "bvudiv", Op::SDiv => "bvsdiv", Op::URem => "bvurem",
                        Op::SRem => "bvsrem", Op::Shl => "bvshl", Op::LShr => "bvlshr", Op::AShr => "bvashr", Op::And => "bvand", Op::Or => "bvor",
                        Op::Xor => "bvxor", Op::Ult => "bvult", Op::Ule => "bvule", Op::Slt => "bvslt", Op::Sle => "bvsle", _ => unreachable!(),
                    };
                    let s = format!("({} {} {})", o, r(ar, a, true), r(ar, b, true));
                    if w == 1 && !matches!(op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) { format!("(= {} #b1)", s) } else { s }
                }
            }
        };
        out.push_str(&format!("(define-fun e{} () {} {})\n", e, sort(w), body));
        done.insert(e, ());
    }
    for c in cs {
        go(ar, *c, &mut out, &mut done);
        out.push_str(&format!("(assert {})\n", r(ar, *c, false)));
    }
    out.push_str("(check-sat)\n");
    out
}
