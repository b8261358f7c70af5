//! Hash-consed bit-vector expressions over symbolic input bytes (width 1..=128).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle, Not, Ite, Extract, Concat, Zext, Sext,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Key { pub op: Op, pub w: u8, pub a: u32, pub b: u32, pub c: u32, pub k: u128 }

#[derive(Clone, Copy)]
pub struct Node {
    pub key: Key,
    /// symbolic input bytes this depends on
    pub sup: u128,
    /// bits that may be one
    pub pm: u128,
    /// unsigned upper bound
    pub hi: u128,
    /// structural hash (independent of arena numbering)
    pub h: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Key, u32>,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

fn mix(mut x: u128) -> u128 {
    x ^= x >> 61;
    x = x.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    x ^= x >> 67;
    x = x.wrapping_mul(0xC2B2AE3D27D4EB4F165667B19E3779F9);
    x ^= x >> 59;
    x
}

pub fn bin_con(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x >= 0 { m } else { 1 } } else { x.wrapping_div(y) as u128 & m }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 & m }
        }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = b.min(w as u128 - 1) as u32; (sx(a, w) >> s) as u128 & m }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    }
}

fn possible_fill(v: u128) -> u128 {
    // all bits up to the highest set bit
    if v == 0 { 0 } else { let lz = v.leading_zeros(); u128::MAX >> lz }
}

impl Arena {
    /// Structural hash with input byte i standing for `rank[i]`.
    pub fn hash_renamed(&self, e: u32, rank: &[u8; 128], memo: &mut FxMap<u32, u128>) -> u128 {
        if e == 0 { return 0; }
        let n = self.n(e);
        if n.sup == 0 { return n.h; }
        if let Some(h) = memo.get(&e) { return *h; }
        let key = n.key;
        let mut h = mix(((key.op as u128) << 16) | (key.w as u128) | 0x7777_0000_0000_0000_0000);
        if key.op == Op::Sym { h = mix(h ^ ((rank[key.a as usize] as u128) << 40)); } else {
            h = mix(h.wrapping_add(self.hash_renamed(key.a, rank, memo)));
            h = mix(h.wrapping_mul(3).wrapping_add(self.hash_renamed(key.b, rank, memo)));
            h = mix(h.wrapping_mul(5).wrapping_add(self.hash_renamed(key.c, rank, memo)));
        }
        h = mix(h ^ key.k);
        memo.insert(e, h);
        h
    }
    pub fn new() -> Arena {
        let mut a = Arena { nodes: Vec::new(), map: FxMap::default() };
        a.clear();
        a
    }
    pub fn clear(&mut self) {
        self.nodes.clear();
        self.map.clear();
        // id 0 is reserved for "concrete"
        self.nodes.push(Node { key: Key { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 }, sup: 0, pm: 0, hi: 0, h: 0 });
    }
    #[inline]
    pub fn n(&self, i: u32) -> &Node { &self.nodes[i as usize] }
    #[inline]
    pub fn w(&self, i: u32) -> u32 { self.n(i).key.w as u32 }
    pub fn as_const(&self, i: u32) -> Option<u128> {
        let k = &self.n(i).key;
        if k.op == Op::Const { Some(k.k) } else { None }
    }
    fn intern(&mut self, key: Key) -> u32 {
        if let Some(i) = self.map.get(&key) { return *i; }
        let w = key.w as u32;
        let m = mask(w);
        let (na, nb, nc) = (self.nodes[key.a as usize], self.nodes[key.b as usize], self.nodes[key.c as usize]);
        let sup = match key.op { Op::Const => 0, Op::Sym => 1u128 << key.a, _ => na.sup | nb.sup | nc.sup };
        let pm = match key.op {
            Op::Const => key.k,
            Op::And => na.pm & nb.pm,
            Op::Or | Op::Xor => na.pm | nb.pm,
            Op::Ite => nb.pm | nc.pm,
            Op::Zext => na.pm,
            Op::Extract => (na.pm >> key.k) & m,
            Op::Concat => (na.pm << self.nodes[key.b as usize].key.w) | nb.pm,
            Op::Shl => match self.as_const(key.b) { Some(s) if s < w as u128 => (na.pm << s) & m, _ => m },
            Op::LShr => match self.as_const(key.b) { Some(s) if s < w as u128 => na.pm >> s, _ => possible_fill(na.pm) },
            Op::Add => {
                match na.pm.checked_add(nb.pm) { Some(s) => possible_fill(s) & m, None => m }
            }
            Op::Mul => match na.pm.checked_mul(nb.pm) { Some(s) => possible_fill(s) & m, None => m },
            Op::UDiv => match self.as_const(key.b) { Some(c) if c > 0 => possible_fill(na.pm / c), _ => m },
            Op::URem => match self.as_const(key.b) { Some(c) if c > 0 => possible_fill(na.pm.min(c - 1)), _ => m },
            _ => m,
        };
        let hi = match key.op {
            Op::Const => key.k,
            Op::And => na.hi.min(nb.hi),
            Op::Ite => nb.hi.max(nc.hi),
            Op::Zext => na.hi,
            Op::Add => match na.hi.checked_add(nb.hi) { Some(s) if s <= m => s, _ => m },
            Op::Mul => match na.hi.checked_mul(nb.hi) { Some(s) if s <= m => s, _ => m },
            Op::UDiv => match self.as_const(key.b) { Some(c) if c > 0 => na.hi / c, _ => m },
            Op::URem => match self.as_const(key.b) { Some(c) if c > 0 => na.hi.min(c - 1), _ => m },
            Op::Extract => if key.k == 0 && na.hi <= m { na.hi } else { m },
            Op::Concat => (na.hi << self.nodes[key.b as usize].key.w) | possible_fill(nb.hi),
            _ => m,
        }.min(pm);
        let mut h = mix(((key.op as u128) << 16) | (w as u128) | 0x5555_0000_0000_0000_0000);
        if key.op == Op::Sym { h = mix(h ^ ((key.a as u128) << 40)); } else {
            h = mix(h.wrapping_add(na.h));
            h = mix(h.wrapping_mul(3).wrapping_add(nb.h));
            h = mix(h.wrapping_mul(5).wrapping_add(nc.h));
        }
        h = mix(h ^ key.k);
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { key, sup, pm, hi, h });
        self.map.insert(key, id);
        id
    }
    pub fn con(&mut self, k: u128, w: u32) -> u32 {
        self.intern(Key { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn sym(&mut self, i: u32) -> u32 {
        self.intern(Key { op: Op::Sym, w: 8, a: i, b: 0, c: 0, k: 0 })
    }
    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32) -> u32 {
        self.intern(Key { op, w: w as u8, a, b, c: 0, k: 0 })
    }
    pub fn not(&mut self, a: u32) -> u32 {
        let n = *self.n(a);
        let w = n.key.w as u32;
        match n.key.op {
            Op::Const => self.con(!n.key.k, w),
            Op::Not => n.key.a,
            Op::Ult if w == 1 => self.bin(Op::Ule, n.key.b, n.key.a),
            Op::Ule if w == 1 => self.bin(Op::Ult, n.key.b, n.key.a),
            Op::Slt if w == 1 => self.bin(Op::Sle, n.key.b, n.key.a),
            Op::Sle if w == 1 => self.bin(Op::Slt, n.key.b, n.key.a),
            _ => self.intern(Key { op: Op::Not, w: w as u8, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn bin(&mut self, op: Op, mut a: u32, mut b: u32) -> u32 {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask(w);
        let (mut ca, mut cb) = (self.as_const(a), self.as_const(b));
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = bin_con(op, x, y, w);
            return self.con(v, rw);
        }
        // constants to the right for commutative operators
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ca.is_some() || (cb.is_none() && self.n(a).h > self.n(b).h) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ca, &mut cb); }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        match op {
            Op::Add => {
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    if na.key.op == Op::Add { if let Some(c1) = self.as_const(na.key.b) { let k = self.con(c.wrapping_add(c1), w); return self.bin(Op::Add, na.key.a, k); } }
                }
            }
            Op::Sub => {
                if a == b { return self.con(0, w); }
                if let Some(c) = cb { let k = self.con(c.wrapping_neg(), w); return self.bin(Op::Add, a, k); }
                // (x + c) - x
                if na.key.op == Op::Add && na.key.a == b { return na.key.b; }
                if na.key.op == Op::Add && nb.key.op == Op::Add && na.key.a == nb.key.a {
                    return self.bin(Op::Sub, na.key.b, nb.key.b);
                }
            }
            Op::Mul => {
                if let Some(c) = cb {
                    if c == 0 { return b; }
                    if c == 1 { return a; }
                    if c.is_power_of_two() { let k = self.con(c.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, k); }
                }
            }
            Op::UDiv => if let Some(c) = cb {
                if c == 1 { return a; }
                if c.is_power_of_two() { let k = self.con(c.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, k); }
                if c > na.hi { return self.con(0, w); }
            },
            Op::URem => if let Some(c) = cb {
                if c.is_power_of_two() { let k = self.con(c - 1, w); return self.bin(Op::And, a, k); }
                if c > na.hi { return a; }
            },
            Op::And => {
                if a == b { return a; }
                if na.pm & nb.pm == 0 { return self.con(0, w); }
                if let Some(c) = cb {
                    if na.pm & !c == 0 { return a; }
                    if na.key.op == Op::And { if let Some(c1) = self.as_const(na.key.b) { let k = self.con(c & c1, w); return self.bin(Op::And, na.key.a, k); } }
                }
                if w == 1 {
                    // x & !x
                    if (na.key.op == Op::Not && na.key.a == b) || (nb.key.op == Op::Not && nb.key.a == a) { return self.con(0, 1); }
                }
            }
            Op::Or => {
                if a == b { return a; }
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    if c == m { return b; }
                }
                if w == 1 && ((na.key.op == Op::Not && na.key.a == b) || (nb.key.op == Op::Not && nb.key.a == a)) { return self.con(1, 1); }
            }
            Op::Xor => {
                if a == b { return self.con(0, w); }
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    if c == m { return self.not(a); }
                }
            }
            Op::Shl => {
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    if c >= w as u128 { return self.con(0, w); }
                    let lo = self.extract(a, 0, w - c as u32);
                    let z = self.con(0, c as u32);
                    return self.concat(lo, z);
                }
                if na.pm == 0 { return self.con(0, w); }
            }
            Op::LShr => {
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    if c >= w as u128 { return self.con(0, w); }
                    let hi = self.extract(a, c as u32, w - c as u32);
                    return self.zext(hi, w);
                }
                if na.pm == 0 { return self.con(0, w); }
            }
            Op::AShr => {
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    if na.pm >> (w - 1) == 0 { return self.bin(Op::LShr, a, b); }
                    let s = (c.min(w as u128 - 1)) as u32;
                    let hi = self.extract(a, s, w - s);
                    return self.sext(hi, w);
                }
            }
            Op::Eq => {
                if a == b { return self.con(1, 1); }
                if let Some(c) = cb {
                    if w == 1 { return if c == 1 { a } else { self.not(a) }; }
                    if c & !na.pm != 0 || c > na.hi { return self.con(0, 1); }
                    match na.key.op {
                        Op::Zext => { let iw = self.w(na.key.a); let k = self.con(c, iw); return self.bin(Op::Eq, na.key.a, k); }
                        Op::Sext => {
                            let iw = self.w(na.key.a);
                            let lo = c & mask(iw);
                            if (sx(lo, iw) as u128) & m != c { return self.con(0, 1); }
                            let k = self.con(lo, iw);
                            return self.bin(Op::Eq, na.key.a, k);
                        }
                        Op::Concat => {
                            let wl = self.w(na.key.b);
                            let wh = w - wl;
                            let (kh, kl) = (self.con(c >> wl, wh), self.con(c, wl));
                            let x = self.bin(Op::Eq, na.key.a, kh);
                            let y = self.bin(Op::Eq, na.key.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add => if let Some(c1) = self.as_const(na.key.b) { let k = self.con(c.wrapping_sub(c1), w); return self.bin(Op::Eq, na.key.a, k); },
                        Op::Xor => if let Some(c1) = self.as_const(na.key.b) { let k = self.con(c ^ c1, w); return self.bin(Op::Eq, na.key.a, k); },
                        Op::Not => { let k = self.con(!c, w); return self.bin(Op::Eq, na.key.a, k); }
                        Op::Ite => {
                            let (t, f) = (self.as_const(na.key.b), self.as_const(na.key.c));
                            if t.is_some() || f.is_some() {
                                let x = self.bin(Op::Eq, na.key.b, b);
                                let y = self.bin(Op::Eq, na.key.c, b);
                                return self.ite(na.key.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else if na.key.op == Op::Zext && nb.key.op == Op::Zext && self.w(na.key.a) == self.w(nb.key.a) {
                    return self.bin(Op::Eq, na.key.a, nb.key.a);
                } else if na.key.op == Op::Concat && nb.key.op == Op::Concat && self.w(na.key.b) == self.w(nb.key.b) {
                    let x = self.bin(Op::Eq, na.key.a, nb.key.a);
                    let y = self.bin(Op::Eq, na.key.b, nb.key.b);
                    return self.bin(Op::And, x, y);
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.con((op == Op::Ule) as u128, 1); }
                // x <= x + y and x + y < x when the sum cannot wrap
                if nb.key.op == Op::Add && op == Op::Ule && (nb.key.a == a || nb.key.b == a) && self.nowrap(b) { return self.con(1, 1); }
                if na.key.op == Op::Add && op == Op::Ult && (na.key.a == b || na.key.b == b) && self.nowrap(a) { return self.con(0, 1); }
                if let Some(c) = cb {
                    let lim = na.hi;
                    if op == Op::Ult {
                        if c == 0 { return self.con(0, 1); }
                        if lim < c { return self.con(1, 1); }
                        if c == 1 { let z = self.con(0, w); return self.bin(Op::Eq, a, z); }
                    } else {
                        if lim <= c { return self.con(1, 1); }
                        // canonical: a <= c  ->  a < c+1
                        let k = self.con(c + 1, w);
                        return self.bin(Op::Ult, a, k);
                    }
                    if na.key.op == Op::Zext {
                        let iw = self.w(na.key.a);
                        let k = self.con(c, iw);
                        return self.bin(op, na.key.a, k);
                    }
                    if na.key.op == Op::Ite && self.as_const(na.key.b).is_some() && self.as_const(na.key.c).is_some() {
                        let x = self.bin(op, na.key.b, b);
                        let y = self.bin(op, na.key.c, b);
                        return self.ite(na.key.a, x, y);
                    }
                } else if let Some(c) = ca {
                    let lim = nb.hi;
                    if op == Op::Ult {
                        if c >= lim { return self.con(0, 1); }
                        // c < b  ->  c+1 <= b
                    } else {
                        if c == 0 { return self.con(1, 1); }
                        if c > lim { return self.con(0, 1); }
                        let k = self.con(c - 1, w);
                        return self.bin(Op::Ult, k, b);
                    }
                    if nb.key.op == Op::Zext {
                        let iw = self.w(nb.key.a);
                        let k = self.con(c, iw);
                        return self.bin(op, k, nb.key.a);
                    }
                    if nb.key.op == Op::Ite && self.as_const(nb.key.b).is_some() && self.as_const(nb.key.c).is_some() {
                        let x = self.bin(op, a, nb.key.b);
                        let y = self.bin(op, a, nb.key.c);
                        return self.ite(nb.key.a, x, y);
                    }
                } else if na.key.op == Op::Zext && nb.key.op == Op::Zext && self.w(na.key.a) == self.w(nb.key.a) {
                    return self.bin(op, na.key.a, nb.key.a);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.con((op == Op::Sle) as u128, 1); }
                let sb = 1u128 << (w - 1);
                if na.pm & sb == 0 && nb.pm & sb == 0 {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // non-negative versus negative constant
                if na.pm & sb == 0 { if let Some(c) = cb { if c & sb != 0 { return self.con(0, 1); } } }
                if nb.pm & sb == 0 { if let Some(c) = ca { if c & sb != 0 { return self.con(1, 1); } } }
                if na.key.op == Op::Sext && nb.key.op == Op::Const {
                    let iw = self.w(na.key.a);
                    let c = cb.unwrap();
                    if (sx(c & mask(iw), iw) as u128) & m == c { let k = self.con(c, iw); return self.bin(op, na.key.a, k); }
                }
            }
            _ => {}
        }
        self.mk(op, rw, a, b)
    }
    fn nowrap(&self, s: u32) -> bool {
        let n = self.n(s);
        match self.n(n.key.a).hi.checked_add(self.n(n.key.b).hi) { Some(x) => x <= mask(n.key.w as u32), None => false }
    }
    /// Rebuild `e` with its operands replaced.
    pub fn rebuild(&mut self, e: u32, a: u32, b: u32, c: u32) -> u32 {
        let k = self.n(e).key;
        let w = k.w as u32;
        match k.op {
            Op::Const | Op::Sym => e,
            Op::Not => self.not(a),
            Op::Ite => self.ite(a, b, c),
            Op::Extract => self.extract(a, k.k as u32, w),
            Op::Concat => self.concat(a, b),
            Op::Zext => self.zext(a, w),
            Op::Sext => self.sext(a, w),
            op => self.bin(op, a, b),
        }
    }
    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if a == b { return a; }
        let nc = *self.n(c);
        if let Op::Const = nc.key.op { return if nc.key.k == 1 { a } else { b }; }
        if nc.key.op == Op::Not { return self.ite(nc.key.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            let (x, y) = (self.as_const(a), self.as_const(b));
            match (x, y) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.key.op == Op::Ite && na.key.a == c { return self.ite(c, na.key.b, b); }
        if nb.key.op == Op::Ite && nb.key.a == c { return self.ite(c, a, nb.key.c); }
        self.intern(Key { op: Op::Ite, w: w as u8, a: c, b: a, c: b, k: 0 })
    }
    pub fn extract(&mut self, a: u32, lo: u32, w: u32) -> u32 {
        let n = *self.n(a);
        let aw = n.key.w as u32;
        if lo == 0 && w == aw { return a; }
        debug_assert!(lo + w <= aw);
        if (n.pm >> lo) & mask(w) == 0 { return self.con(0, w); }
        match n.key.op {
            Op::Const => return self.con(n.key.k >> lo, w),
            Op::Extract => return self.extract(n.key.a, n.key.k as u32 + lo, w),
            Op::Zext => {
                let iw = self.w(n.key.a);
                if lo + w <= iw { return self.extract(n.key.a, lo, w); }
                if lo < iw { let x = self.extract(n.key.a, lo, iw - lo); return self.zext(x, w); }
            }
            Op::Sext => {
                let iw = self.w(n.key.a);
                if lo + w <= iw { return self.extract(n.key.a, lo, w); }
            }
            Op::Concat => {
                let wl = self.w(n.key.b);
                if lo + w <= wl { return self.extract(n.key.b, lo, w); }
                if lo >= wl { return self.extract(n.key.a, lo - wl, w); }
                let l = self.extract(n.key.b, lo, wl - lo);
                let h = self.extract(n.key.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                if self.n(n.key.b).key.op == Op::Const || lo == 0 || true {
                    let x = self.extract(n.key.a, lo, w);
                    let y = self.extract(n.key.b, lo, w);
                    return self.bin(n.key.op, x, y);
                }
            }
            Op::Not => { let x = self.extract(n.key.a, lo, w); return self.not(x); }
            Op::Ite => {
                if self.as_const(n.key.b).is_some() || self.as_const(n.key.c).is_some() {
                    let x = self.extract(n.key.b, lo, w);
                    let y = self.extract(n.key.c, lo, w);
                    return self.ite(n.key.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.key.a, 0, w);
                let y = self.extract(n.key.b, 0, w);
                return self.bin(n.key.op, x, y);
            }
            _ => {}
        }
        self.intern(Key { op: Op::Extract, w: w as u8, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, h: u32, l: u32) -> u32 {
        let (nh, nl) = (*self.n(h), *self.n(l));
        let (wh, wl) = (nh.key.w as u32, nl.key.w as u32);
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) { return self.con((x << wl) | y, w); }
        if nh.pm == 0 { return self.zext(l, w); }
        // merge adjacent extracts
        if nh.key.op == Op::Extract && nl.key.op == Op::Extract && nh.key.a == nl.key.a && nh.key.k == nl.key.k + wl as u128 {
            return self.extract(nh.key.a, nl.key.k as u32, w);
        }
        if nh.key.op == Op::Extract && nh.key.a == l && nh.key.k == wl as u128 { return self.extract(l, 0, w.min(self.w(l))); }
        // h ++ (x ++ y) with h,x adjacent extracts
        if nl.key.op == Op::Concat {
            let x = nl.key.a;
            let nx = *self.n(x);
            if nh.key.op == Op::Extract && nx.key.op == Op::Extract && nh.key.a == nx.key.a && nh.key.k == nx.key.k + nx.key.w as u128 {
                let j = self.concat(h, x);
                return self.concat(j, nl.key.b);
            }
            if nh.key.op == Op::Const && nx.key.op == Op::Const {
                let j = self.concat(h, x);
                return self.concat(j, nl.key.b);
            }
        }
        // Sym byte split: Extract over a Sym never merges with itself unless covering
        if nh.key.op == Op::Extract && nl.key.op == Op::Zext && nh.key.k == 0 { /* no rule */ }
        if nl.key.op == Op::Extract && nl.key.k == 0 && nh.key.op == Op::Extract && nh.key.a == nl.key.a && nh.key.k == wl as u128 {
            return self.extract(nl.key.a, 0, w);
        }
        self.mk(Op::Concat, w, h, l)
    }
    pub fn zext(&mut self, a: u32, w: u32) -> u32 {
        let n = *self.n(a);
        if n.key.w as u32 == w { return a; }
        match n.key.op {
            Op::Const => self.con(n.key.k, w),
            Op::Zext => self.zext(n.key.a, w),
            Op::Ite if self.as_const(n.key.b).is_some() && self.as_const(n.key.c).is_some() => {
                let x = self.zext(n.key.b, w);
                let y = self.zext(n.key.c, w);
                self.ite(n.key.a, x, y)
            }
            _ => self.mk(Op::Zext, w, a, 0),
        }
    }
    pub fn sext(&mut self, a: u32, w: u32) -> u32 {
        let n = *self.n(a);
        let iw = n.key.w as u32;
        if iw == w { return a; }
        if n.pm >> (iw - 1) == 0 { return self.zext(a, w); }
        match n.key.op {
            Op::Const => { let k = sx(n.key.k, iw) as u128; self.con(k, w) }
            Op::Sext => self.sext(n.key.a, w),
            _ if iw == 1 => {
                let x = self.con(mask(w), w);
                let y = self.con(0, w);
                self.ite(a, x, y)
            }
            _ => self.mk(Op::Sext, w, a, 0),
        }
    }
    pub fn and_all(&mut self, v: &[u32]) -> u32 {
        let mut r = self.con(1, 1);
        for x in v { r = self.bin(Op::And, r, *x); }
        r
    }
    /// Evaluate under a byte assignment.
    pub fn eval(&self, e: u32, model: &[u8], memo: &mut FxMap<u32, u128>) -> u128 {
        if let Some(v) = memo.get(&e) { return *v; }
        let n = self.n(e);
        let w = n.key.w as u32;
        let v = match n.key.op {
            Op::Const => n.key.k,
            Op::Sym => model.get(n.key.a as usize).copied().unwrap_or(0) as u128,
            Op::Not => !self.eval(n.key.a, model, memo) & mask(w),
            Op::Ite => if self.eval(n.key.a, model, memo) == 1 { self.eval(n.key.b, model, memo) } else { self.eval(n.key.c, model, memo) },
            Op::Extract => (self.eval(n.key.a, model, memo) >> n.key.k) & mask(w),
            Op::Concat => {
                let wl = self.w(n.key.b);
                (self.eval(n.key.a, model, memo) << wl) | self.eval(n.key.b, model, memo)
            }
            Op::Zext => self.eval(n.key.a, model, memo),
            Op::Sext => { let iw = self.w(n.key.a); sx(self.eval(n.key.a, model, memo), iw) as u128 & mask(w) }
            op => {
                let iw = self.w(n.key.a);
                let x = self.eval(n.key.a, model, memo);
                let y = self.eval(n.key.b, model, memo);
                bin_con(op, x, y, iw)
            }
        };
        memo.insert(e, v);
        v
    }
}
