//! Flat, concrete-address memory with a per-byte validity state and symbolic shadow.
use crate::ir::{FBASE, GBASE};

pub const SBASE: u64 = 0x5000_0000;
pub const HBASE: u64 = 0x8000_0000;
const SMAX: usize = 8 << 20;
const HMAX: usize = 192 << 20;

pub const ST_NONE: u8 = 0;
pub const ST_RW: u8 = 1;
pub const ST_FREED: u8 = 2;
pub const ST_RO: u8 = 3;

pub struct Region { pub base: u64, pub data: Vec<u8>, pub sh: Vec<u32>, pub st: Vec<u8> }

pub struct Mem {
    pub r: [Region; 3],
    pub sp: usize,
    pub hp: usize,
    pub blocks: Vec<(u64, u64, bool)>,
    /// global bytes written in this run
    gdirty: Vec<(usize, usize)>,
    pub live: usize,
}

pub const G: usize = 0;
pub const S: usize = 1;
pub const H: usize = 2;

impl Mem {
    pub fn new(gimage: &[u8], gstate: &[u8]) -> Mem {
        let g = Region { base: GBASE, data: gimage.to_vec(), sh: vec![0; gimage.len()], st: gstate.to_vec() };
        let s = Region { base: SBASE, data: vec![], sh: vec![], st: vec![] };
        let h = Region { base: HBASE, data: vec![], sh: vec![], st: vec![] };
        Mem { r: [g, s, h], sp: 16, hp: 16, blocks: vec![], gdirty: vec![], live: 0 }
    }
    pub fn reset(&mut self, gimage: &[u8]) {
        for (o, n) in self.gdirty.drain(..) {
            self.r[G].data[o..o + n].copy_from_slice(&gimage[o..o + n]);
            for x in &mut self.r[G].sh[o..o + n] { *x = 0; }
        }
        let sp = self.sp.min(self.r[S].st.len());
        for x in &mut self.r[S].st[..sp] { *x = 0; }
        self.sp = 16;
        let hp = self.hp.min(self.r[H].st.len());
        for x in &mut self.r[H].st[..hp] { *x = 0; }
        self.hp = 16;
        self.blocks.clear();
        self.live = 0;
    }
    /// Region and offset of an n-byte access, or an error message.
    #[inline]
    pub fn at(&self, addr: u64, n: u64, write: bool) -> Result<(usize, usize), String> {
        let ri = if addr >= HBASE { H } else if addr >= SBASE { S } else if addr >= GBASE && addr < FBASE { G } else {
            if n == 0 { return Ok((S, 0)); }
            return Err(format!("{} of {} bytes at invalid address {:#x}", if write { "write" } else { "read" }, n, addr));
        };
        let r = &self.r[ri];
        let o = (addr - r.base) as usize;
        let n = n as usize;
        if n == 0 { return Ok((ri, o.min(r.data.len()))); }
        if o.checked_add(n).map_or(true, |e| e > r.st.len()) {
            return Err(format!("{} of {} bytes out of bounds at {:#x}", if write { "write" } else { "read" }, n, addr));
        }
        let st = &r.st[o..o + n];
        let ok = if write { st.iter().all(|s| *s == ST_RW) } else { st.iter().all(|s| *s & 1 == 1) };
        if !ok {
            let bad = st.iter().position(|s| if write { *s != ST_RW } else { *s & 1 != 1 }).unwrap();
            let why = match st[bad] { ST_FREED => "freed memory", ST_RO => "constant memory", _ => "unallocated memory" };
            return Err(format!("{} of {} bytes at {:#x} touches {}", if write { "write" } else { "read" }, n, addr, why));
        }
        Ok((ri, o))
    }
    #[inline]
    pub fn note(&mut self, ri: usize, o: usize, n: usize) { if ri == G { self.gdirty.push((o, n)); } }
    fn grow(r: &mut Region, n: usize) {
        if r.data.len() < n {
            let m = (n * 3 / 2).max(1 << 16);
            r.data.resize(m, 0);
            r.sh.resize(m, 0);
            r.st.resize(m, 0);
        }
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> Result<u64, String> {
        let a = (align.max(16)) as usize;
        let o = (self.sp + a - 1) / a * a;
        let n = size as usize;
        let e = o + n + 16;
        if e > SMAX { return Err("stack overflow".into()); }
        Self::grow(&mut self.r[S], e);
        let r = &mut self.r[S];
        for x in &mut r.st[o..o + n] { *x = ST_RW; }
        for x in &mut r.data[o..o + n] { *x = 0; }
        for x in &mut r.sh[o..o + n] { *x = 0; }
        self.sp = e;
        Ok(SBASE + o as u64)
    }
    pub fn pop_stack(&mut self, sp: usize) {
        if sp < self.sp {
            let e = self.sp.min(self.r[S].st.len());
            for x in &mut self.r[S].st[sp..e] { *x = 0; }
            self.sp = sp;
        }
    }
    pub fn malloc(&mut self, size: u64, align: u64) -> Result<u64, String> {
        let a = (align.max(16)) as usize;
        let o = (self.hp + a - 1) / a * a;
        if size as usize > HMAX { return Err(format!("allocation of {} bytes", size)); }
        let n = size as usize;
        let e = o + n + 16;
        if e > HMAX { return Err("heap limit".into()); }
        Self::grow(&mut self.r[H], e);
        let r = &mut self.r[H];
        for x in &mut r.st[o..o + n] { *x = ST_RW; }
        for x in &mut r.data[o..o + n] { *x = 0; }
        for x in &mut r.sh[o..o + n] { *x = 0; }
        self.hp = e;
        self.blocks.push((HBASE + o as u64, size, true));
        self.live += 1;
        Ok(HBASE + o as u64)
    }
    fn block(&self, addr: u64) -> Result<usize, String> {
        match self.blocks.binary_search_by(|b| b.0.cmp(&addr)) {
            Ok(i) if self.blocks[i].2 => Ok(i),
            Ok(_) => Err(format!("double free at {:#x}", addr)),
            Err(_) => Err(format!("free of a non-allocated pointer {:#x}", addr)),
        }
    }
    pub fn free(&mut self, addr: u64) -> Result<(), String> {
        if addr == 0 { return Ok(()); }
        let i = self.block(addr)?;
        let n = self.blocks[i].1 as usize;
        self.blocks[i].2 = false;
        let o = (addr - HBASE) as usize;
        for x in &mut self.r[H].st[o..o + n] { *x = ST_FREED; }
        self.live -= 1;
        Ok(())
    }
    pub fn realloc(&mut self, addr: u64, size: u64) -> Result<u64, String> {
        if addr == 0 { return self.malloc(size, 16); }
        let i = self.block(addr)?;
        let old = self.blocks[i].1;
        let n = self.malloc(size, 16)?;
        self.copy(n, addr, old.min(size))?;
        self.free(addr)?;
        Ok(n)
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), String> {
        if n == 0 { return Ok(()); }
        let (si, so) = self.at(src, n, false)?;
        let (di, d) = self.at(dst, n, true)?;
        self.note(di, d, n as usize);
        let n = n as usize;
        if si == di {
            let r = &mut self.r[si];
            r.data.copy_within(so..so + n, d);
            r.sh.copy_within(so..so + n, d);
        } else {
            let (lo, hi) = (si.min(di), si.max(di));
            let (x, y) = self.r.split_at_mut(hi);
            let (a, b) = if si < di { (&x[lo], &mut y[0]) } else { (&y[0], &mut x[lo]) };
            b.data[d..d + n].copy_from_slice(&a.data[so..so + n]);
            b.sh[d..d + n].copy_from_slice(&a.sh[so..so + n]);
        }
        Ok(())
    }
    pub fn bytes(&self, addr: u64, n: u64) -> Result<(&[u8], &[u32]), String> {
        let (ri, o) = self.at(addr, n, false)?;
        let n = n as usize;
        if n == 0 { return Ok((&[], &[])); }
        Ok((&self.r[ri].data[o..o + n], &self.r[ri].sh[o..o + n]))
    }
    /// Extent of the object containing `addr`.
    pub fn object(&self, addr: u64) -> Option<(u64, u64)> {
        let (ri, o) = self.at(addr, 1, false).ok()?;
        let st = &self.r[ri].st;
        let mut a = o;
        while a > 0 && st[a - 1] & 1 == 1 { a -= 1; }
        let mut b = o + 1;
        while b < st.len() && st[b] & 1 == 1 { b += 1; }
        Some((self.r[ri].base + a as u64, (b - a) as u64))
    }
}
