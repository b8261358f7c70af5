//! Stand-ins for the file system calls under `File`: one scripted file per thread, known by its path prefix.
//! They return what the operating system may return: data in pieces of any size, errors, interruptions.
use std::cell::RefCell;
use std::mem::ManuallyDrop;

pub enum Op { Data(Vec<u8>), Fail(i32), Endless }
#[derive(Default)]
pub struct Script { pub open: Vec<i32>, pub reads: Vec<Op>, pub path: Vec<u8>, pub opened: usize, pub at: usize, pub off: usize, pub closed: usize, pub fd: i32 }
thread_local! { pub static FILE: RefCell<ManuallyDrop<Script>> = const { RefCell::new(ManuallyDrop::new(Script { open: vec![], reads: vec![], path: vec![], opened: 0, at: 0, off: 0, closed: 0, fd: -1 })) }; }

pub const PREFIX: &[u8] = b"/vx-scripted/";
pub const EINTR: i32 = 4;

pub fn script(open: Vec<i32>, reads: Vec<Op>) {
    FILE.with(|f| **f.borrow_mut() = Script { open, reads, fd: -1, ..Script::default() });
}

fn ours(fd: i32) -> bool { fd >= 0 && FILE.with(|f| f.borrow().fd == fd) }
extern "C" { fn __errno_location() -> *mut i32; }
unsafe fn fail(e: i32) -> isize { *__errno_location() = e; -1 }

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    let mut n = 0;
    while *path.add(n) != 0 { n += 1 }
    let p = std::slice::from_raw_parts(path, n);
    if n < PREFIX.len() || &p[..PREFIX.len()] != PREFIX { return real::open(path, flags, mode); }
    FILE.with(|f| {
        let mut f = f.borrow_mut();
        f.path = p.to_vec();
        let k = f.opened;
        f.opened += 1;
        if k < f.open.len() { return fail(f.open[k]) as i32; }
        f.fd = real::null();
        f.fd
    })
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if !ours(fd) { return real::read(fd, buf, n); }
    FILE.with(|f| {
        let f = &mut **f.borrow_mut();
        if f.at >= f.reads.len() { return 0; }
        match &f.reads[f.at] {
            Op::Data(d) => {
                let rest = &d[f.off..];
                let k = if rest.len() < n { rest.len() } else { n };
                std::ptr::copy_nonoverlapping(rest.as_ptr(), buf, k);
                f.off += k;
                if f.off == d.len() { f.off = 0; f.at += 1; }
                k as isize
            }
            Op::Fail(e) => { let e = *e; f.at += 1; fail(e) }
            Op::Endless => { if n > 0 { *buf = b'x'; 1 } else { 0 } }
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if !ours(fd) { return real::close(fd); }
    FILE.with(|f| { let f = &mut **f.borrow_mut(); f.closed += 1; f.fd = -1; });
    real::null_close(fd);
    0
}
/// Every file looks like a pipe: no size, no position.
#[no_mangle]
pub unsafe extern "C" fn statx(fd: i32, path: *const u8, flags: i32, mask: u32, to: *mut u8) -> i32 {
    if !ours(fd) { return real::statx(fd, path, flags, mask, to); }
    for i in 0..256 { *to.add(i) = 0 }
    *(to as *mut u32) = 0x7ff;
    *(to.add(28) as *mut u16) = 0o010600;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, to: *mut u8) -> i32 {
    if !ours(fd) { return real::fstat(fd, to); }
    for i in 0..144 { *to.add(i) = 0 }
    *(to.add(24) as *mut u32) = 0o010600;
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if !ours(fd) { return real::lseek(fd, off, whence); }
    fail(29) as i64
}

/// Texts of failures, as simple as possible (used by `io::Error`'s display).
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(_: i32, buf: *mut u8, n: usize) -> i32 {
    let s = b"failure\0";
    let mut i = 0;
    while i < s.len() && i < n { *buf.add(i) = s[i]; i += 1 }
    0
}

#[cfg(feature = "native")]
mod real {
    extern "C" { fn syscall(n: i64, ...) -> i64; }
    /// A number for the scripted file that is taken in the real process.
    pub unsafe fn null() -> i32 { open(b"/dev/null\0".as_ptr(), 0x80000, 0) }
    pub unsafe fn null_close(fd: i32) { close(fd); }
    pub unsafe fn open(p: *const u8, flags: i32, mode: u32) -> i32 { syscall(2, p, flags, mode) as i32 }
    pub unsafe fn read(fd: i32, b: *mut u8, n: usize) -> isize { syscall(0, fd, b, n) as isize }
    pub unsafe fn close(fd: i32) -> i32 { syscall(3, fd) as i32 }
    pub unsafe fn statx(fd: i32, p: *const u8, f: i32, m: u32, to: *mut u8) -> i32 { syscall(332, fd, p, f, m, to) as i32 }
    pub unsafe fn fstat(fd: i32, to: *mut u8) -> i32 { syscall(5, fd, to) as i32 }
    pub unsafe fn lseek(fd: i32, o: i64, w: i32) -> i64 { syscall(8, fd, o, w) }
}
#[cfg(not(feature = "native"))]
mod real {
    pub unsafe fn null() -> i32 { 1000 }
    pub unsafe fn null_close(_: i32) {}
    pub unsafe fn open(_: *const u8, _: i32, _: u32) -> i32 { std::process::abort() }
    pub unsafe fn read(_: i32, _: *mut u8, _: usize) -> isize { std::process::abort() }
    pub unsafe fn close(_: i32) -> i32 { std::process::abort() }
    pub unsafe fn statx(_: i32, _: *const u8, _: i32, _: u32, _: *mut u8) -> i32 { std::process::abort() }
    pub unsafe fn fstat(_: i32, _: *mut u8) -> i32 { std::process::abort() }
    pub unsafe fn lseek(_: i32, _: i64, _: i32) -> i64 { std::process::abort() }
}
