//! Stand-ins, under lsx only, for calls into the operating system that code may make besides reading files:
//! keys of the current thread, the clock, random numbers (hash seeds), output. One thread, whose end is never reached.
static mut KEYS: [*mut u8; 64] = [std::ptr::null_mut(); 64];
static mut NEXT: u32 = 1;
static mut NOW: i64 = 0;

#[no_mangle]
pub unsafe extern "C" fn pthread_key_create(key: *mut u32, _: *const u8) -> i32 { if NEXT as usize >= 64 { return 11; } *key = NEXT; NEXT += 1; 0 }
#[no_mangle]
pub unsafe extern "C" fn pthread_key_delete(_: u32) -> i32 { 0 }
#[no_mangle]
pub unsafe extern "C" fn pthread_setspecific(key: u32, v: *mut u8) -> i32 { KEYS[key as usize % 64] = v; 0 }
#[no_mangle]
pub unsafe extern "C" fn pthread_getspecific(key: u32) -> *mut u8 { KEYS[key as usize % 64] }
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: i32, to: *mut i64) -> i32 { NOW += 1; *to = 1_000_000; *to.add(1) = NOW % 1_000_000_000; 0 }
/// Only random numbers; anything else fails.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, buf: *mut u8, len: usize) -> i64 {
    if n != 318 { return -1; }
    for i in 0..len { *buf.add(i) = 0x5a ^ i as u8 }
    len as i64
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _: u32) -> isize { syscall(318, buf, len) as isize }
#[no_mangle]
pub unsafe extern "C" fn write(_: i32, _: *const u8, n: usize) -> isize { n as isize }
#[no_mangle]
pub unsafe extern "C" fn writev(_: i32, v: *const usize, n: i32) -> isize {
    let mut k = 0;
    for i in 0..n as usize { k += *v.add(2 * i + 1) }
    k as isize
}
