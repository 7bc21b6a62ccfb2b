//! The calls the compiler inserts into the library under test when it is built with thread
//! instrumentation (C19 only, see build.sh): every access to memory. Accesses to the program's
//! writable static memory, and atomic operations anywhere, become scheduling points; atomic
//! operations are then carried out in order. In the plain build nothing calls these.

use std::cell::Cell;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::{Relaxed, SeqCst}};

static LOW: AtomicUsize = AtomicUsize::new(0);
static HIGH: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    /// 0: no points; 1: at accesses to statics; 2: also at atomic operations elsewhere.
    static MODE: Cell<u8> = const { Cell::new(0) };
}
pub static SEEN: AtomicU64 = AtomicU64::new(0);

pub fn set_mode(m: u8) { MODE.with(|x| x.set(m)); }

/// Finds the writable static memory of this program.
pub fn init() {
    let exe = std::fs::read_link("/proc/self/exe").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let (mut lo, mut hi) = (0, 0);
    for l in maps.lines() {
        let mut f = l.split_whitespace();
        let (a, perm) = (f.next().unwrap_or(""), f.next().unwrap_or(""));
        let path = f.nth(3).unwrap_or("");
        let (s, e) = match a.split_once('-') { Some((s, e)) => (usize::from_str_radix(s, 16).unwrap_or(0), usize::from_str_radix(e, 16).unwrap_or(0)), None => continue };
        if perm.starts_with("rw") && (path == exe || path.is_empty() && hi != 0 && s == hi) {
            if lo == 0 { lo = s; }
            hi = e;
        }
    }
    LOW.store(lo, SeqCst); HIGH.store(hi, SeqCst);
}

#[inline(always)]
fn access(p: *const c_void) {
    let a = p as usize;
    if a >= LOW.load(Relaxed) && a < HIGH.load(Relaxed) { hit(1); }
}
#[inline(always)]
fn atomic(p: *const c_void) {
    let a = p as usize;
    hit(if a >= LOW.load(Relaxed) && a < HIGH.load(Relaxed) { 1 } else { 2 });
}
#[inline(never)]
fn hit(kind: u8) {
    if kind == 1 { SEEN.fetch_add(1, Relaxed); }
    let m = MODE.with(|x| x.get());
    if m >= kind { set_mode(0); crate::p_calls::point(); set_mode(m); }
}

macro_rules! plain { ($($n:ident)*) => { $( #[no_mangle] pub extern "C" fn $n(p: *mut c_void) { access(p) } )* } }
plain! { __tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16 __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
    __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16 __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
    __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
    __tsan_unaligned_read_write2 __tsan_unaligned_read_write4 __tsan_unaligned_read_write8 __tsan_unaligned_read_write16
    __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_read16
    __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_volatile_write16
    __tsan_vptr_read }
#[no_mangle] pub extern "C" fn __tsan_vptr_update(p: *mut c_void, _: *mut c_void) { access(p) }
#[no_mangle] pub extern "C" fn __tsan_init() {}
#[no_mangle] pub extern "C" fn __tsan_func_entry(_: *mut c_void) {}
#[no_mangle] pub extern "C" fn __tsan_func_exit() {}
#[no_mangle] pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle] pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle] pub extern "C" fn __tsan_read_range(p: *mut c_void, _: usize) { access(p) }
#[no_mangle] pub extern "C" fn __tsan_write_range(p: *mut c_void, _: usize) { access(p) }
extern "C" { fn memcpy(a: *mut c_void, b: *const c_void, n: usize) -> *mut c_void; fn memmove(a: *mut c_void, b: *const c_void, n: usize) -> *mut c_void; fn memset(a: *mut c_void, v: c_int, n: usize) -> *mut c_void; }
#[no_mangle] pub unsafe extern "C" fn __tsan_memcpy(a: *mut c_void, b: *const c_void, n: usize) -> *mut c_void { access(b); access(a); memcpy(a, b, n) }
#[no_mangle] pub unsafe extern "C" fn __tsan_memmove(a: *mut c_void, b: *const c_void, n: usize) -> *mut c_void { access(b); access(a); memmove(a, b, n) }
#[no_mangle] pub unsafe extern "C" fn __tsan_memset(a: *mut c_void, v: c_int, n: usize) -> *mut c_void { access(a); memset(a, v, n) }
#[no_mangle] pub extern "C" fn __tsan_atomic_thread_fence(_: c_int) {}
#[no_mangle] pub extern "C" fn __tsan_atomic_signal_fence(_: c_int) {}

macro_rules! atomics { ($t:ty, $at:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $strong:ident $weak:ident $val:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $load(p: *const $at, _: c_int) -> $t { atomic(p as *const c_void); (*p).load(SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $store(p: *const $at, v: $t, _: c_int) { atomic(p as *const c_void); (*p).store(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xchg(p: *const $at, v: $t, _: c_int) -> $t { atomic(p as *const c_void); (*p).swap(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $add(p: *const $at, v: $t, _: c_int) -> $t { atomic(p as *const c_void); (*p).fetch_add(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $sub(p: *const $at, v: $t, _: c_int) -> $t { atomic(p as *const c_void); (*p).fetch_sub(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $and(p: *const $at, v: $t, _: c_int) -> $t { atomic(p as *const c_void); (*p).fetch_and(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $or(p: *const $at, v: $t, _: c_int) -> $t { atomic(p as *const c_void); (*p).fetch_or(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xor(p: *const $at, v: $t, _: c_int) -> $t { atomic(p as *const c_void); (*p).fetch_xor(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $nand(p: *const $at, v: $t, _: c_int) -> $t { atomic(p as *const c_void); (*p).fetch_nand(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $strong(p: *const $at, c: *mut $t, v: $t, _: c_int, _: c_int) -> c_int { atomic(p as *const c_void); match (*p).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
    #[no_mangle] pub unsafe extern "C" fn $weak(p: *const $at, c: *mut $t, v: $t, _: c_int, _: c_int) -> c_int { atomic(p as *const c_void); match (*p).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
    #[no_mangle] pub unsafe extern "C" fn $val(p: *const $at, c: $t, v: $t, _: c_int, _: c_int) -> $t { atomic(p as *const c_void); match (*p).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x } }
} }
atomics!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val);
