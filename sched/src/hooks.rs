//! What the compiler's thread instrumentation calls: every atomic operation, and
//! every access to writable global data, is a scheduling point; atomics are then
//! carried out here.

#![allow(non_snake_case, clippy::missing_safety_doc)]

use crate::sched::point;
use std::ffi::c_void;
use std::sync::atomic::*;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
pub fn global(a: usize) -> bool {
    let lo = &raw const __data_start as usize;
    let hi = &raw const _end as usize;
    a >= lo && a < hi
}

#[inline(always)]
fn data(a: *const c_void, what: u8) {
    let a = a as usize;
    if global(a) {
        point(a, what);
    }
}

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: *const c_void) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}

macro_rules! access {
    ($($r:ident $w:ident $u:ident $v:ident;)*) => { $(
        #[no_mangle] pub extern "C" fn $r(a: *const c_void) { data(a, b'r') }
        #[no_mangle] pub extern "C" fn $w(a: *const c_void) { data(a, b'w') }
        #[no_mangle] pub extern "C" fn $u(a: *const c_void) { data(a, b'r') }
        #[no_mangle] pub extern "C" fn $v(a: *const c_void) { data(a, b'w') }
    )* };
}
access! {
    __tsan_read1 __tsan_write1 __tsan_unaligned_read1 __tsan_unaligned_write1;
    __tsan_read2 __tsan_write2 __tsan_unaligned_read2 __tsan_unaligned_write2;
    __tsan_read4 __tsan_write4 __tsan_unaligned_read4 __tsan_unaligned_write4;
    __tsan_read8 __tsan_write8 __tsan_unaligned_read8 __tsan_unaligned_write8;
    __tsan_read16 __tsan_write16 __tsan_unaligned_read16 __tsan_unaligned_write16;
}

macro_rules! both {
    ($($f:ident)*) => { $( #[no_mangle] pub extern "C" fn $f(a: *const c_void) { data(a, b'w') } )* };
}
both! { __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
__tsan_unaligned_read_write1 __tsan_unaligned_read_write2 __tsan_unaligned_read_write4 __tsan_unaligned_read_write8 __tsan_unaligned_read_write16
__tsan_vptr_read }

#[no_mangle]
pub extern "C" fn __tsan_vptr_update(a: *const c_void, _: *const c_void) {
    data(a, b'w')
}
#[no_mangle]
pub extern "C" fn __tsan_read_range(a: *const c_void, _: usize) {
    data(a, b'r')
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(a: *const c_void, _: usize) {
    data(a, b'w')
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    data(s, b'r');
    data(d, b'w');
    libc::memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    data(s, b'r');
    data(d, b'w');
    libc::memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut c_void, c: i32, n: usize) -> *mut c_void {
    data(d, b'w');
    libc::memset(d, c, n)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    fence(Ordering::SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {
    compiler_fence(Ordering::SeqCst);
}

use Ordering::SeqCst;

#[inline(always)]
fn at<T>(a: *mut T) {
    point(a as usize, b'a');
}

#[inline(always)]
fn look<T>(a: *mut T) {
    point(a as usize, b'l');
}

macro_rules! atomics {
    ($($t:ident $A:ident $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cs:ident $cw:ident $cv:ident;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $load(a: *mut $t, _: i32) -> $t { look(a); $A::from_ptr(a).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(a: *mut $t, v: $t, _: i32) { at(a); $A::from_ptr(a).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(a: *mut $t, v: $t, _: i32) -> $t { at(a); $A::from_ptr(a).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(a: *mut $t, v: $t, _: i32) -> $t { at(a); $A::from_ptr(a).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(a: *mut $t, v: $t, _: i32) -> $t { at(a); $A::from_ptr(a).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(a: *mut $t, v: $t, _: i32) -> $t { at(a); $A::from_ptr(a).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(a: *mut $t, v: $t, _: i32) -> $t { at(a); $A::from_ptr(a).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(a: *mut $t, v: $t, _: i32) -> $t { at(a); $A::from_ptr(a).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(a: *mut $t, v: $t, _: i32) -> $t { at(a); $A::from_ptr(a).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cs(a: *mut $t, e: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            at(a);
            match $A::from_ptr(a).compare_exchange(*e, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *e = x; 0 } }
        }
        #[no_mangle] pub unsafe extern "C" fn $cw(a: *mut $t, e: *mut $t, v: $t, f: i32, g: i32) -> i32 { $cs(a, e, v, f, g) }
        #[no_mangle] pub unsafe extern "C" fn $cv(a: *mut $t, e: $t, v: $t, _: i32, _: i32) -> $t {
            at(a);
            match $A::from_ptr(a).compare_exchange(e, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
        }
    )* };
}
atomics! {
    u8 AtomicU8 __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
    u16 AtomicU16 __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
    u32 AtomicU32 __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
    u64 AtomicU64 __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
}
