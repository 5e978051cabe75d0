//! The call-outs the compiler inserts into the code under test (`-Zsanitizer=thread` with an
//! external runtime). Every one is a possible preemption point of the simulated scheduler; the
//! atomic ones also perform the operation. This crate itself is not instrumented.
#![allow(non_snake_case)]
use crate::rt::{point, W_ATOMIC, W_PLAIN};
use std::sync::atomic::*;

macro_rules! plain { ($($n:ident),*) => { $( #[no_mangle] pub extern "C" fn $n(_a: *const u8) { point(W_PLAIN) } )* } }
macro_rules! ranged { ($($n:ident),*) => { $( #[no_mangle] pub extern "C" fn $n(_a: *const u8, _n: usize) { point(W_PLAIN) } )* } }
macro_rules! nothing { ($($n:ident),*) => { $( #[no_mangle] pub extern "C" fn $n() {} )* } }
macro_rules! nothing1 { ($($n:ident),*) => { $( #[no_mangle] pub extern "C" fn $n(_a: *const u8) {} )* } }

plain!(
    __tsan_read1, __tsan_read2, __tsan_read4, __tsan_read8, __tsan_read16,
    __tsan_write1, __tsan_write2, __tsan_write4, __tsan_write8, __tsan_write16,
    __tsan_unaligned_read2, __tsan_unaligned_read4, __tsan_unaligned_read8, __tsan_unaligned_read16,
    __tsan_unaligned_write2, __tsan_unaligned_write4, __tsan_unaligned_write8, __tsan_unaligned_write16,
    __tsan_read_write1, __tsan_read_write2, __tsan_read_write4, __tsan_read_write8, __tsan_read_write16,
    __tsan_unaligned_read_write2, __tsan_unaligned_read_write4, __tsan_unaligned_read_write8,
    __tsan_unaligned_read_write16,
    __tsan_volatile_read1, __tsan_volatile_read2, __tsan_volatile_read4, __tsan_volatile_read8,
    __tsan_volatile_read16, __tsan_volatile_write1, __tsan_volatile_write2, __tsan_volatile_write4,
    __tsan_volatile_write8, __tsan_volatile_write16,
    __tsan_unaligned_volatile_read2, __tsan_unaligned_volatile_read4, __tsan_unaligned_volatile_read8,
    __tsan_unaligned_volatile_read16, __tsan_unaligned_volatile_write2, __tsan_unaligned_volatile_write4,
    __tsan_unaligned_volatile_write8, __tsan_unaligned_volatile_write16,
    __tsan_vptr_read
);
ranged!(__tsan_read_range, __tsan_write_range);
nothing!(__tsan_init, __tsan_func_exit, __tsan_ignore_thread_begin, __tsan_ignore_thread_end);
nothing1!(__tsan_func_entry);

#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_a: *const u8, _v: *const u8) {
    point(W_PLAIN)
}
extern "C" {
    fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    point(W_PLAIN);
    memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    point(W_PLAIN);
    memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    point(W_PLAIN);
    memset(d, c, n)
}

macro_rules! atomics {
    ($t:ty, $at:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident,
     $xor:ident, $nand:ident, $cas:ident, $casw:ident, $casv:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *mut $t, _o: i32) -> $t {
            point(W_ATOMIC);
            <$at>::from_ptr(a).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *mut $t, v: $t, _o: i32) {
            point(W_ATOMIC);
            <$at>::from_ptr(a).store(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(a: *mut $t, v: $t, _o: i32) -> $t {
            point(W_ATOMIC);
            <$at>::from_ptr(a).swap(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(a: *mut $t, v: $t, _o: i32) -> $t {
            point(W_ATOMIC);
            <$at>::from_ptr(a).fetch_add(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(a: *mut $t, v: $t, _o: i32) -> $t {
            point(W_ATOMIC);
            <$at>::from_ptr(a).fetch_sub(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(a: *mut $t, v: $t, _o: i32) -> $t {
            point(W_ATOMIC);
            <$at>::from_ptr(a).fetch_and(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(a: *mut $t, v: $t, _o: i32) -> $t {
            point(W_ATOMIC);
            <$at>::from_ptr(a).fetch_or(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(a: *mut $t, v: $t, _o: i32) -> $t {
            point(W_ATOMIC);
            <$at>::from_ptr(a).fetch_xor(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(a: *mut $t, v: $t, _o: i32) -> $t {
            point(W_ATOMIC);
            <$at>::from_ptr(a).fetch_nand(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(a: *mut $t, c: *mut $t, v: $t, _o: i32, _fo: i32) -> i32 {
            point(W_ATOMIC);
            match <$at>::from_ptr(a).compare_exchange(*c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *c = x;
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casw(a: *mut $t, c: *mut $t, v: $t, o: i32, fo: i32) -> i32 {
            $cas(a, c, v, o, fo)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casv(a: *mut $t, c: $t, v: $t, _o: i32, _fo: i32) -> $t {
            point(W_ATOMIC);
            match <$at>::from_ptr(a).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(x) => x,
                Err(x) => x,
            }
        }
    };
}
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange,
    __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or,
    __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_strong,
    __tsan_atomic8_compare_exchange_weak, __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange,
    __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or,
    __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_strong,
    __tsan_atomic16_compare_exchange_weak, __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange,
    __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or,
    __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_strong,
    __tsan_atomic32_compare_exchange_weak, __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange,
    __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or,
    __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_strong,
    __tsan_atomic64_compare_exchange_weak, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    point(W_ATOMIC)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
