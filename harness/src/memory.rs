//! Roots for byte-level memory helpers.
use core::mem::MaybeUninit as U;
use osi::mem;

#[derive(Clone, Copy)]
#[repr(C, align(2))]
pub struct A2<const N: usize>(pub [u8; N]);
#[derive(Clone, Copy)]
#[repr(C, align(4))]
pub struct A4<const N: usize>(pub [u8; N]);
#[derive(Clone, Copy)]
#[repr(C, align(8))]
pub struct A8<const N: usize>(pub [u8; N]);
#[derive(Clone, Copy)]
#[repr(C, align(16))]
pub struct A16<const N: usize>(pub [u8; N]);
#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct K<T>(pub T);

macro_rules! grid {
    ($($m:ident: $s:ty),* $(,)?) => {
        $(pub mod $m { use super::*; pub type S = $s; row!(); })*
    };
}
macro_rules! row {
    () => {
        to!(r_tc_0, [u8; 0]); to!(r_tc_1, u8); to!(r_tc_2, [u8; 2]); to!(r_tc_3, [u8; 3]); to!(r_tc_5, [u8; 5]); to!(r_tc_8, [u8; 8]);
        to!(r_tc_16, [u8; 16]); to!(r_tc_24, [u8; 24]); to!(r_tc_u16, u16); to!(r_tc_u32, u32); to!(r_tc_u64, u64); to!(r_tc_u128, u128);
        to!(r_tc_2x3, A2<6>); to!(r_tc_4x3, A4<12>); to!(r_tc_8x3, A8<24>); to!(r_tc_16x2, A16<32>); to!(r_tc_k32, K<u32>); to!(r_tc_k64, K<u64>);
        pub fn r_bswap(v: &S) -> S { unsafe { mem::bswap_copy(v) } }
        pub fn r_as_bytes(v: &S) -> &[u8] { unsafe { mem::as_bytes(v) } }
        pub fn r_as_bytes_mut(v: &mut S) -> &mut [u8] { unsafe { mem::as_bytes_mut(v) } }
        pub fn r_as_uninit(v: &S) -> &U<S> { mem::as_uninit(v) }
        pub fn r_assume_init(v: &U<S>) -> &S { unsafe { mem::assume_init(v) } }
        pub fn r_assume_init_mut(v: &mut U<S>) -> &mut S { unsafe { mem::assume_init_mut(v) } }
        pub fn r_slice_as_uninit(v: &[S]) -> &[U<S>] { mem::slice_as_uninit(v) }
        pub fn r_slice_assume_init(v: &[U<S>]) -> &[S] { unsafe { mem::slice_assume_init(v) } }
        pub fn r_slice_assume_init_mut(v: &mut [U<S>]) -> &mut [S] { unsafe { mem::slice_assume_init_mut(v) } }
        pub fn r_eq_1(a: &S, b: &[u8; 1]) -> bool { unsafe { mem::eq(a, b) } }
        pub fn r_eq_3(a: &S, b: &[u8; 3]) -> bool { unsafe { mem::eq(a, b) } }
        pub fn r_eq_self(a: &S, b: &S) -> bool { unsafe { mem::eq(a, b) } }
    };
}
macro_rules! to {
    ($n:ident, $d:ty) => { pub fn $n(v: &S) -> $d { unsafe { mem::transmute_copy_uninit::<S, $d>(v) } } };
}
grid! {
    s0: [u8; 0], s1: u8, s2: [u8; 2], s3: [u8; 3], s4: [u8; 4], s5: [u8; 5], s6: [u8; 6], s7: [u8; 7], s8: [u8; 8], s9: [u8; 9],
    s10: [u8; 10], s11: [u8; 11], s12: [u8; 12], s15: [u8; 15], s16: [u8; 16], s17: [u8; 17], s24: [u8; 24], s32: [u8; 32], s33: [u8; 33],
    u16_: u16, u32_: u32, u64_: u64, u128_: u128, a2: A2<6>, a4: A4<12>, a4b: A4<4>, a8: A8<24>, a8b: A8<8>, a16: A16<32>, a16b: A16<16>,
    k16: K<u16>, k32: K<u32>, k64: K<u64>, k128: K<u128>, p16: [u16; 3], p32: [u32; 4], p64: [u64; 2],
}
