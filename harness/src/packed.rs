//! Roots for packed and ABI wrappers.
use core::num::*;
use osi::align::AlignAs;
use osi::ffi::{BigEndian, Integer, LittleEndian, NativeAddress, Packed, Pointer};

extern "C" {
    fn x_drop(v: u64);
}

/// Value whose destructor is observable.
#[repr(C, align(8))]
pub struct D(pub u64, pub u8);
impl Drop for D {
    fn drop(&mut self) {
        unsafe { x_drop(self.0) }
    }
}
#[derive(Clone, Copy)]
#[repr(C, align(16))]
pub struct A16(pub u64, pub u32);

macro_rules! wrap {
    ($m:ident, $w:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type W = $w;
            pub fn r_new(v: $t) -> W { W::new(v) }
            pub fn r_into_inner(v: W) -> $t { v.into_inner() }
            pub fn r_as_ptr(v: &W) -> *const $t { v.as_ptr() }
            pub fn r_as_mut_ptr(v: &mut W) -> *mut $t { v.as_mut_ptr() }
            pub fn r_set(v: &mut W, x: $t) { v.set(x) }
            pub fn r_replace(v: &mut W, x: $t) -> $t { v.replace(x) }
            pub fn r_drop(v: W) { drop(v) }
        }
    };
}
macro_rules! copy {
    ($m:ident, $w:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type W = $w;
            pub fn r_new(v: $t) -> W { W::new(v) }
            pub fn r_into_inner(v: W) -> $t { v.into_inner() }
            pub fn r_as_ptr(v: &W) -> *const $t { v.as_ptr() }
            pub fn r_as_mut_ptr(v: &mut W) -> *mut $t { v.as_mut_ptr() }
            pub fn r_set(v: &mut W, x: $t) { v.set(x) }
            pub fn r_replace(v: &mut W, x: $t) -> $t { v.replace(x) }
            pub fn r_get(v: &W) -> $t { v.get() }
            pub fn r_clone(v: &W) -> W { v.clone() }
            pub fn r_from(v: $t) -> W { W::from(v) }
        }
    };
}
macro_rules! deft {
    ($m:ident, $w:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type W = $w;
            pub fn r_take(v: &mut W) -> $t { v.take() }
            pub fn r_default() -> W { W::default() }
            pub fn r_default_value() -> $t { <$t>::default() }
        }
    };
}
copy!(p_u8, Packed<u8>, u8);
copy!(p_u16, Packed<u16>, u16);
copy!(p_u32, Packed<u32>, u32);
copy!(p_u64, Packed<u64>, u64);
copy!(p_i64, Packed<i64>, i64);
copy!(p_u128, Packed<u128>, u128);
copy!(p_nz, Packed<NonZeroU32>, NonZeroU32);
copy!(p_a16, Packed<A16>, A16);
copy!(p_arr, Packed<[u16; 3]>, [u16; 3]);
copy!(p_be, Packed<BigEndian<u32>>, BigEndian<u32>);
wrap!(p_drop, Packed<D>, D);
deft!(pd_u8, Packed<u8>, u8);
deft!(pd_u64, Packed<u64>, u64);
deft!(pd_i128, Packed<i128>, i128);
copy!(i_u8_1, Integer<u8, AlignAs<1>>, u8);
copy!(i_u8_4, Integer<u8, AlignAs<4>>, u8);
copy!(i_u32_1, Integer<u32, AlignAs<1>>, u32);
copy!(i_u32_2, Integer<u32, AlignAs<2>>, u32);
copy!(i_u32_4, Integer<u32, AlignAs<4>>, u32);
copy!(i_u32_8, Integer<u32, AlignAs<8>>, u32);
copy!(i_u64_4, Integer<u64, AlignAs<4>>, u64);
copy!(i_u64_8, Integer<u64, AlignAs<8>>, u64);
copy!(i_u128_8, Integer<u128, AlignAs<8>>, u128);
copy!(i_be_4, Integer<BigEndian<u64>, AlignAs<4>>, BigEndian<u64>);
copy!(i_nz_4, Integer<NonZeroU64, AlignAs<4>>, NonZeroU64);
wrap!(i_drop_1, Integer<D, AlignAs<1>>, D);
wrap!(i_drop_8, Integer<D, AlignAs<8>>, D);
wrap!(i_drop_32, Integer<D, AlignAs<32>>, D);
deft!(id_u8, Integer<u8, AlignAs<4>>, u8);
deft!(id_u64, Integer<u64, AlignAs<4>>, u64);

macro_rules! ptr {
    ($m:ident, $a:ty) => {
        pub mod $m {
            use super::*;
            pub type W = Pointer<$a, u32>;
            pub fn r_new(v: $a) -> W { W::new(v) }
            pub fn r_into_inner(v: W) -> $a { v.into_inner() }
            pub fn r_address(v: &W) -> *const $a { v.address() }
            pub fn r_set(v: &mut W, x: $a) { v.set(x) }
            pub fn r_replace(v: &mut W, x: $a) -> $a { v.replace(x) }
            pub fn r_cast_into(v: W) -> Pointer<$a, u8> { v.cast_into() }
        }
    };
}
macro_rules! ptrcopy {
    ($m:ident, $a:ty) => {
        pub mod $m {
            use super::*;
            pub type W = Pointer<$a, u32>;
            pub fn r_get(v: &W) -> $a { v.get() }
            pub fn r_cast(v: &W) -> Pointer<$a, u8> { v.cast() }
            pub fn r_clone(v: &W) -> W { v.clone() }
        }
    };
}
ptr!(q_u32, u32);
ptr!(q_u64, u64);
ptr!(q_nz, NonZeroUsize);
ptr!(q_be, BigEndian<u64>);
ptr!(q_int, Integer<u64, AlignAs<4>>);
ptr!(q_drop, D);
ptrcopy!(qc_u32, u32);
ptrcopy!(qc_u64, u64);
ptrcopy!(qc_int, Integer<u64, AlignAs<4>>);

macro_rules! addr {
    ($m:ident, $w:ty) => {
        pub mod $m {
            use super::*;
            pub type W = $w;
            pub fn r_from_usize_unchecked(v: NonZeroUsize) -> W { unsafe { <W as NativeAddress<u32>>::from_usize_unchecked(v.get()) } }
            pub fn r_from_usize(v: usize) -> Option<usize> { <W as NativeAddress<u32>>::from_usize(v).map(|x| NativeAddress::<u32>::to_usize(&x)) }
            pub fn r_to_usize(v: &W) -> usize { NativeAddress::<u32>::to_usize(v) }
            pub fn r_into_usize(v: W) -> usize { NativeAddress::<u32>::into_usize(v) }
            pub fn r_round(v: NonZeroUsize) -> usize { unsafe { NativeAddress::<u32>::to_usize(&<W as NativeAddress<u32>>::from_usize_unchecked(v.get())) } }
            pub fn r_as_ptr(v: &W) -> *const u32 { NativeAddress::<u32>::as_ptr(v) }
            pub fn r_as_mut_ptr(v: &W) -> *mut u32 { NativeAddress::<u32>::as_mut_ptr(v) }
            pub fn r_dangling() -> usize { NativeAddress::<u32>::to_usize(&<W as NativeAddress<u32>>::dangling()) }
        }
    };
}
addr!(n_usize, usize);
addr!(n_nz, NonZeroUsize);
addr!(n_int, Integer<usize, AlignAs<4>>);
addr!(n_intnz, Integer<NonZeroUsize, AlignAs<1>>);
addr!(n_ptr, Pointer<usize, u32>);
addr!(n_ptrnz, Pointer<NonZeroUsize, u32>);
addr!(n_ptrint, Pointer<Integer<NonZeroUsize, AlignAs<4>>, u32>);

macro_rules! inherent {
    ($m:ident, $w:ty) => {
        pub mod $m {
            use super::*;
            pub type W = $w;
            pub fn r_from_usize_unchecked(v: NonZeroUsize) -> W { unsafe { W::from_usize_unchecked(v.get()) } }
            pub fn r_from_usize(v: usize) -> Option<usize> { W::from_usize(v).map(|x| x.to_usize()) }
            pub fn r_to_usize(v: &W) -> usize { v.to_usize() }
            pub fn r_into_usize(v: W) -> usize { v.into_usize() }
            pub fn r_as_ptr(v: &W) -> *const u32 { v.as_ptr() }
            pub fn r_as_mut_ptr(v: &W) -> *mut u32 { v.as_mut_ptr() }
            pub fn r_dangling() -> usize { W::dangling().to_usize() }
            pub fn r_ref(v: &mut u32) -> *const u32 { let p = W::from(v); unsafe { p.as_ref() } }
            pub fn r_mut(v: &mut u32) -> *mut u32 { let p = W::from(v); unsafe { p.as_mut() } }
            pub fn r_tref(v: &mut u32) -> *const u32 { let p = W::from(v); unsafe { NativeAddress::<u32>::as_ref(&p) } }
            pub fn r_tmut(v: &mut u32) -> *mut u32 { let p = W::from(v); unsafe { NativeAddress::<u32>::as_mut(&p) } }
        }
    };
}
inherent!(n_iptr, Pointer<usize, u32>);
inherent!(n_iptrnz, Pointer<NonZeroUsize, u32>);
inherent!(n_iptrint, Pointer<Integer<NonZeroUsize, AlignAs<4>>, u32>);

macro_rules! pfrom {
    ($m:ident, $w:ty) => {
        pub mod $m {
            use super::*;
            pub type W = $w;
            pub fn r_from_ref(v: &u32) -> usize { W::from(v).to_usize() }
            pub fn r_from_mut(v: &mut u32) -> usize { W::from(v).to_usize() }
            pub fn r_try_ptr(v: *const u32) -> Option<usize> { W::try_from(v).ok().map(|x| x.to_usize()) }
            pub fn r_try_mut(v: *mut u32) -> Option<usize> { W::try_from(v).ok().map(|x| x.to_usize()) }
            pub fn r_try_usize(v: usize) -> Option<usize> { W::try_from(v).ok().map(|x| x.to_usize()) }
        }
    };
}
pfrom!(f_ptr, Pointer<usize, u32>);
pfrom!(f_ptrnz, Pointer<NonZeroUsize, u32>);

macro_rules! order {
    ($m:ident, $w:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type W = $w;
            pub fn r_from_native(v: $t) -> W { W::from_native(v) }
            pub fn r_to_native(v: W) -> $t { v.to_native() }
            pub fn r_from_raw(v: $t) -> W { W::from_raw(v) }
            pub fn r_to_raw(v: W) -> $t { v.to_raw() }
        }
    };
}
order!(be_int_u64_4, Integer<BigEndian<u64>, AlignAs<4>>, u64);
order!(be_int_u16_8, Integer<BigEndian<u16>, AlignAs<8>>, u16);
order!(le_int_u32_1, Integer<LittleEndian<u32>, AlignAs<1>>, u32);
order!(ne_int_u32_4, Integer<u32, AlignAs<4>>, u32);
order!(be_ptr_u64, Pointer<BigEndian<u64>, u8>, u64);
order!(le_ptr_u32, Pointer<LittleEndian<u32>, u8>, u32);
order!(le_ptr_int, Pointer<Integer<LittleEndian<u64>, AlignAs<4>>, u8>, u64);
