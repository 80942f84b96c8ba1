//! Roots for tagged pointers, field pointers and smart-pointer conversions.
use alloc::{boxed::Box, rc::Rc, sync::Arc};
use core::pin::Pin;
use core::ptr::NonNull;
use osi::convert::{FromDeref, IntoDeref};
use osi::ptr::{NonNull4, OnceRef};

#[derive(Clone, Copy)]
#[repr(C, align(4))]
pub struct A4(pub [u8; 4]);

pub trait Tr {
    fn get(&self) -> u32;
}

macro_rules! tag {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type N = NonNull4<$t>;
            pub fn r_new_unchecked(v: NonNull<$t>) -> N { unsafe { N::new_unchecked(v) } }
            pub fn r_new(v: NonNull<$t>) -> Option<N> { N::new(v) }
            pub fn r_ptr(v: &N) -> NonNull<$t> { v.ptr() }
            pub fn r_meta(v: &N) -> usize { v.meta() }
            pub fn r_meta_bit(v: &N, bit: u8) -> bool { v.meta_bit(bit) }
            pub fn r_get0(v: &N) -> bool { v.get0() }
            pub fn r_get1(v: &N) -> bool { v.get1() }
            pub fn r_set_ptr(v: &mut N, p: NonNull<$t>) { unsafe { v.set_ptr_unchecked(p) } }
            pub fn r_set_meta(v: &mut N, m: usize) { v.set_meta(m) }
            pub fn r_set_meta_bit(v: &mut N, bit: u8, f: bool) { v.set_meta_bit(bit, f) }
            pub fn r_set0(v: &mut N, f: bool) { v.set0(f) }
            pub fn r_set1(v: &mut N, f: bool) { v.set1(f) }
        }
    };
}
tag!(t_u8, u8);
tag!(t_u32, u32);
tag!(t_u64, u64);
tag!(t_slice, [u16]);
tag!(t_str, str);
tag!(t_dyn, dyn Tr);
tag!(t_a4, A4);

macro_rules! field {
    ($m:ident, $c:ident { $($f:ident: $t:ty),* }, $($repr:tt)*) => {
        pub mod $m {
            use super::*;
            $($repr)*
            pub struct $c { $(pub $f: $t),* }
            $(pub mod $f {
                use super::*;
                pub type C = super::$c;
                pub const O: usize = osi::mem::typed_offset_of!(C, $f, $t);
                unsafe impl osi::meta::Field<O, $t> for C {}
                pub fn r_offset() -> usize { O }
                pub fn r_place(c: *mut C) -> *mut $t { unsafe { &raw mut (*c).$f } }
                pub fn r_field_of_ptr(c: *mut C) -> *mut $t { osi::meta::field_of_ptr::<O, $t, C>(c) }
                pub fn r_container_of_ptr(f: *mut $t) -> *mut C { osi::meta::container_of_ptr::<O, $t, C>(f) }
                pub fn r_round(c: *mut C) -> *mut C { osi::meta::container_of_ptr::<O, $t, C>(osi::meta::field_of_ptr::<O, $t, C>(c)) }
                pub fn r_field_of(c: &C) -> &$t { osi::meta::field_of::<O, $t, C>(c) }
                pub fn r_field_of_mut(c: &mut C) -> &mut $t { osi::meta::field_of_mut::<O, $t, C>(c) }
            })*
        }
    };
}
field!(c_repr, C { a: u8, b: u64, c: [u16; 3], d: (), e: i128, f: [u8; 70000], g: u8 }, #[repr(C)]);
field!(rust_repr, C { a: u8, b: u32, c: [u16; 3], d: *const u8, e: u8 },);
field!(aligned, C { a: u8, b: u64 }, #[repr(C, align(64))]);

extern "C" {
    fn x_drop(v: u64);
}

/// Value whose destructor is observable.
pub struct D(pub u64);
impl Drop for D {
    fn drop(&mut self) {
        unsafe { x_drop(self.0) }
    }
}
impl Tr for D {
    fn get(&self) -> u32 {
        self.0 as u32
    }
}

macro_rules! conv {
    ($m:ident, $p:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn r_into<'a>(v: $p) -> (*const $t, *const $t) { let a = &raw const *v; (a, IntoDeref::into_deref(v).into_ptr() as *const $t) }
            pub fn r_from<'a>(v: OnceRef<'a, $t>) -> (*const $t, $p) { let a = v.as_ptr() as *const $t; (a, unsafe { FromDeref::from_deref(v) }) }
            pub fn r_round<'a>(v: $p) -> $p { unsafe { FromDeref::from_deref(IntoDeref::into_deref(v)) } }
            pub fn r_deref<'a>(v: &$p) -> *const $t { &raw const **v }
            pub fn r_pin_into<'a>(v: Pin<$p>) -> (*const $t, *const $t) {
                let a = &raw const *v;
                let o = IntoDeref::pin_into_deref(v);
                (a, unsafe { Pin::into_inner_unchecked(o) }.into_ptr() as *const $t)
            }
            pub fn r_pin_round<'a>(v: Pin<$p>) -> Pin<$p> { unsafe { FromDeref::pin_from_deref(IntoDeref::pin_into_deref(v)) } }
            pub fn r_pin_from<'a>(v: Pin<OnceRef<'a, $t>>) -> Pin<$p> { unsafe { FromDeref::pin_from_deref(v) } }
        }
    };
}
conv!(ref_sized, &'a D, D);
conv!(mut_sized, &'a mut D, D);
conv!(box_sized, Box<D>, D);
conv!(rc_sized, Rc<D>, D);
conv!(arc_sized, Arc<D>, D);
conv!(ref_slice, &'a [u16], [u16]);
conv!(mut_slice, &'a mut [u16], [u16]);
conv!(box_slice, Box<[u16]>, [u16]);
conv!(rc_slice, Rc<[u16]>, [u16]);
conv!(arc_slice, Arc<[u16]>, [u16]);
conv!(ref_str, &'a str, str);
conv!(box_str, Box<str>, str);
conv!(rc_str, Rc<str>, str);
conv!(arc_str, Arc<str>, str);
conv!(ref_dyn, &'static dyn Tr, dyn Tr);
conv!(mut_dyn, &'static mut dyn Tr, dyn Tr);

// Wrappers around the raw form.
pub fn r_once_from_ref<'a>(v: &'a D) -> *mut D { OnceRef::from_ref(v).into_ptr() }
pub fn r_once_from_mut<'a>(v: &'a mut D) -> *mut D { OnceRef::from_mut(v).into_ptr() }
pub fn r_once_from_ptr(v: *mut D) -> *mut D { unsafe { OnceRef::from_ptr(v) }.into_ptr() }
pub fn r_once_from_nonnull(v: NonNull<D>) -> NonNull<D> { unsafe { OnceRef::from_nonnull(v) }.into_nonnull() }
pub fn r_once_into_ref<'a>(v: OnceRef<'a, D>) -> &'a D { v.into_ref() }
pub fn r_once_into_mut<'a>(v: OnceRef<'a, D>) -> &'a mut D { unsafe { v.into_mut() } }
pub fn r_once_as_ptr<'a>(v: &OnceRef<'a, D>) -> *mut D { v.as_ptr() }
pub fn r_once_as_nonnull<'a>(v: &OnceRef<'a, D>) -> NonNull<D> { v.as_nonnull() }
pub fn r_once_as_ref<'a, 'b>(v: &'b OnceRef<'a, D>) -> &'b D { v.as_ref() }
pub fn r_once_as_mut<'a, 'b>(v: &'b mut OnceRef<'a, D>) -> &'b mut D { unsafe { v.as_mut() } }
pub fn r_once_deref<'a, 'b>(v: &'b OnceRef<'a, D>) -> &'b D { &**v }
pub fn r_once_pin_ref<'a>(v: Pin<&'a D>) -> *mut D { unsafe { Pin::into_inner_unchecked(OnceRef::pin_from_ref(v)) }.into_ptr() }
pub fn r_once_pin_mut<'a>(v: Pin<&'a mut D>) -> *mut D { unsafe { Pin::into_inner_unchecked(OnceRef::pin_from_mut(v)) }.into_ptr() }
pub fn r_once_cfrom_ref<'a>(v: &'a D) -> *mut D { OnceRef::from(v).into_ptr() }
pub fn r_once_cfrom_mut<'a>(v: &'a mut D) -> *mut D { OnceRef::from(v).into_ptr() }
pub fn r_once_cpin_ref<'a>(v: Pin<&'a D>) -> *mut D { unsafe { Pin::into_inner_unchecked(Pin::<OnceRef<'a, D>>::from(v)) }.into_ptr() }
pub fn r_once_cpin_mut<'a>(v: Pin<&'a mut D>) -> *mut D { unsafe { Pin::into_inner_unchecked(Pin::<OnceRef<'a, D>>::from(v)) }.into_ptr() }
pub fn r_once_cinto_nonnull<'a>(v: OnceRef<'a, D>) -> NonNull<D> { v.into() }
pub fn r_once_cinto_const<'a>(v: OnceRef<'a, D>) -> *const D { v.into() }
pub fn r_once_cinto_mut<'a>(v: OnceRef<'a, D>) -> *mut D { v.into() }
pub fn r_ptr_cfrom<'a>(v: &'a D) -> *mut D { osi::ptr::Ptr::from(v).into_ptr() }
pub fn r_ptr_clone<'a>(v: &osi::ptr::Ptr<'a, D>) -> osi::ptr::Ptr<'a, D> { v.clone() }
pub fn r_ptr_cinto_nonnull<'a>(v: osi::ptr::Ptr<'a, D>) -> NonNull<D> { v.into() }
pub fn r_ptr_cinto_const<'a>(v: osi::ptr::Ptr<'a, D>) -> *const D { v.into() }
pub fn r_ptr_cinto_mut<'a>(v: osi::ptr::Ptr<'a, D>) -> *mut D { v.into() }
pub fn r_pin_as_ptr<'a>(v: Pin<&'a D>) -> *mut D { osi::pin::as_ptr(v) }
pub fn r_pin_as_mut_ptr<'a>(v: Pin<&'a mut D>) -> *mut D { osi::pin::as_mut_ptr(v) }
pub fn r_nonnull_from_ref(v: &D) -> NonNull<D> { osi::ptr::nonnull_from_ref(v) }
pub fn r_nonnull_from_mut(v: &mut D) -> NonNull<D> { osi::ptr::nonnull_from_mut(v) }
pub fn r_nonnull_from_pin_ref(v: Pin<&D>) -> NonNull<D> { osi::ptr::nonnull_from_pin_ref(v) }
pub fn r_nonnull_from_pin_mut(v: Pin<&mut D>) -> NonNull<D> { osi::ptr::nonnull_from_pin_mut(v) }
pub fn r_ptr_from_ref<'a>(v: &'a D) -> *mut D { osi::ptr::Ptr::from_ref(v).into_ptr() }
pub fn r_ptr_new(v: NonNull<D>) -> NonNull<D> { unsafe { osi::ptr::Ptr::new(v) }.into_nonnull() }
pub fn r_ptr_from_ptr(v: *mut D) -> *mut D { unsafe { osi::ptr::Ptr::from_ptr(v) }.as_ptr() }
pub fn r_ptr_as_nonnull<'a>(v: &osi::ptr::Ptr<'a, D>) -> NonNull<D> { v.as_nonnull() }
pub fn r_ptr_as_ref<'a, 'b>(v: &'b osi::ptr::Ptr<'a, D>) -> &'b D { unsafe { v.as_ref() } }
pub fn r_ptr_as_mut<'a, 'b>(v: &'b mut osi::ptr::Ptr<'a, D>) -> &'b mut D { unsafe { v.as_mut() } }
pub fn r_ptr_into_ref<'a>(v: osi::ptr::Ptr<'a, D>) -> &'a D { unsafe { v.into_ref() } }
pub fn r_ptr_into_mut<'a>(v: osi::ptr::Ptr<'a, D>) -> &'a mut D { unsafe { v.into_mut() } }
