//! Roots for type-erased errors and for the byte views of file headers.
#[cfg(feature = "std")]
extern crate std;
use alloc::boxed::Box;
use core::fmt::{Debug, Display, Formatter};
use core::mem::forget;
use osi::error::Uncaught;
use tmp::msdosmz::{Header, HeaderExt, Relocation};

extern "C" {
    fn x_drop(v: u64);
}

/// Value whose destructor is observable.
pub struct D(pub u64);
impl Drop for D {
    fn drop(&mut self) {
        unsafe { x_drop(self.0) }
    }
}
impl Debug for D {
    fn fmt(&self, _: &mut Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
impl Display for D {
    fn fmt(&self, _: &mut Formatter<'_>) -> core::fmt::Result { Err(core::fmt::Error) }
}

#[cfg(feature = "std")]
impl std::error::Error for D {}

fn kind(u: &Uncaught) -> (u32, *const D) {
    match u {
        Uncaught::Any(v) => (1, &raw const **v as *const D),
        Uncaught::Debug(v) => (2, &raw const **v as *const D),
        Uncaught::Display(v) => (3, &raw const **v as *const D),
        Uncaught::Error(v) => (4, &raw const **v as *const D),
        Uncaught::StaticAny(v) => (5, &raw const **v as *const D),
        Uncaught::StaticDebug(v) => (6, &raw const **v as *const D),
        Uncaught::StaticDisplay(v) => (7, &raw const **v as *const D),
        Uncaught::StaticError(v) => (8, &raw const **v as *const D),
    }
}

macro_rules! erase {
    ($m:ident, $fold:ident, $stat:ident, $boxed:ident) => {
        pub mod $m {
            use super::*;
            pub fn r_fold(v: Box<D>) -> (u32, *const D) { let u = Uncaught::$fold(v); let r = kind(&u); forget(u); r }
            pub fn r_static(v: &'static D) -> (u32, *const D) { let u = Uncaught::$stat(v); kind(&u) }
            pub fn r_box(v: D) -> (u32, *const D) { let u = Uncaught::$boxed(v); let r = kind(&u); forget(u); r }
            pub fn r_drop(v: D) { drop(Uncaught::$boxed(v)) }
            pub fn r_drop_fold(v: Box<D>) { drop(Uncaught::$fold(v)) }
        }
    };
}
erase!(e1_any, fold_any, fold_static_any, box_any);
erase!(e2_debug, fold_debug, fold_static_debug, box_debug);
erase!(e3_display, fold_display, fold_static_display, box_display);
erase!(e4_error, fold_error, fold_static_error, box_error);

macro_rules! view {
    ($m:ident, $t:ty, $n:expr) => {
        pub mod $m {
            use super::*;
            pub fn r_from(v: &[u8; $n]) -> $t { <$t>::from_bytes(v) }
            pub fn r_as(v: &$t) -> &[u8; $n] { v.as_bytes() }
            pub fn r_round(v: &[u8; $n]) -> [u8; $n] { *<$t>::from_bytes(v).as_bytes() }
        }
    };
}
view!(v_header, Header, 28);
view!(v_headerext, HeaderExt, 36);
view!(v_relocation, Relocation, 4);
