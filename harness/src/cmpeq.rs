//! Roots for comparison and hashing of value types.
use alloc::boxed::Box;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use core::ptr::NonNull;
use osi::align::{AlignAs, AlignOf};
use osi::cmp::Identity;
use osi::ffi::{BigEndian, Integer, LittleEndian, Packed, Pointer};
use osi::marker::PhantomInvariant;
use osi::mown::Mown;
use osi::ptr::{NonNull4, OnceRef, Ptr};

extern "C" {
    fn x_write(p: *const u8, n: usize);
}

/// Hasher that reports everything that is fed to it.
pub struct H;
impl Hasher for H {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, v: &[u8]) {
        unsafe { x_write(v.as_ptr(), v.len()) }
    }
}

macro_rules! cmp {
    ($m:ident, $t:ty, |$a:ident| $f:expr, |$b:ident| $g:expr) => {
        pub mod $m {
            use super::*;
            pub fn r_eq($a: $t, $b: $t) -> bool { ($f) == ($g) }
            pub fn r_ne($a: $t, $b: $t) -> bool { ($f) != ($g) }
            pub fn r_lt($a: $t, $b: $t) -> bool { ($f) < ($g) }
            pub fn r_le($a: $t, $b: $t) -> bool { ($f) <= ($g) }
            pub fn r_gt($a: $t, $b: $t) -> bool { ($f) > ($g) }
            pub fn r_ge($a: $t, $b: $t) -> bool { ($f) >= ($g) }
            pub fn r_cmp($a: $t, $b: $t) -> Ordering { ($f).cmp(&$g) }
            pub fn r_pcmp($a: $t, $b: $t) -> Option<Ordering> { ($f).partial_cmp(&$g) }
            pub fn r_hash($a: $t) { ($f).hash(&mut H) }
            pub fn r_hash2($b: $t) { ($g).hash(&mut H) }
        }
    };
}
macro_rules! num {
    ($m:ident, $t:ty, $w:ty, $c:ident) => { cmp!($m, $t, |a| <$w>::$c(a), |b| <$w>::$c(b)); };
}
num!(be_u8, u8, BigEndian<u8>, from_native);
num!(be_u16, u16, BigEndian<u16>, from_native);
num!(be_u32, u32, BigEndian<u32>, from_native);
num!(be_u64, u64, BigEndian<u64>, from_native);
num!(be_u128, u128, BigEndian<u128>, from_native);
num!(be_i16, i16, BigEndian<i16>, from_native);
num!(be_i32, i32, BigEndian<i32>, from_native);
num!(be_i64, i64, BigEndian<i64>, from_native);
num!(le_u16, u16, LittleEndian<u16>, from_native);
num!(le_u32, u32, LittleEndian<u32>, from_native);
num!(le_u64, u64, LittleEndian<u64>, from_native);
num!(le_i16, i16, LittleEndian<i16>, from_native);
num!(le_i32, i32, LittleEndian<i32>, from_native);
num!(le_i64, i64, LittleEndian<i64>, from_native);
num!(pk_u8, u8, Packed<u8>, new);
num!(pk_u32, u32, Packed<u32>, new);
num!(pk_i64, i64, Packed<i64>, new);
cmp!(pk_be, u32, |a| Packed::new(BigEndian::<u32>::from_native(a)), |b| Packed::new(BigEndian::<u32>::from_native(b)));
num!(in_u8, u8, Integer<u8, AlignAs<8>>, new);
num!(in_u32, u32, Integer<u32, AlignAs<4>>, new);
num!(in_i32, i32, Integer<i32, AlignAs<2>>, new);
num!(in_i64, i64, Integer<i64, AlignAs<16>>, new);
cmp!(in_be, i32, |a| Integer::<BigEndian<i32>, AlignAs<4>>::from_native(a), |b| Integer::<BigEndian<i32>, AlignAs<4>>::from_native(b));
cmp!(in_le, u64, |a| Integer::<LittleEndian<u64>, AlignAs<4>>::from_native(a), |b| Integer::<LittleEndian<u64>, AlignAs<4>>::from_native(b));
num!(pt_u32, u32, Pointer<u32, u8>, new);
num!(pt_u64, u64, Pointer<u64, [u8]>, new);
cmp!(pt_be, u64, |a| Pointer::<BigEndian<u64>, u8>::from_native(a), |b| Pointer::<BigEndian<u64>, u8>::from_native(b));
cmp!(ptr_u8, NonNull<u8>, |a| unsafe { Ptr::new(a) }, |b| unsafe { Ptr::new(b) });
cmp!(once_u8, NonNull<u8>, |a| unsafe { OnceRef::from_nonnull(a) }, |b| unsafe { OnceRef::from_nonnull(b) });
cmp!(tag_u32, NonNull<u32>, |a| unsafe { NonNull4::new_unchecked(a) }, |b| unsafe { NonNull4::new_unchecked(b) });
cmp!(id_ref, NonNull<u32>, |a| Identity(unsafe { a.as_ref() }), |b| Identity(unsafe { b.as_ref() }));
cmp!(id_mut, NonNull<u32>, |a| Identity(unsafe { &mut *a.as_ptr() }), |b| Identity(unsafe { &mut *b.as_ptr() }));
cmp!(id_box, NonNull<u32>, |a| core::mem::ManuallyDrop::new(Identity(unsafe { Box::from_raw(a.as_ptr()) })), |b| core::mem::ManuallyDrop::new(Identity(unsafe { Box::from_raw(b.as_ptr()) })));
cmp!(mo_oo, u32, |a| Mown::<u32, u32>::new_owned(a), |b| Mown::<u32, u32>::new_owned(b));
cmp!(mo_bo, u32, |a| Mown::<u32, u32>::new_borrowed(&a), |b| Mown::<u32, u32>::new_owned(b));
cmp!(mo_ob, i32, |a| Mown::<i32, i32>::new_owned(a), |b| Mown::<i32, i32>::new_borrowed(&b));
cmp!(mo_bb, u16, |a| Mown::<u16, u16>::new_borrowed(&a), |b| Mown::<u16, u16>::new_borrowed(&b));
cmp!(unit_aa, u8, |_a| <AlignAs<8> as Default>::default(), |_b| <AlignAs<8> as Default>::default());
cmp!(unit_ao, u8, |_a| <AlignOf<u32> as Default>::default(), |_b| <AlignOf<u32> as Default>::default());
cmp!(unit_ph, u8, |_a| PhantomInvariant::<u32>::new(), |_b| PhantomInvariant::<u32>::new());
