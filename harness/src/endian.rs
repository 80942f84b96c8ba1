//! Roots for byte-order annotated numbers.
use core::num::*;
use osi::ffi::{from_native, from_raw, to_native, to_raw, BigEndian, LittleEndian, NativeEndian};

macro_rules! group {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn r_be_from_native(v: $t) -> BigEndian<$t> { BigEndian::<$t>::from_native(v) }
            pub fn r_be_to_native(v: BigEndian<$t>) -> $t { v.to_native() }
            pub fn r_be_from_raw(v: $t) -> BigEndian<$t> { BigEndian::<$t>::from_raw(v) }
            pub fn r_be_to_raw(v: BigEndian<$t>) -> $t { v.to_raw() }
            pub fn r_be_t_from_native(v: $t) -> BigEndian<$t> { <BigEndian<$t> as NativeEndian<$t>>::from_native(v) }
            pub fn r_be_t_to_native(v: BigEndian<$t>) -> $t { NativeEndian::to_native(v) }
            pub fn r_be_t_from_raw(v: $t) -> BigEndian<$t> { <BigEndian<$t> as NativeEndian<$t>>::from_raw(v) }
            pub fn r_be_t_to_raw(v: BigEndian<$t>) -> $t { NativeEndian::to_raw(v) }
            pub fn r_be_f_from_native(v: $t) -> BigEndian<$t> { from_native(v) }
            pub fn r_be_f_to_native(v: BigEndian<$t>) -> $t { to_native(v) }
            pub fn r_be_f_from_raw(v: $t) -> BigEndian<$t> { from_raw(v) }
            pub fn r_be_f_to_raw(v: BigEndian<$t>) -> $t { to_raw(v) }
            pub fn r_le_from_native(v: $t) -> LittleEndian<$t> { LittleEndian::<$t>::from_native(v) }
            pub fn r_le_to_native(v: LittleEndian<$t>) -> $t { v.to_native() }
            pub fn r_le_from_raw(v: $t) -> LittleEndian<$t> { LittleEndian::<$t>::from_raw(v) }
            pub fn r_le_to_raw(v: LittleEndian<$t>) -> $t { v.to_raw() }
            pub fn r_le_t_from_native(v: $t) -> LittleEndian<$t> { <LittleEndian<$t> as NativeEndian<$t>>::from_native(v) }
            pub fn r_le_t_to_native(v: LittleEndian<$t>) -> $t { NativeEndian::to_native(v) }
            pub fn r_le_t_from_raw(v: $t) -> LittleEndian<$t> { <LittleEndian<$t> as NativeEndian<$t>>::from_raw(v) }
            pub fn r_le_t_to_raw(v: LittleEndian<$t>) -> $t { NativeEndian::to_raw(v) }
            pub fn r_le_f_from_native(v: $t) -> LittleEndian<$t> { from_native(v) }
            pub fn r_le_f_to_native(v: LittleEndian<$t>) -> $t { to_native(v) }
            pub fn r_le_f_from_raw(v: $t) -> LittleEndian<$t> { from_raw(v) }
            pub fn r_le_f_to_raw(v: LittleEndian<$t>) -> $t { to_raw(v) }
            pub fn r_be_o_clone_raw(v: &BigEndian<$t>) -> BigEndian<$t> { v.clone() }
            pub fn r_le_o_clone_raw(v: &LittleEndian<$t>) -> LittleEndian<$t> { v.clone() }
            pub fn r_ne_t_from_native(v: $t) -> $t { <$t as NativeEndian<$t>>::from_native(v) }
            pub fn r_ne_t_to_native(v: $t) -> $t { <$t as NativeEndian<$t>>::to_native(v) }
            pub fn r_ne_f_from_native(v: $t) -> $t { from_native(v) }
            pub fn r_ne_f_to_native(v: $t) -> $t { to_native(v) }
            pub fn r_ne_f_from_raw(v: $t) -> $t { from_raw(v) }
            pub fn r_ne_f_to_raw(v: $t) -> $t { to_raw(v) }
        }
    };
}

group!(i8_, i8);
group!(i16_, i16);
group!(i32_, i32);
group!(i64_, i64);
group!(i128_, i128);
group!(isize_, isize);
group!(u8_, u8);
group!(u16_, u16);
group!(u32_, u32);
group!(u64_, u64);
group!(u128_, u128);
group!(usize_, usize);
group!(nzi8, NonZeroI8);
group!(nzi16, NonZeroI16);
group!(nzi32, NonZeroI32);
group!(nzi64, NonZeroI64);
group!(nzi128, NonZeroI128);
group!(nzisize, NonZeroIsize);
group!(nzu8, NonZeroU8);
group!(nzu16, NonZeroU16);
group!(nzu32, NonZeroU32);
group!(nzu64, NonZeroU64);
group!(nzu128, NonZeroU128);
group!(nzusize, NonZeroUsize);
