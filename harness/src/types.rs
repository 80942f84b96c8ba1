//! Instantiations whose layouts are compared with specification tables.
#![allow(dead_code)]
use osi::align::{AlignAs, AlignOf, Aligned};

macro_rules! t {
    ($($name:ident: $ty:ty),* $(,)?) => { $(pub fn $name(_: &$ty) {})* };
}

// Layout of `Subject` next to the marker it declares.
macro_rules! al {
    ($($name:ident: $ty:ty),* $(,)?) => {
        $(pub fn $name(_: &$ty, _: <$ty as Aligned>::Align, _: AlignOf<$ty>) {})*
    };
}

#[repr(C)]
pub struct Embed<A> {
    pub a: A,
    pub b: u8,
}

pub fn r_embed_1(_: Embed<AlignAs<1>>) {}
pub fn r_embed_2(_: Embed<AlignAs<2>>) {}
pub fn r_embed_4(_: Embed<AlignAs<4>>) {}
pub fn r_embed_8(_: Embed<AlignAs<8>>) {}
pub fn r_embed_16(_: Embed<AlignAs<16>>) {}
pub fn r_embed_32(_: Embed<AlignAs<32>>) {}
pub fn r_embed_64(_: Embed<AlignAs<64>>) {}
pub fn r_embed_128(_: Embed<AlignAs<128>>) {}

t! {
    r_as_1: AlignAs<1>, r_as_2: AlignAs<2>, r_as_4: AlignAs<4>, r_as_8: AlignAs<8>,
    r_as_16: AlignAs<16>, r_as_32: AlignAs<32>, r_as_64: AlignAs<64>, r_as_128: AlignAs<128>,
    r_mk_1: osi::align::Align1, r_mk_2: osi::align::Align2, r_mk_4: osi::align::Align4,
    r_mk_8: osi::align::Align8, r_mk_16: osi::align::Align16, r_mk_32: osi::align::Align32,
    r_mk_64: osi::align::Align64, r_mk_128: osi::align::Align128,
    r_any: osi::align::AlignAny, r_native: osi::align::AlignNative, r_usize: usize,
}

al! {
    r_al_i8: i8, r_al_i16: i16, r_al_i32: i32, r_al_i64: i64, r_al_i128: i128, r_al_isize: isize,
    r_al_u8: u8, r_al_u16: u16, r_al_u32: u32, r_al_u64: u64, r_al_u128: u128, r_al_usize: usize,
    r_al_f32: f32, r_al_f64: f64, r_al_char: char, r_al_bool: bool, r_al_unit: (),
    r_al_as1: AlignAs<1>, r_al_as2: AlignAs<2>, r_al_as4: AlignAs<4>, r_al_as8: AlignAs<8>,
    r_al_as16: AlignAs<16>, r_al_as32: AlignAs<32>, r_al_as64: AlignAs<64>, r_al_as128: AlignAs<128>,
    r_al_arr_u16: [u16; 3], r_al_arr_u64: [u64; 5], r_al_arr_u8: [u8; 0], r_al_arr_u128: [u128; 2],
    r_al_arr_as: [AlignAs<32>; 2],
    r_al_ref: &'static u8, r_al_mut: &'static mut u64, r_al_ptr: *const u8, r_al_ptrm: *mut u16,
    r_al_sl_u8: [u8], r_al_sl_u32: [u32], r_al_sl_u64: [u64], r_al_str: str,
}

macro_rules! abi {
    ($mod:ident, $abi:path) => {
        pub mod $mod {
            use $abi as abi;
            t! {
                r_i8: abi::I8, r_i16: abi::I16, r_i32: abi::I32, r_i64: abi::I64, r_i128: abi::I128,
                r_isize: abi::Isize,
                r_u8: abi::U8, r_u16: abi::U16, r_u32: abi::U32, r_u64: abi::U64, r_u128: abi::U128,
                r_usize: abi::Usize, r_f32: abi::F32, r_f64: abi::F64,
                r_addr: abi::Addr, r_optaddr: Option<abi::Addr>,
                r_ptr: abi::Ptr<u8>, r_optptr: Option<abi::Ptr<u8>>, r_ptr64: abi::Ptr<u64>,
                r_optptr64: Option<abi::Ptr<u64>>, r_ptrptr: abi::Ptr<abi::Ptr<u16>>,
            }
        }
    };
}
abi!(abi_native, osi::ffi::abi::native);
abi!(abi_aarch64, osi::ffi::abi::aarch64_sysv);
abi!(abi_x86, osi::ffi::abi::x86_sysv);
abi!(abi_x86_64, osi::ffi::abi::x86_64_sysv);
abi!(abi_x86_win, osi::ffi::abi::x86_win);
abi!(abi_x86_64_win, osi::ffi::abi::x86_64_win);
abi!(sysabi_aarch64, sys::ffi::linux::aarch64::abi);
abi!(sysabi_x86, sys::ffi::linux::x86::abi);
abi!(sysabi_x86_64, sys::ffi::linux::x86_64::abi);

use tmp::{msdosmz, pecoff};
t! {
    r_mz_header: msdosmz::Header, r_mz_headerext: msdosmz::HeaderExt, r_mz_relocation: msdosmz::Relocation,
    r_pe_header: pecoff::Header,
    r_pe_opt32: pecoff::OptionalHeader<pecoff::format::Pe>,
    r_pe_opt32p: pecoff::OptionalHeader<pecoff::format::Pe32P>,
    r_pe_opt32p_alias: pecoff::OptionalHeader32P,
    r_pe_ext32: pecoff::OptionalHeaderExt<pecoff::format::Pe>,
    r_pe_ext32p: pecoff::OptionalHeaderExt<pecoff::format::Pe32P>,
    r_pe_ext32p_alias: pecoff::OptionalHeaderExt32P,
    r_pe_dir: pecoff::DataDirectory, r_pe_section: pecoff::SectionHeader,
}
macro_rules! elf {
    ($mod:ident, $elf:ident) => {
        pub mod $mod {
            use sys::ffi::elf::$elf as e;
            t! {
                r_ehdr: e::Ehdr, r_shdr: e::Shdr, r_phdr: e::Phdr, r_sym: e::Sym, r_dyn: e::Dyn,
                r_rel: e::Rel, r_rela: e::Rela, r_ident: e::Ident,
            }
        }
    };
}
elf!(elf32, elf32);
elf!(elf64, elf64);
elf!(elfn, elfn);
