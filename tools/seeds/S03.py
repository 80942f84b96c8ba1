ID = "S03"
PROPERTY = "C26"
NEEDS = "a 32-bit x86 object containing a double, inspected from a 64-bit process"
BREAKS = "doubles of the 32-bit System V x86 ABI get 8-byte alignment, shifting every following member of foreign structures"
EDITS = [("lib/osi/src/ffi/abi.rs", """    pub type F32 = super::Le<f32, align::AlignAs<4>>;
    pub type F64 = super::Le<f64, align::AlignAs<4>>;
""", """    pub type F32 = super::Le<f32, align::AlignAs<4>>;
    pub type F64 = super::Le<f64, align::AlignAs<8>>;
""")]
MAIN = """
use osi::ffi::abi::x86_sysv as abi;
#[repr(C)]
struct S { a: abi::U8, b: abi::F64, c: abi::U8 }
fn main() {
    assert_eq!(core::mem::offset_of!(S, b), 4);
    assert_eq!(core::mem::size_of::<S>(), 16);
}
"""
