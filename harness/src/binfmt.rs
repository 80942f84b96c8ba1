//! Roots for the DOS checksum and stub.
pub fn r_sum16(data: &[u8]) -> u16 { tmp::msdosmz::sum16(data) }
pub fn r_stub() -> &'static [u8] { &tmp::msdosmz::STUB_X86 }
