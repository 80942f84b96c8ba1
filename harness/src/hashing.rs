//! Roots for hash engines and message authentication codes.
use osi::hash::{Engine, Hash};

extern "C" {
    fn x_default();
    fn x_push(p: *const u8, n: usize);
    fn x_push_zero(n: usize);
    fn x_reset();
    fn x_is_reset() -> bool;
    fn x_finalize(p: *mut u8, n: usize);
    fn x_str(p: *const u8, n: usize);
}

pub mod sha {
    use super::*;
    use osi::hash::sha256;
    pub fn r_default() -> sha256::Engine { Default::default() }
    pub fn r_push(e: &mut sha256::Engine, v: &[u8]) { e.push(v) }
    pub fn r_push_zero(e: &mut sha256::Engine, n: usize) { e.push_zero(n) }
    pub fn r_finalize(e: &mut sha256::Engine) -> Hash<32> { e.finalize() }
    pub fn r_reset(e: &mut sha256::Engine) { e.reset() }
    pub fn r_is_reset(e: &sha256::Engine) -> bool { e.is_reset() }
    pub fn r_clone(e: &sha256::Engine) -> sha256::Engine { e.clone() }
}

/// Engine that hands everything to the analysis.
pub struct M<const N: usize>(u8);
impl<const N: usize> Default for M<N> {
    fn default() -> Self {
        unsafe { x_default() }
        M(0)
    }
}
impl<const N: usize> Engine for M<N> {
    type Hash = Hash<N>;
    fn is_reset(&self) -> bool { unsafe { x_is_reset() } }
    fn reset(&mut self) { unsafe { x_reset() } }
    fn push(&mut self, v: &[u8]) { unsafe { x_push(v.as_ptr(), v.len()) } }
    fn push_zero(&mut self, n: usize) { unsafe { x_push_zero(n) } }
    fn finalize(&mut self) -> Hash<N> {
        let mut r = [0u8; N];
        unsafe { x_finalize(r.as_mut_ptr(), N) }
        Hash(r)
    }
}

/// The same without its own way to add zeros.
pub struct D(u8);
impl Engine for D {
    type Hash = Hash<4>;
    fn is_reset(&self) -> bool { unsafe { x_is_reset() } }
    fn reset(&mut self) { unsafe { x_reset() } }
    fn push(&mut self, v: &[u8]) { unsafe { x_push(v.as_ptr(), v.len()) } }
    fn finalize(&mut self) -> Hash<4> { Hash([0; 4]) }
}

pub mod generic {
    use super::*;
    pub fn r_hash(v: &[u8]) -> Hash<32> { osi::hash::hash::<M<32>>(v) }
    pub fn r_zero(e: &mut D, n: usize) { e.push_zero(n) }
    pub fn r_hex1(v: &Hash<1>) { let s = v.to_hex(); unsafe { x_str(s.as_ptr(), s.len()) }; core::mem::forget(s) }
    pub fn r_hex2(v: &Hash<2>) { let s = v.to_hex(); unsafe { x_str(s.as_ptr(), s.len()) }; core::mem::forget(s) }
    pub fn r_from_bytes(v: &[u8; 32]) -> Hash<32> { Hash::from_bytes(v) }
    pub fn r_from(v: &[u8; 32]) -> Hash<32> { Hash::from(v) }
    pub fn r_as_bytes(v: &Hash<32>) -> &[u8; 32] { v.as_bytes() }
}

macro_rules! hm {
    ($m:ident, $c:literal, $h:literal) => {
        pub mod $m {
            use super::*;
            use osi::hmac::Hmac;
            pub type T = Hmac<$c, M<$h>>;
            pub fn r_new(k: &[u8]) -> T { Hmac::new(k) }
            pub fn r_with_engine(k: &[u8]) -> T { Hmac::with_engine(k, M(0)) }
            pub fn r_push(e: &mut T, v: &[u8]) { e.push(v) }
            pub fn r_push_zero(e: &mut T, n: usize) { e.push_zero(n) }
            pub fn r_reset(e: &mut T) { e.reset() }
            pub fn r_finalize(e: &mut T) -> Hash<$h> { e.finalize() }
        }
    };
}
hm!(hm_8_4, 8, 4);
hm!(hm_8_8, 8, 8);
hm!(hm_64_32, 64, 32);

pub mod alias {
    use osi::hash::sha256;
    use osi::hmac::{Hmac, HmacSha256};
    pub fn r_alias(v: HmacSha256) -> Hmac<64, sha256::Engine> { v }
}
