//! Roots for the pseudo-random number generators.
use osi::rng::*;

pub fn r_mix_with_seed(s: u64) -> Mix64 { Mix64::with_seed(s) }
pub fn r_mix_next32(m: &mut Mix64) -> u32 { m.next32() }
pub fn r_mix_next64(m: &mut Mix64) -> u64 { m.next64() }
pub fn r_mix_split(m: &mut Mix64) -> SplitMix64 { m.split() }
pub fn r_split_with_seed(s: u64) -> SplitMix64 { SplitMix64::with_seed(s) }
pub fn r_split_from_mix(m: Mix64) -> SplitMix64 { SplitMix64::from_mix64(m) }
pub fn r_split_from_trait(m: Mix64) -> SplitMix64 { m.into() }
pub fn r_split_next32(m: &mut SplitMix64) -> u32 { m.next32() }
pub fn r_split_next64(m: &mut SplitMix64) -> u64 { m.next64() }
pub fn r_split_split(m: &mut SplitMix64) -> SplitMix64 { m.split() }
pub fn r_xo_with_seed(s: [u64; 4]) -> Xoshiro256pp { Xoshiro256pp::with_seed(s) }
pub fn r_xo_from_split(m: &mut SplitMix64) -> Xoshiro256pp { Xoshiro256pp::from_splitmix64(m) }
pub fn r_xo_from_trait(m: SplitMix64) -> Xoshiro256pp { m.into() }
pub fn r_xo_next64(m: &mut Xoshiro256pp) -> u64 { m.next64() }
pub fn r_xo_jump128(m: &mut Xoshiro256pp) { m.jump128() }
pub fn r_xo_jump192(m: &mut Xoshiro256pp) { m.jump192() }
pub fn r_mix_clone(m: &Mix64) -> Mix64 { m.clone() }
pub fn r_split_clone(m: &SplitMix64) -> SplitMix64 { m.clone() }
pub fn r_xo_clone(m: &Xoshiro256pp) -> Xoshiro256pp { m.clone() }
