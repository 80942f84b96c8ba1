ID = 'S12'
PROPERTY = 'C10'
NEEDS = 'splitting a generator whose derived increment has exactly 23 bit transitions'
BREAKS = 'the increment of the new generator is kept although it has too few transitions'
EDITS = [('lib/osi/src/rng.rs', 'count_ones() < 24 {', 'count_ones() < 23 {')]
MAIN = '''

use osi::rng::SplitMix64;
const G: u64 = 0x9e3779b97f4a7c15;
fn mix(mut v: u64) -> u64 {
    v = (v ^ (v >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    v = (v ^ (v >> 27)).wrapping_mul(0x94d049bb133111eb);
    v ^ (v >> 31)
}
fn gamma(mut v: u64) -> u64 {
    v = (v ^ (v >> 33)).wrapping_mul(0xff51afd7ed558ccd);
    v = (v ^ (v >> 33)).wrapping_mul(0xc4ceb9fe1a85ec53);
    v = (v ^ (v >> 33)) | 1;
    if (v ^ (v >> 1)).count_ones() < 24 { v ^ 0xaaaaaaaaaaaaaaaa } else { v }
}
fn main() {
    for seed in 0..5000u64 {
        let s = mix(seed.wrapping_add(G));
        let g = gamma(seed.wrapping_add(G).wrapping_add(G));
        let mut r = SplitMix64::with_seed(seed).split();
        assert_eq!(r.next64(), mix(s.wrapping_add(g)), "seed {}", seed);
    }
}
'''
