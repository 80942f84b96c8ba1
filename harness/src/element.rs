//! Roots for D-Bus elements and the metadata of types.
use tmp::fmt::dbus::{element::*, Element, Sig};

fn id(v: Option<Element>) -> u32 {
    match v {
        None => 0,
        Some(Element::U8) => 1,
        Some(Element::U16) => 2,
        Some(Element::I16) => 3,
        Some(Element::U32) => 4,
        Some(Element::I32) => 5,
        Some(Element::U64) => 6,
        Some(Element::I64) => 7,
        Some(Element::F64) => 8,
        Some(Element::Bool) => 9,
        Some(Element::String) => 10,
        Some(Element::Object) => 11,
        Some(Element::Signature) => 12,
        Some(Element::Handle) => 13,
        Some(Element::Variant) => 14,
        Some(Element::Array) => 15,
        Some(Element::Maybe) => 16,
        Some(Element::StructOpen) => 17,
        Some(Element::StructClose) => 18,
        Some(Element::DictOpen) => 19,
        Some(Element::DictClose) => 20,
    }
}

const ALL: [Element; 20] = [
    Element::U8, Element::U16, Element::I16, Element::U32, Element::I32, Element::U64, Element::I64, Element::F64, Element::Bool,
    Element::String, Element::Object, Element::Signature, Element::Handle, Element::Variant, Element::Array, Element::Maybe,
    Element::StructOpen, Element::StructClose, Element::DictOpen, Element::DictClose,
];

pub fn r_from_code(code: u8) -> u32 { id(Element::from_code(code)) }
pub fn r_from_id(i: usize) -> u32 { id(Some(unsafe { Element::from_id(ALL[i].id()) })) }
pub fn r_id(i: usize) -> u8 { ALL[i].id() }
pub fn r_code(i: usize) -> u8 { ALL[i].code() }
pub fn r_char(i: usize) -> u32 { ALL[i].char() as u32 }
pub fn r_str(i: usize) -> &'static str {
    // promoted constants live forever
    match ALL[i].str() { v => unsafe { core::mem::transmute::<&str, &'static str>(v) } }
}
pub fn r_pair(i: usize) -> u32 { id(ALL[i].pair()) }
pub fn r_dvar_al(i: usize) -> u8 { ALL[i].dvar_alignment_exp() }
pub fn r_gvar_al(i: usize) -> u8 { ALL[i].gvar_alignment_exp() }
pub fn r_dvar_sz(i: usize) -> u8 { ALL[i].dvar_size() }
pub fn r_gvar_sz(i: usize) -> u8 { ALL[i].gvar_size() }
pub fn r_all(i: usize, m: u32) -> bool { ALL[i].all(m) }
pub fn r_any(i: usize, m: u32) -> bool { ALL[i].any(m) }
pub fn r_flag(i: usize) -> u32 {
    [FLAG_PREFIX, FLAG_OPEN, FLAG_CLOSE, FLAG_BASIC, FLAG_DYNAMIC, FLAG_VARIANT, FLAG_HANDLE, FLAG_DVAR_UNSUPPORTED][i]
}
pub fn r_parse(data: &mut [core::mem::MaybeUninit<u64>], sig: &[u8]) -> bool { Sig::parse(data, sig).is_ok() }
pub fn r_size(n: usize) -> usize { Sig::size_for_length(n) }
pub fn r_meta(sig: &Sig, idx: usize, out: &mut [u64; 3]) {
    let mut c = sig.cursor();
    c.move_to(idx);
    out[0] = id(c.element()) as u64;
    out[1] = c.dvar_alignment_exp().map_or(255, |v| v as u64);
    out[2] = c.gvar_alignment_exp().map_or(255, |v| v as u64);
}
