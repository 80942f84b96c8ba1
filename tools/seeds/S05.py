ID = "S05"
PROPERTY = "C28"
NEEDS = "an ELF object that uses the auditing variant of the dynamic dependency tag"
BREAKS = "two dynamic-section tags of the ELF specification are exchanged"
EDITS = [("lib/sys/src/ffi/elf.rs", "    pub const DT_DEPAUDIT: u32 = 0x6ffffefb;\n    pub const DT_AUDIT: u32 = 0x6ffffefc;\n", "    pub const DT_AUDIT: u32 = 0x6ffffefb;\n    pub const DT_DEPAUDIT: u32 = 0x6ffffefc;\n")]
MAIN = """
use sys::ffi::elf::elf32 as elf;
fn main() {
    assert_eq!(elf::DT_AUDIT, 0x6ffffefc);
    assert_eq!(elf::DT_DEPAUDIT, 0x6ffffefb);
}
"""
