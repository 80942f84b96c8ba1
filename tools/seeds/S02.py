ID = "S02"
PROPERTY = "C31"
NEEDS = "a section header whose relocation and line-number counts differ; total size and alignment stay as they were"
BREAKS = "two 16-bit counters of the PE section header are swapped on disk"
EDITS = [("lib/tmp/src/pecoff.rs", "    pub number_of_relocations: U16Le,\n    pub number_of_linenumbers: U16Le,\n", "    pub number_of_linenumbers: U16Le,\n    pub number_of_relocations: U16Le,\n")]
MAIN = """
use tmp::pecoff::SectionHeader;
fn main() {
    assert_eq!(core::mem::offset_of!(SectionHeader, number_of_relocations), 32);
    assert_eq!(core::mem::offset_of!(SectionHeader, number_of_linenumbers), 34);
}
"""
