ID = "S04"
PROPERTY = "C17"
NEEDS = "client code that keeps two copies of one unique token, e.g. two owners of a branded cell"
BREAKS = "the unique brand token can be duplicated in safe code"
EDITS = [("lib/osi/src/brand.rs", "#[derive(Eq, Ord, PartialEq, PartialOrd)]\npub struct Unique<'brand> {", "#[derive(Clone, Eq, Ord, PartialEq, PartialOrd)]\npub struct Unique<'brand> {")]
REJECT = """
fn main() {
    osi::brand::unique(|u| {
        let a: osi::brand::Unique<'_> = <osi::brand::Unique<'_> as Clone>::clone(&u);
        drop((a, u));
    });
}
"""
REJECT_TWIN = """
fn main() {
    osi::brand::unique(|u| {
        let i: osi::brand::Id<'_> = u.into();
        let a: osi::brand::Id<'_> = <osi::brand::Id<'_> as Clone>::clone(&i);
        drop((a, i));
    });
}
"""
