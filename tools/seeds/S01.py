ID = "S01"
PROPERTY = "C18"
NEEDS = "a pointee type that is Send but not Sync, moved to another thread behind the wrapper"
BREAKS = "the once-reference wrapper becomes Send for pointees that are not Sync, so safe code can share a Cell between threads"
EDITS = [("lib/osi/src/ptr.rs", "unsafe impl<'a, T: ?Sized + Send + Sync> Send for OnceRef<'a, T> {", "unsafe impl<'a, T: ?Sized + Send> Send for OnceRef<'a, T> {")]
REJECT = """
use std::cell::Cell;
fn main() {
    let c = Cell::new(0u32);
    let r = osi::ptr::OnceRef::from_ref(&c);
    std::thread::scope(|s| {
        s.spawn(move || r.into_ref().set(1));
        c.set(2);
    });
}
"""
REJECT_TWIN = """
fn main() {
    let c = 0u32;
    let r = osi::ptr::OnceRef::from_ref(&c);
    std::thread::scope(|s| {
        s.spawn(move || *r.into_ref());
    });
}
"""
