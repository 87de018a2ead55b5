# Bugs of room: going to the heap too early.

bug("small-array-full", "C15",
    "a SmallVec made of an array that fills its inline capacity exactly",
    "An array just as long as the inline capacity goes to the heap, with a request to an allocator nobody needs.",
    [("small_vec.rs", "        if L <= N {\n", "        if L < N {\n")],
    """
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let v: SmallVec<u32, 4> = SmallVec::from([1, 2, 3]);
    assert!(v.is_stack());
    let v: SmallVec<u32, 4> = SmallVec::from([1, 2, 3, 4]);
    must!(v.is_stack(), "four elements are not inline");
    let v: SmallVec<u32, 4> = SmallVec::from([1, 2, 3, 4, 5]);
    assert!(!v.is_stack());
    done();
}
""")

bug("small-resize-room", "C15",
    "resize of an inline SmallVec that holds elements to a length that still fits",
    "Room is reserved for the whole new length on top of the elements held, so that it goes to the heap although all would fit.",
    [("small_vec.rs", "            self.reserve(len - self.len());\n        }\n\n        use Storage::*;\n        match &mut self.storage {\n            Stack(vec) => vec.resize(len, val),\n", "            self.reserve(len);\n        }\n\n        use Storage::*;\n        match &mut self.storage {\n            Stack(vec) => vec.resize(len, val),\n")],
    """
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut v: SmallVec<u32, 8> = SmallVec::new();
    v.resize(8, 1);
    assert!(v.is_stack());
    v.truncate(6);
    v.resize(7, 1);
    must!(v.is_stack(), "seven elements are not inline");
    done();
}
""")
