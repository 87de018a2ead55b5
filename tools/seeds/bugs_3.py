# Bugs of Vec, SmallVec and String.

bug("vec-extend-trusts-hint", "C14",
    "extend_from_iter with an iterator that gives more elements than it promised",
    "extend_from_iter stops at the number of elements the iterator promised at least.",
    [("vec.rs", "        self.reserve_exact(iter.size_hint().0);\n\n        for item in iter {\n", "        let (lower, upper) = iter.size_hint();\n        self.reserve_exact(lower);\n\n        // Do not ask iterators of known length once more.\n        let count = if upper == Some(lower) { lower } else { usize::MAX };\n        for item in iter.take(count) {\n")],
    """
use lokky::vec::Vec;
struct It(u32);
impl Iterator for It {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { if self.0 < 7 { self.0 += 1; Some(self.0) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (3, Some(3)) }
}
fn main() {
    init();
    let mut v: Vec<u32> = Vec::new();
    v.extend_from_iter(It(0));
    must!(&*v == &[1, 2, 3, 4, 5, 6, 7], "{:?}", &*v);
    done();
}
""")

bug("vec-drop-zst", "C14",
    "a Vec of zero-sized values with destructors",
    "Dropping a Vec of zero-sized values runs no destructors.",
    [("vec.rs", "        if self.capacity() > 0 {\n            trace!(\"dropping Vec\");\n", "        if !self.ptr.is_empty() {\n            trace!(\"dropping Vec\");\n")],
    """
use lokky::vec::Vec;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct Z;
impl Drop for Z { fn drop(&mut self) { N.fetch_add(1, SeqCst); } }
fn main() {
    init();
    let mut v: Vec<Z> = Vec::new();
    for _ in 0..5 { v.push(Z); }
    drop(v.pop());
    drop(v);
    must!(N.load(SeqCst) == 5, "{} destructors", N.load(SeqCst));
    done();
}
""")

bug("vec-truncate-late", "C17",
    "truncate or clear with an element whose destructor panics",
    "truncate sets the new length only after the destructors, so a panicking one leaves dropped elements in the Vec.",
    [("vec.rs", "            self.set_len(len);\n            ptr::drop_in_place(s);\n", "            ptr::drop_in_place(s);\n            self.set_len(len);\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v: Vec<V> = Vec::new();
    for i in 0..5 { v.push(V::new(i)); }
    PANIC_DROP.store(3, std::sync::atomic::Ordering::SeqCst);
    must!(caught(|| v.truncate(2)).is_none(), "no panic");
    must!(v.len() == 2, "length {}", v.len());
    drop(v);
    must!(alive() == 0, "{} alive", alive());
    done();
}
""")

bug("vec-retain-first", "C17",
    "retain that discards the first element, whose destructor panics",
    "The length is not reduced before the first element is dropped by retain.",
    [("vec.rs", "            unsafe { vec.set_len(0) };\n            unsafe { drop_in_place(vec.as_slice_with_len_mut(initial_len).get_unchecked_mut(0)) };\n", "            unsafe { drop_in_place(vec.as_slice_with_len_mut(initial_len).get_unchecked_mut(0)) };\n            unsafe { vec.set_len(0) };\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v: Vec<V> = Vec::new();
    for i in 0..5 { v.push(V::new(i)); }
    PANIC_DROP.store(0, std::sync::atomic::Ordering::SeqCst);
    must!(caught(|| v.retain(|e| e.v > 2)).is_none(), "no panic");
    drop(v);
    done();
}
""")

bug("intoiter-drop-order", "C18",
    "a by-value iterator dropped before its end, with a remaining element whose destructor panics",
    "The iterator forgets its elements only after their destructors, so a panicking one makes them be dropped again.",
    [("vec.rs", "            // Disallow Vec to deallocate any remaining elements.\n            self.vec.set_len(0);\n\n", ""),
     ("vec.rs", "            for element in unmoved_elements {\n                drop_in_place(element);\n            }\n", "            for element in unmoved_elements {\n                drop_in_place(element);\n            }\n\n            // Disallow Vec to deallocate any remaining elements.\n            self.vec.set_len(0);\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v: Vec<V> = Vec::new();
    for i in 0..5 { v.push(V::new(i)); }
    let mut it = v.into_iter();
    must!(it.next().unwrap().v == 0, "order");
    PANIC_DROP.store(2, std::sync::atomic::Ordering::SeqCst);
    must!(caught(|| drop(it)).is_none(), "no panic");
    done();
}
""")

bug("drain-empty-range", "C18",
    "a drain of an empty range before the end of the vector",
    "Dropping the drain of an empty range leaves the vector without the elements behind it.",
    [("vec.rs", "        // `count` reads all remaining elements out and drops them.\n        self.count();\n", "        if self.start == self.end {\n            // Nothing to drop and no gap to remove.\n            return;\n        }\n        // `count` reads all remaining elements out and drops them.\n        self.for_each(drop);\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v: Vec<V> = Vec::new();
    for i in 0..8 { v.push(V::new(i)); }
    let mut d = v.drain(2..6);
    must!(d.next().unwrap().v == 2, "order");
    drop(d);
    must!(v.len() == 4 && v[2].v == 6, "elements");
    must!(v.drain(1..1).next().is_none(), "an element");
    must!(v.len() == 4, "length {}", v.len());
    drop(v);
    must!(alive() == 0, "leaked");
    done();
}
""")

bug("small-split-room", "C15",
    "a small vector that splits off more elements than fit inline in the result",
    "split_off_into decides by the inline capacity of the source, so the result may lack room.",
    [("small_vec.rs", "        let mut into = SmallVec::with_capacity(count);\n", "        let mut into = SmallVec::with_capacity(if count > N { count } else { 0 });\n")],
    """
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut a: SmallVec<V, 8> = SmallVec::new();
    for i in 0..6 { a.push(V::new(i)); }
    let b: SmallVec<V, 4> = a.split_off_into(1);
    must!(b.len() <= b.capacity(), "{} elements in the room for {}", b.len(), b.capacity());
    must!(b.is_heap(), "inline");
    drop((a, b));
    must!(alive() == 0, "leaked");
    done();
}
""")

bug("small-tostack-len", "C15",
    "moving a small vector whose elements just fit back inline, or one that is empty on the heap",
    "A vector that has exactly the inline number of elements is not moved back inline.",
    [("small_vec.rs", "        if self.len() <= N {\n            let mut stack_vec", "        if self.len() < usize::max(N, 1) {\n            let mut stack_vec")],
    """
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut a: SmallVec<u32, 4> = SmallVec::new();
    for i in 0..6 { a.push(i); }
    must!(a.try_move_to_stack().is_err() && a.len() == 6, "moved");
    a.truncate(4);
    must!(a.try_move_to_stack().is_ok() && a.is_stack(), "refused");
    must!(&*a == &[0, 1, 2, 3], "elements");
    done();
}
""")

bug("string-retain-index", "C16",
    "retain whose predicate panics at a character of several bytes, after characters were removed",
    "retain counts a character as processed before its predicate ran; a panic there leaves a torn text.",
    [("string.rs", "            let ch_len = ch.len_utf8();\n\n            if !f(ch) {\n", "            let ch_len = ch.len_utf8();\n            let idx = guard.idx;\n            // Point idx to the next char\n            guard.idx += ch_len;\n\n            if !f(ch) {\n"),
     ("string.rs", "                        guard.s.as_mut_ptr().add(guard.idx - guard.del_bytes),\n", "                        guard.s.as_mut_ptr().add(idx - guard.del_bytes),\n"),
     ("string.rs", "            // Point idx to the next char\n            guard.idx += ch_len;\n        }\n", "        }\n")],
    """
use lokky::string::String;
fn main() {
    init();
    let mut s = String::from("aé漢z");
    must!(caught(|| s.retain(|c| match c { 'a' => false, '漢' => panic!(), _ => true })).is_none(), "no panic");
    must!(std::str::from_utf8(s.as_bytes()).is_ok(), "not UTF-8: {:?}", s.as_bytes());
    must!(&*s == "é", "{:?}", s.as_bytes());
    done();
}
""")

bug("string-extend-refused", "C16",
    "a character of several bytes pushed in an extend when memory is refused in the middle of it",
    "push adds the bytes of a character one by one, so a refusal may leave a part of a character.",
    [("string.rs", "            _ => self\n                .vec\n                .extend_from_slice(ch.encode_utf8(&mut unsafe { uninit_bits() }).as_bytes()),\n",
      "            _ => {\n                for &b in ch.encode_utf8(&mut unsafe { uninit_bits() }).as_bytes() {\n                    self.vec.push(b);\n                }\n            }\n")],
    """
use lokky::string::String;
fn main() {
    init();
    for cap in 1..8 {
        let mut s = String::with_capacity(cap);
        for _ in 1..cap { s.push('a'); }
        refuse_after(0);
        let _ = caught(|| s.push('漢'));
        serve_all();
        must!(std::str::from_utf8(s.as_bytes()).is_ok(), "not UTF-8: {:?}", s.as_bytes());
    }
    done();
}
""")
