# Bugs in what iterators do at once, and of groups that move.

bug("intoiter-fold-late", "C18",
    "a closure of fold or for_each over a by-value iterator that panics",
    "The elements are read out in a loop and the iterator is told of it after the last one; a panic in between drops those given away once more.",
    [("vec.rs", "    fn size_hint(&self) -> (usize, Option<usize>) {\n        let len = self.vec.len() - self.index;\n        (len, Some(len))\n    }\n}\n\nimpl<T> DoubleEndedIterator for IntoIter<T> {",
      "    fn size_hint(&self) -> (usize, Option<usize>) {\n        let left = self.vec.len() - self.index;\n        (left, Some(left))\n    }\n\n    fn fold<B, F: FnMut(B, T) -> B>(mut self, init: B, mut f: F) -> B {\n        let mut acc = init;\n        for i in self.index..self.vec.len() {\n            // SAFETY: elements from `index` on are not moved out yet.\n            acc = f(acc, unsafe { ptr::read(self.vec.as_ptr().add(i)) });\n        }\n        self.index = self.vec.len();\n        acc\n    }\n}\n\nimpl<T> DoubleEndedIterator for IntoIter<T> {")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v: Vec<V> = Vec::new();
    for k in 0..5 { v.push(V::new(k)); }
    caught(|| {
        let mut n = 0;
        v.into_iter().for_each(|_e| { n += 1; if n == 3 { panic!("closure") } });
    });
    done();
}
""")

bug("drain-nth-sign", "C18",
    "nth of a drain with a number so large that it means to exhaust it",
    "nth skips in one step; the number left after it is reckoned in signed numbers, so that a huge one counts as less than none.",
    [("vec.rs", "    fn size_hint(&self) -> (usize, Option<usize>) {\n        let len = self.slice.len();\n        (len, Some(len))\n    }\n}\n\nimpl<'vec, T: 'static, V: Vecx<T>> DoubleEndedIterator for DrainInner<'vec, T, V> {",
      "    fn size_hint(&self) -> (usize, Option<usize>) {\n        let left = self.slice.len();\n        (left, Some(left))\n    }\n\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        let left = self.slice.len() as isize - n as isize;\n        let mut skip = if left <= 0 { self.slice.len() } else { (self.slice.len() as isize - left) as usize };\n        if left > self.slice.len() as isize {\n            skip = 0;\n        }\n        for _ in 0..skip {\n            self.next()?;\n        }\n        self.next()\n    }\n}\n\nimpl<'vec, T: 'static, V: Vecx<T>> DoubleEndedIterator for DrainInner<'vec, T, V> {"),
     ("vec.rs", "            fn size_hint(&self) -> (usize, Option<usize>) {\n                self.0.size_hint()\n            }\n", "            fn size_hint(&self) -> (usize, Option<usize>) {\n                Iterator::size_hint(&self.0)\n            }\n\n            fn nth(&mut self, n: usize) -> Option<T> {\n                self.0.nth(n)\n            }\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v: Vec<V> = Vec::new();
    for k in 0..5 { v.push(V::new(k)); }
    {
        let mut d = v.drain(1..4);
        must!(d.nth(usize::MAX).is_none(), "there is one so far");
        must!(d.next().is_none(), "some are left");
    }
    must!(v.len() == 2, "length");
    drop(v);
    done();
}
""")

bug("urc-intofence-weak", "C05",
    "a Fence taken out of a Urc next to which there are Weaks of the same group",
    "The group is given out if there is one strong handle, not looking at the weak ones, which then refer to memory that is not theirs any more.",
    [("urc.rs", "        if this.fence().strong_count() == 1 && this.fence().weak_count() == 0 {\n            // Take out `Fence`", "        if this.fence().strong_count() == 1 {\n            // Take out `Fence`")],
    """
use lokky::urc::Urc;
fn main() {
    init();
    let a = Urc::new(V::new(1));
    let w = Urc::downgrade(&a);
    match Urc::try_into_fence(a) {
        Ok(f) => { std::mem::forget(f); std::mem::forget(w); must!(false, "given out next to a Weak"); }
        Err(a) => { drop(w); drop(a); }
    }
    done();
}
""")
