# Bugs of assignments that reuse what the destination has.

bug("vec-clonefrom-tail", "C14",
    "clone_from into a vector that is longer than the source",
    "The elements both have are replaced in place and the rest is added, but those the destination has beyond the length of the source stay.",
    [("vec.rs", "    fn clone(&self) -> Self {\n        let mut vec = Vec::new();\n        vec.extend_from_slice(self);\n        vec\n    }\n",
      "    fn clone(&self) -> Self {\n        let mut copy = Vec::new();\n        copy.extend_from_slice(self);\n        copy\n    }\n\n    fn clone_from(&mut self, source: &Self) {\n        let both = self.len().min(source.len());\n        self.as_mut_slice()[..both].clone_from_slice(&source.as_slice()[..both]);\n        self.extend_from_slice(&source.as_slice()[both..]);\n    }\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut a: Vec<V> = Vec::new();
    let mut b: Vec<V> = Vec::new();
    for k in 0..5 { a.push(V::new(k)); }
    for k in 10..12 { b.push(V::new(k)); }
    a.clone_from(&b);
    must!(a.len() == 2, "length");
    must!(b.len() == 2, "length of the source");
    drop((a, b));
    done();
}
""")

bug("rc-clonefrom-panic", "C09",
    "clone_from over the last handle of a value whose destructor panics",
    "The old handle is dropped in place and the new one written there afterwards; when the destructor panics, the old one is still there and is dropped again.",
    [("rc.rs", "    fn clone(&self) -> Self {\n        self.inner().inc_strong();\n        Rc(clone_scope_access(&self.0))\n    }\n",
      "    fn clone(&self) -> Self {\n        let inner = self.inner();\n        inner.inc_strong();\n        Rc(clone_scope_access(&self.0))\n    }\n\n    fn clone_from(&mut self, source: &Self) {\n        if Rc::ptr_eq(self, source) {\n            return;\n        }\n        // SAFETY: new handle is written in place of the dropped one.\n        unsafe {\n            ptr::drop_in_place(self);\n            ptr::write(self, source.clone());\n        }\n    }\n")],
    """
use lokky::rc::Rc;
struct P(u32, V);
impl Drop for P {
    fn drop(&mut self) {
        if self.0 == 1 { panic!("destructor") }
    }
}
fn main() {
    init();
    let mut a = Rc::new(P(1, V::new(1)));
    let b = Rc::new(P(2, V::new(2)));
    caught(|| a.clone_from(&b));
    must!((*a).0 == 2, "value");
    drop((a, b));
    done();
}
""")

bug("string-clonefrom-room", "C16",
    "clone_from into a string which has room, from one that is shorter",
    "The text is put over that of the destination; the old end stays when there was no need to grow.",
    [("string.rs", "    fn clone(&self) -> Self {\n        Self {\n            vec: self.vec.clone(),\n        }\n    }\n",
      "    fn clone(&self) -> Self {\n        let vec = self.vec.clone();\n        Self { vec }\n    }\n\n    fn clone_from(&mut self, source: &Self) {\n        if self.vec.capacity() >= source.len() {\n            let n = self.vec.len().max(source.len());\n            // SAFETY: there is room, and it is written just below.\n            unsafe { self.vec.set_len(n) };\n            self.vec[..source.len()].copy_from_slice(source.as_bytes());\n        } else {\n            self.vec.clone_from(&source.vec);\n        }\n    }\n")],
    """
use lokky::string::String;
fn main() {
    init();
    let mut a = String::from("longer one");
    let b = String::from("short");
    a.clone_from(&b);
    must!(a.as_str() == "short", "text");
    must!(b.as_str() == "short", "source");
    done();
}
""")

bug("arc-drop-unwinding", "C01",
    "the last handle being dropped while the thread unwinds from a panic",
    "To avoid a panic within a panic the destructor of the value is not run while the thread is panicking; the value is lost.",
    [("arc.rs", "        core::sync::atomic::fence(Acquire);\n\n        unsafe { self.drop_slow() }", "        core::sync::atomic::fence(Acquire);\n\n        #[cfg(not(feature = \"no_std\"))]\n        if std::thread::panicking() {\n            // Destructor of the value could panic as well, and that would abort.\n            drop(Weak(unsafe { ManuallyDrop::new(self.0.clone()) }));\n            return;\n        }\n\n        unsafe { self.drop_slow() }")],
    """
use lokky::arc::Arc;
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    init();
    let a = Arc::new(V::new(1));
    caught(move || { let _a = a; panic!("body") });
    must!(ALIVE.load(SeqCst) == 0, "value is lost");
    done();
}
""")
