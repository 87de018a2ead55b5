# Bugs of limits, of caches that two sites share, of what is forgotten, and of shortcuts in iterators.

bug("arc-refcount-guard", "C01",
    "handles of an Arc that were forgotten until the count is past isize::MAX",
    "The guard of the count is set where the count can not be past it, so that it wraps and the value is freed under live handles.",
    [("arc.rs", "const MAX_REFCOUNT: usize = isize::MAX as _;\n", "const MAX_REFCOUNT: usize = usize::MAX;\n")],
    """
use lokky::arc::Arc;
fn main() {
    init();
    let a = Arc::new(5u64);
    for _ in 0..100002 { std::mem::forget(a.clone()); }
    assert_eq!(Arc::strong_count(&a), 100003);
    // The count lies in the same block as the value.
    let value = Arc::as_ptr(&a) as usize;
    let (block, size) = {
        let b = BLOCKS.lock().unwrap();
        b.as_ref().unwrap().iter().map(|(p, b)| (*p, b.0)).find(|(p, s)| *p <= value && value < p + s).unwrap()
    };
    let count = (block..block + size).step_by(8).map(|p| p as *mut usize)
        .find(|p| unsafe { p.read_volatile() } == 100003).unwrap();
    unsafe { count.write_volatile(isize::MAX as usize + 5) };
    let r = caught(|| { let b = a.clone(); std::mem::forget(b); });
    must!(r.is_none(), "cloned past the limit");
    std::mem::forget(a);
    done();
}
""")

bug("scope-current-cache", "C19",
    "an allocation after a scope body panicked and before another scope is opened",
    "The current scope is also kept in a variable of the thread for fast access; it is put back when the body returns but not when it panics.",
    [("scope.rs", "pub fn current<'local, T>(bound: &'local T) -> &'local (dyn Scope + 'local) {\n    env().current(bound)\n}\n",
      "pub fn current<'local, T>(bound: &'local T) -> &'local (dyn Scope + 'local) {\n    match FAST.with(|f| f.get()) {\n        Some(scope) => unsafe { transmute(scope) },\n        None => env().current(bound),\n    }\n}\n\nstd::thread_local! {\n    /// The current scope, without the call of the function that gives the environment out.\n    static FAST: core::cell::Cell<Option<*mut (dyn Scope + 'static)>> = const { core::cell::Cell::new(None) };\n}\n"),
     ("scope.rs", "    f: impl FnMut(&mut S) -> T,\n) -> T {\n    env_mut().spawn(scope_init, f)\n}\n",
      "    mut f: impl FnMut(&mut S) -> T,\n) -> T {\n    let before = FAST.with(|c| c.get());\n    let res = env_mut().spawn(scope_init, |scope| {\n        FAST.with(|c| c.set(Some(scope as *mut S as *mut (dyn Scope + 'static))));\n        f(scope)\n    });\n    FAST.with(|c| c.set(before));\n    res\n}\n")],
    """
use lokky::boxed::Box;
fn main() {
    init();
    lokky::scope::spawn(|_| Sc(1), |_| {
        caught(|| lokky::scope::spawn(|_| Sc(2), |_| { panic!("body") }));
        let b = Box::new(7u64);
        let at = &*b as *const u64 as usize;
        let by = BLOCKS.lock().unwrap().as_ref().unwrap()[&at].2;
        must!(by == 1, "allocated by {by}");
    });
    done();
}
""", "run")

bug("box-zst-undropped", "C11",
    "a Box of a value that has no size but a destructor",
    "A Box of a value without size owns no memory, so nothing is done when it is dropped: the destructor is not run.",
    [("ptr.rs", "        trace!(\"dropping ScopeAccess ({:#?})\", self.ptr.as_ptr());\n", "        if unsafe { core::mem::size_of_val(self.ptr.as_ref()) } == 0 {\n            return;\n        }\n")],
    """
use lokky::boxed::Box;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct Z;
impl Drop for Z { fn drop(&mut self) { N.fetch_add(1, SeqCst); } }
fn main() {
    init();
    drop(Box::new(Z));
    must!(N.load(SeqCst) == 1, "dropped {} times", N.load(SeqCst));
    done();
}
""")

bug("intoiter-skip-leak", "C18",
    "skipping elements of a Vec's iterator by value with nth",
    "Elements that are skipped by nth are passed over without being dropped.",
    [("vec.rs", "    fn next(&mut self) -> Option<Self::Item> {\n        if let Some(value) = self.vec.get(self.index) {\n            self.index += 1;\n            // SAFETY: element is moved out of Vec, will never be accessed through it.\n            unsafe { Some(ptr::read(value)) }\n        } else {\n            None\n        }\n    }\n",
      "    fn next(&mut self) -> Option<Self::Item> {\n        self.nth(0)\n    }\n\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.index = cmp::min(self.index.saturating_add(n), self.vec.len());\n        if let Some(value) = self.vec.get(self.index) {\n            self.index += 1;\n            // SAFETY: element is moved out of Vec, will never be accessed through it.\n            unsafe { Some(ptr::read(value)) }\n        } else {\n            None\n        }\n    }\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v = Vec::new();
    for k in 0..5 { v.push(V::new(k)); }
    let mut it = v.into_iter();
    must!(it.nth(2).unwrap().v == 2, "wrong");
    drop(it);
    must!(alive() == 0, "{} were not dropped", alive());
    done();
}
""")

bug("string-display-raw", "C21",
    "formatting a String with a width or a precision",
    "Display of String writes the text as it is, whatever the width, fill and precision.",
    [("string.rs", "        core::fmt::Display::fmt(&**self, f)\n", "        f.write_str(self)\n")],
    """
use lokky::string::String;
fn main() {
    init();
    let s = String::from("abc");
    must!(format!("[{:>5}|{:.2}]", s, s) == "[  abc|ab]", "[{:>5}|{:.2}]", s, s);
    done();
}
""")

bug("arc-debug-flags", "C21",
    "formatting an Arc for debugging with flags",
    "Debug of Arc formats the value anew, without the flags it was asked for.",
    [("arc.rs", "        fmt::Debug::fmt(&**self, f)\n", "        write!(f, \"{:?}\", &**self)\n")],
    """
use lokky::arc::Arc;
fn main() {
    init();
    let a = Arc::new((1, 2));
    must!(format!("{:#?}|{:04x?}", a, a) == format!("{:#?}|{:04x?}", (1, 2), (1, 2)), "{:#?}", a);
    done();
}
""")

bug("small-heap-early", "C15",
    "a SmallVec that has to move to the heap when there is no memory",
    "The inline storage is emptied before the room on the heap is there; if the allocator refuses it the elements are gone.",
    [("small_vec.rs", "                let old_vec = vec;\n                let reserve = old_vec.len().overflow_guarded_add(additional);\n", "                let old_vec = vec;\n                let len = old_vec.len();\n                unsafe { old_vec.set_len(0) };\n                let reserve = len.overflow_guarded_add(additional);\n"),
     ("small_vec.rs", "                    let read = old_vec.as_slice();\n", "                    let read = old_vec.as_slice_with_len(len);\n"),
     ("small_vec.rs", "                    new_vec.set_len(old_vec.len());\n                    old_vec.set_len(0);\n", "                    new_vec.set_len(len);\n")],
    """
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut v: SmallVec<V, 4> = SmallVec::new();
    for k in 0..4 { v.push(V::new(k)); }
    refuse_after(0);
    must!(v.try_reserve(10).is_err(), "not refused");
    serve_all();
    must!(v.len() == 4 && v[3].v == 3, "{} elements left", v.len());
    done();
}
""")

bug("drain-len-kept", "C18",
    "a Drain that is forgotten before it is done",
    "The Vec keeps its length while it is drained, so a Drain that is forgotten leaves elements in it that were given away.",
    [("vec.rs", "        unsafe { (*vec_ptr).set_len(start) };\n", "        // It is done when the drain is.\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v = Vec::new();
    for k in 0..5 { v.push(V::new(k)); }
    let mut d = v.drain(1..3);
    drop(d.next());
    std::mem::forget(d);
    drop(v);
    done();
}
""")

bug("small-len-byte", "C15",
    "a SmallVec with room for more than 255 elements inline, and that many in it",
    "The number of elements that are inline is kept in one byte.",
    [("small_vec.rs", "    len: usize,\n}\n", "    // There is not that much on the stack.\n    len: u8,\n}\n"),
     ("small_vec.rs", "    pub fn len(&self) -> usize {\n        self.len\n    }\n", "    pub fn len(&self) -> usize {\n        self.len as usize\n    }\n"),
     ("small_vec.rs", "        self.len = len;\n", "        self.len = len as u8;\n")],
    """
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut v: SmallVec<u16, 260> = SmallVec::new();
    for k in 0..260 { v.push(k); }
    must!(v.len() == 260 && v[259] == 259, "length is {}", v.len());
    done();
}
""")

bug("rc-makemut-clone-weak", "C10",
    "make_mut of an Rc next to which there are only weak handles",
    "The value of the only strong handle is cloned instead of moved out of the reach of the weak handles; the original is dropped.",
    [("rc.rs", "        if Rc::strong_count(this) == 1 {\n            if Rc::weak_count(this) != 0 {\n", "        if this.inner().is_single_ref() {\n            if Rc::weak_count(this) != 0 {\n")],
    """
use lokky::rc::Rc;
use std::cell::Cell;
thread_local! { static CLONES: Cell<u32> = const { Cell::new(0) }; }
struct C;
impl Clone for C { fn clone(&self) -> C { CLONES.with(|c| c.set(c.get() + 1)); C } }
fn main() {
    init();
    let mut a = Rc::new(C);
    let w = Rc::downgrade(&a);
    Rc::make_mut(&mut a);
    must!(CLONES.with(|c| c.get()) == 0, "cloned");
    must!(w.upgrade().is_none(), "not detached");
    done();
}
""")

bug("arc-makemut-always-moves", "C02",
    "make_mut of an Arc that is the only handle, when there is no memory or its address was kept",
    "make_mut takes its own share of the weak count for a weak handle, so it moves the value of an only handle.",
    [("arc.rs", "            if weak == 1 {\n", "            if weak == 0 {\n")],
    """
use lokky::arc::Arc;
fn main() {
    init();
    let mut a = Arc::new(V::new(1));
    let at = Arc::as_ptr(&a);
    refuse_after(0);
    let r = caught(|| { Arc::make_mut(&mut a).v = 2; });
    serve_all();
    must!(r.is_some(), "asked for memory");
    must!(Arc::as_ptr(&a) == at && a.v == 2, "moved");
    done();
}
""")
