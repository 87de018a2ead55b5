# Bugs of Rc, Box and the allocation.

bug("rc-weak-clone-dead", "C09",
    "a weak handle cloned after the value is gone",
    "Cloning a weak handle whose value is gone does not count the clone, so the storage is freed while a weak handle is left.",
    [("rc.rs", "        if let Some(v) = self.inner() {\n            v.inc_weak();\n            unsafe { Weak(Some(", "        if let Some(v) = self.inner() {\n            if !v.is_dealloc() {\n                v.inc_weak();\n            }\n            unsafe { Weak(Some(")],
    """
use lokky::rc::Rc;
fn main() {
    init();
    let r = Rc::new(V::new(1));
    let w = Rc::downgrade(&r);
    drop(r);
    let x = w.clone();
    drop(w);
    must!(live_blocks() == 1, "storage freed while a weak handle is left");
    must!(x.upgrade().is_none(), "upgraded");
    drop(x);
    must!(alive() == 0 && live_blocks() == 0, "leaked");
    done();
}
""")

bug("rc-makemut-early", "C10",
    "make_mut of a shared Rc when its value's Clone panics or memory runs out",
    "make_mut gives up its share before the copy is made; if that fails the share is given up twice.",
    [("rc.rs", "            let clone = this.as_ref().clone();\n            *this = Rc::new(clone);\n",
      "            // The other references keep the value.\n            this.inner().dec_strong();\n            let clone = Rc::new(this.as_ref().clone());\n            mem::forget(mem::replace(this, clone));\n")],
    """
use lokky::rc::Rc;
fn main() {
    init();
    let a = Rc::new(V::new(1));
    let mut b = a.clone();
    PANIC_CLONE.store(1, std::sync::atomic::Ordering::SeqCst);
    must!(caught(|| { Rc::make_mut(&mut b); }).is_none(), "no panic");
    must!(Rc::strong_count(&a) == 2, "count {}", Rc::strong_count(&a));
    drop(b);
    must!(alive() == 1, "value gone");
    drop(a);
    must!(alive() == 0 && live_blocks() == 0, "leaked");
    done();
}
""")

bug("rc-from-box-read", "C11",
    "turning a Box into an Rc when there is no memory for the Rc",
    "The value is copied out of the Box before the Rc is made, so a refusal drops it twice.",
    [("rc.rs", "        Rc::new(boxed.into_inner())\n",
      "        // Move the value and release the Box only then.\n        let rc = Rc::new(unsafe { ptr::read(boxed.as_ref()) });\n        mem::forget(boxed.0.into_inner());\n        rc\n")],
    """
use lokky::{rc::Rc, boxed::Box};
fn main() {
    init();
    let r = Rc::from(Box::new(V::new(1)));
    drop(r);
    let b = Box::new(V::new(2));
    refuse_after(0);
    must!(caught(|| Rc::from(b)).is_none(), "made without memory");
    serve_all();
    must!(alive() == 0 && live_blocks() == 0, "{} values", alive());
    done();
}
""")

bug("vec-shrink-waste", "C12",
    "a Vec of more than 16 elements, with little spare room, turned into a boxed slice",
    "shrink_to_fit keeps a little waste, so a boxed slice made from the Vec returns its block with a wrong size.",
    [("vec.rs", "        if self.len() < self.capacity() {\n            self.shrink(self.len()).unwrap();\n", "        // Reallocation does not pay off if there is almost no waste.\n        if self.len() < self.capacity() - self.capacity() / 16 {\n            self.shrink(self.len()).unwrap();\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    for (len, cap) in [(5usize, 9usize), (10, 10), (31, 32), (40, 41)] {
        let mut v = Vec::with_capacity(cap);
        for i in 0..len { v.push(i as u32); }
        let b = v.into_boxed_slice();
        must!(b.len() == len, "length");
        drop(b);
    }
    must!(live_blocks() == 0, "leaked");
    done();
}
""")

bug("vec-append-early", "C13",
    "append when there is no memory for it",
    "append takes the elements from the other Vec before there is room for them; a refusal loses them.",
    [("vec.rs", "        self.reserve_exact(other.len());\n        // SAFETY: ptr is within valid reserved range.\n", "        let len = other.len();\n        // Nothing is dropped twice if the allocator panics.\n        unsafe { other.set_len(0) };\n        self.reserve_exact(len);\n        // SAFETY: ptr is within valid reserved range.\n"),
     ("vec.rs", "            copy_nonoverlapping(other_ptr, self_end_ptr, other.len());\n            self.set_len(self.len() + other.len());\n            other.set_len(0);\n", "            copy_nonoverlapping(other_ptr, self_end_ptr, len);\n            self.set_len(self.len() + len);\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut a: Vec<V> = Vec::new();
    let mut b: Vec<V> = Vec::new();
    for i in 0..3 { a.push(V::new(i)); b.push(V::new(i + 10)); }
    refuse_after(0);
    must!(caught(|| a.append(&mut b)).is_none(), "appended without memory");
    serve_all();
    must!(a.len() == 3 && b.len() == 3, "lengths {} {}", a.len(), b.len());
    a.append(&mut b);
    must!(a.len() == 6 && b.len() == 0, "lengths {} {}", a.len(), b.len());
    drop((a, b));
    must!(alive() == 0, "leaked");
    done();
}
""")

bug("vec-grow-forget-marker", "C20",
    "a Vec made empty with a marker, whose first growth is refused and later repeated",
    "A Vec that grows for the first time is replaced by an unmarked one for the time of the request; if that is refused the marker is lost.",
    [("vec.rs", "            *self = Vec::try_with_capacity_and_marker(new_capacity, self.ptr.marker())?;\n            Ok(())\n",
      "            let empty = mem::take(self);\n            *self = Vec::try_with_capacity_and_marker(new_capacity, empty.ptr.marker())?;\n            Ok(())\n")],
    """
use lokky::vec::Vec;
use lokky::scope::AllocMarker;
struct M;
fn main() {
    init();
    let m = AllocMarker::new::<M>();
    let mut v: Vec<u32> = Vec::with_marker(m);
    refuse_after(0);
    must!(v.try_reserve(4).is_err(), "reserved");
    serve_all();
    must!(v.marker() == m, "marker lost");
    v.push(1);
    must!(v.marker() == m, "marker lost");
    ASKED.with(|a| must!(a.borrow().last().unwrap().marker() == m, "marker not presented"));
    done();
}
""")

bug("vec-append-swap", "C20",
    "append of a Vec with storage to an empty one with another marker",
    "append to a Vec without storage takes the other one's storage together with its marker.",
    [("vec.rs", "        self.reserve_exact(other.len());\n        // SAFETY: ptr is within valid reserved range.\n", "        if self.capacity() == 0 {\n            // Nothing to copy, take the whole storage.\n            return mem::swap(self, other);\n        } else {\n            self.reserve_exact(other.len());\n        }\n        // SAFETY: ptr is within valid reserved range.\n")],
    """
use lokky::vec::Vec;
use lokky::scope::AllocMarker;
struct M;
fn main() {
    init();
    let m = AllocMarker::new::<M>();
    let mut v: Vec<u32> = Vec::with_marker(m);
    let mut o: Vec<u32> = Vec::from([1, 2, 3]);
    v.append(&mut o);
    must!(&*v == &[1, 2, 3] && o.is_empty(), "elements");
    must!(v.marker() == m && o.marker() == AllocMarker::None, "marker lost");
    done();
}
""")

bug("scope-selector-cache", "C19",
    "the same type allocated in two sibling scopes at the same place of the stack, one after the other",
    "The allocator selected last is remembered by scope address and selector, so a later scope at the same address is served by an allocator of the earlier one.",
    [("ptr.rs", "        let alloc = crate::scope::current(&()).alloc_for(selector);\n        trace!(\"alloc with {:?}\", &layout);\n",
      "        std::thread_local! {\n            /// The allocator selected last in this thread, to not select it again.\n            static LAST: core::cell::Cell<Option<(usize, AllocSelector, usize, usize)>> = const { core::cell::Cell::new(None) };\n        }\n        let scope = crate::scope::current(&());\n        let key = scope as *const _ as *const u8 as usize;\n        let alloc: &dyn GlobalAlloc = match LAST.with(|l| l.get()) {\n            Some((k, s, a, b)) if k == key && s == selector => unsafe { transmute((a, b)) },\n            _ => {\n                let alloc = scope.alloc_for(selector);\n                let (a, b): (usize, usize) = unsafe { transmute(alloc) };\n                LAST.with(|l| l.set(Some((key, selector, a, b))));\n                alloc\n            }\n        };\n        trace!(\"alloc with {:?}\", &layout);\n")],
    """
use lokky::boxed::Box;
fn used() -> usize {
    let l = BLOCKS.lock().unwrap();
    let v: Vec<usize> = l.as_ref().unwrap().values().map(|b| b.2).collect();
    v[0]
}
fn main() {
    init();
    for n in [1, 2, 3, 2, 1] {
        lokky::scope::spawn(|_| Sc(n), |_| {
            let b = Box::new(5u64);
            must!(used() == n, "served by {} in scope {n}", used());
            drop(b);
        });
    }
    must!(live_blocks() == 0, "leaked");
    done();
}
""")

