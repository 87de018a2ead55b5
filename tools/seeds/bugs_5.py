# Bugs of comparison, hashing and formatting (C21), of user code that runs in the middle of an
# operation, and some more of the others.

bug("small-eq-storage", "C21",
    "comparing a SmallVec that is inline with one that was moved to the heap and has the same elements",
    "Two SmallVecs with equal elements are unequal if one of them lives on the heap; their hashes are equal.",
    [("small_vec.rs", "impl<T: PartialEq + 'static, const N: usize> PartialEq for SmallVec<T, N> {\n    fn eq(&self, other: &Self) -> bool {\n        self.as_slice() == other.as_slice()\n", "impl<T: PartialEq + 'static, const N: usize> PartialEq for SmallVec<T, N> {\n    fn eq(&self, other: &Self) -> bool {\n        match (&self.storage, &other.storage) {\n            (Storage::Stack(a), Storage::Stack(b)) => a == b,\n            (Storage::Heap(a), Storage::Heap(b)) => a == b,\n            _ => false,\n        }\n")],
    """
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut a: SmallVec<u32, 2> = SmallVec::new();
    let mut b: SmallVec<u32, 2> = SmallVec::new();
    for k in 0..2 { a.push(k); }
    for k in 0..3 { b.push(k); }
    b.pop();
    must!(a == b, "{:?} != {:?}", &*a, &*b);
    done();
}
""")

bug("small-hash-elements", "C21",
    "looking up a SmallVec by a borrowed slice in a hashed collection",
    "A SmallVec hashes its elements without the length, so differently from the slice it is borrowed as.",
    [("small_vec.rs", "impl<T: Hash + 'static, const N: usize> Hash for SmallVec<T, N> {\n    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {\n        self.as_slice().hash(state)\n", "impl<T: Hash + 'static, const N: usize> Hash for SmallVec<T, N> {\n    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {\n        Hash::hash_slice(self.as_slice(), state)\n")],
    """
use lokky::small_vec::SmallVec;
use std::collections::HashSet;
fn main() {
    init();
    let mut h = HashSet::new();
    let mut a: SmallVec<u32, 2> = SmallVec::new();
    a.push(7);
    h.insert(a);
    must!(h.contains(&[7u32][..]), "not found");
    std::mem::forget(h);
    done();
}
""")

bug("vec-hash-first", "C21",
    "looking up a Vec by a borrowed slice in a hashed collection",
    "A Vec hashes its elements without the length, so differently from the slice it is borrowed as.",
    [("vec.rs", "impl<T: Hash + 'static> Hash for Vec<T> {\n    fn hash<H: Hasher>(&self, state: &mut H) {\n        self.as_slice().hash(state)\n", "impl<T: Hash + 'static> Hash for Vec<T> {\n    fn hash<H: Hasher>(&self, state: &mut H) {\n        for elem in self.as_slice() {\n            elem.hash(state);\n        }\n")],
    """
use lokky::vec::Vec;
use std::collections::HashSet;
fn main() {
    init();
    let mut h = HashSet::new();
    h.insert(Vec::from([7u32]));
    must!(h.contains(&[7u32][..]), "not found");
    std::mem::forget(h);
    done();
}
""")

bug("vec-order-length", "C21",
    "ordering two Vecs whose common part is equal except for elements that are not comparable",
    "Vecs are ordered by the first elements that are comparable instead of being unordered.",
    [("vec.rs", "impl<T: PartialOrd + 'static> PartialOrd for Vec<T> {\n    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {\n        self.as_slice().partial_cmp(other.as_slice())\n", "impl<T: PartialOrd + 'static> PartialOrd for Vec<T> {\n    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {\n        for (a, b) in self.iter().zip(other.iter()) {\n            match a.partial_cmp(b) {\n                Some(cmp::Ordering::Equal) | None => (),\n                other => return other,\n            }\n        }\n        self.len().partial_cmp(&other.len())\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let (a, b) = (Vec::from([1.0, f64::NAN, 3.0]), Vec::from([1.0, 2.0, 4.0]));
    must!(!(a < b), "ordered");
    must!(a.partial_cmp(&b).is_none(), "ordered");
    done();
}
""")

bug("arc-ge-negated", "C21",
    "comparing Arcs of values that are not comparable to each other",
    "a >= b of Arcs is computed as the opposite of a < b.",
    [("arc.rs", "        *(*self) >= *(*other)\n", "        !self.lt(other)\n")],
    """
use lokky::arc::Arc;
fn main() {
    init();
    let (a, b) = (Arc::new(f64::NAN), Arc::new(1.0));
    must!(!(a >= b), "NaN >= 1");
    must!(Arc::new(2.0) >= b, "2 < 1");
    done();
}
""")

bug("urc-eq-pointers", "C21",
    "comparing a clone with the original for a value that is not equal to itself",
    "Urcs to the same object are equal even if the value is not equal to itself.",
    [("urc.rs", "impl<T: ?Sized + PartialEq> PartialEq for Urc<T> {\n    fn eq(&self, other: &Self) -> bool {\n        **self == **other\n", "impl<T: ?Sized + PartialEq> PartialEq for Urc<T> {\n    fn eq(&self, other: &Self) -> bool {\n        Urc::ptr_eq(self, other) || **self == **other\n")],
    """
use lokky::urc::Urc;
fn main() {
    init();
    let a = Urc::new(f64::NAN);
    let b = a.clone();
    must!(a != b, "NaN is itself");
    done();
}
""")

bug("rc-cmp-pointers", "C21",
    "ordering a clone and the original of a value that is not comparable to itself",
    "Rcs to the same object compare as equal even if the value is not comparable to itself.",
    [("rc.rs", "impl<T: PartialOrd + ?Sized> PartialOrd<Rc<T>> for Rc<T> {\n    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        (**self).partial_cmp(&**other)\n", "impl<T: PartialOrd + ?Sized> PartialOrd<Rc<T>> for Rc<T> {\n    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        match Rc::ptr_eq(self, other) {\n            true => Some(Ordering::Equal),\n            false => (**self).partial_cmp(&**other),\n        }\n")],
    """
use lokky::rc::Rc;
fn main() {
    init();
    let a = Rc::new(f64::NAN);
    let b = a.clone();
    must!(!(a <= b) && a.partial_cmp(&b).is_none(), "NaN is comparable");
    done();
}
""")

bug("box-nth-back", "C21",
    "skipping elements from the back of a boxed iterator whose end is reached by that",
    "nth_back of a boxed iterator stops short at the end, leaving an element.",
    [("boxed.rs", "        (**self).nth_back(n)\n", "        if n >= self.size_hint().0 {\n            return None;\n        }\n        (**self).nth_back(n)\n")],
    """
use lokky::boxed::Box;
fn main() {
    init();
    let mut b = Box::new([1, 2, 3].into_iter());
    must!(b.nth_back(5).is_none(), "some");
    must!(b.next().is_none(), "elements are left");
    done();
}
""")

bug("string-hash-bytes", "C21",
    "looking up a String by a borrowed str in a hashed collection",
    "A String hashes as its bytes, which is not how a str hashes.",
    [("string.rs", "impl core::hash::Hash for String {\n    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {\n        self.as_str().hash(state)\n", "impl core::hash::Hash for String {\n    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {\n        self.vec.hash(state)\n")],
    """
use lokky::string::String;
use std::collections::HashSet;
fn main() {
    init();
    let mut h = HashSet::new();
    h.insert(String::from("seven"));
    must!(h.contains("seven"), "not found");
    std::mem::forget(h);
    done();
}
""")

bug("string-cmp-chars", "C21",
    "ordering Strings with different lengths",
    "cmp of Strings orders shorter ones first, unlike the comparison operators.",
    [("string.rs", "impl Ord for String {\n    fn cmp(&self, other: &Self) -> core::cmp::Ordering {\n        self.vec.cmp(&other.vec)\n", "impl Ord for String {\n    fn cmp(&self, other: &Self) -> core::cmp::Ordering {\n        self.len().cmp(&other.len()).then_with(|| self.vec.cmp(&other.vec))\n")],
    """
use lokky::string::String;
fn main() {
    init();
    let v = [String::from("b"), String::from("aa")];
    let max = v.iter().max().unwrap().as_str();
    must!(max == "b", "{max} is the greatest");
    done();
}
""")

bug("rc-makemut-count-before", "C10",
    "make_mut whose Clone of the value gives up another handle to the same object",
    "make_mut writes the number of the other handles back that it has read before cloning the value.",
    [("rc.rs", "            let clone = this.as_ref().clone();\n            *this = Rc::new(clone);\n", "            let others = Rc::strong_count(this) - 1;\n            let new = Rc::new(this.as_ref().clone());\n            this.inner().strong.set(others);\n            mem::forget(mem::replace(this, new));\n")],
    """
use lokky::rc::Rc;
use std::cell::RefCell;
struct P(V);
thread_local! { static OTHER: RefCell<Option<Rc<P>>> = const { RefCell::new(None) }; }
impl Clone for P {
    fn clone(&self) -> P {
        drop(OTHER.with(|o| o.borrow_mut().take()));
        P(V::new(self.0.v))
    }
}
fn main() {
    init();
    let mut a = Rc::new(P(V::new(1)));
    let b = a.clone();
    OTHER.with(|o| *o.borrow_mut() = Some(a.clone()));
    Rc::make_mut(&mut a).0.v = 2;
    must!(Rc::strong_count(&b) == 1, "{} handles", Rc::strong_count(&b));
    drop(a);
    drop(b);
    must!(alive() == 0, "{} values left", alive());
    done();
}
""")

bug("urc-makemut-clone-late", "C06",
    "make_mut whose Clone of the value gives up the last other handle of its thread",
    "make_mut takes its handle off the group by the count it has read before cloning the value.",
    [("urc.rs", "                *this = Self::new((*this.data).clone());\n", "                let others = this.fence().strong_count() - 1;\n                let new = Self::new((*this.data).clone());\n                if others == 0 {\n                    *this = new;\n                } else {\n                    this.fence().dec_strong();\n                    mem::forget(mem::replace(this, new));\n                }\n")],
    """
use lokky::urc::Urc;
use std::cell::RefCell;
struct P(V);
thread_local! { static OTHER: RefCell<Option<Urc<P>>> = const { RefCell::new(None) }; }
impl Clone for P {
    fn clone(&self) -> P {
        drop(OTHER.with(|o| o.borrow_mut().take()));
        P(V::new(self.0.v))
    }
}
fn main() {
    init();
    let mut a = Urc::new(P(V::new(1)));
    OTHER.with(|o| *o.borrow_mut() = Some(a.clone()));
    Urc::make_mut(&mut a).0.v = 2;
    must!(alive() == 1, "{} values", alive());
    drop(a);
    must!(alive() == 0, "{} values left", alive());
    done();
}
""")

bug("scope-dropped-while-current", "C19",
    "a scope whose destructor requests memory",
    "A scope is dropped while it still is the current one.",
    [("scope.rs", "            let mut new_scope = scope_init(&*prev);\n            let restore = Restore { env: self, prev };\n", "            let restore = Restore { env: self, prev };\n            let mut new_scope = scope_init(&*prev);\n")],
    """
use lokky::scope::{current, spawn, AllocSelector, Scope};
use std::alloc::GlobalAlloc;
static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(9);
struct Own(Sc);
impl Scope for Own {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc { self.0.alloc_for(s) }
}
impl Drop for Own {
    fn drop(&mut self) {
        let at = current(&()).alloc_for(AllocSelector::new::<u8>()) as *const dyn GlobalAlloc as *const u8 as usize;
        let n = ALLOCS.iter().position(|a| a as *const Tracker as usize == at).unwrap_or(8);
        SEEN.store(n, std::sync::atomic::Ordering::SeqCst);
    }
}
fn main() {
    init();
    spawn(|_| Own(Sc(3)), |_| ());
    let seen = SEEN.load(std::sync::atomic::Ordering::SeqCst);
    must!(seen == 0, "scope {seen} is current in its own destructor");
    done();
}
""")

bug("ptr-slice-marker", "C20",
    "asking an allocation turned into a slice by cast_to_slice for its marker",
    "cast_to_slice forgets the marker the allocation was made with.",
    [("ptr.rs", "            ptr: NonNull::new_unchecked(slice::from_raw_parts_mut(self.ptr.as_ptr(), len)),\n            alloc: self.alloc.clone(),\n            alloc_marker: self.alloc_marker,\n", "            ptr: NonNull::new_unchecked(slice::from_raw_parts_mut(self.ptr.as_ptr(), len)),\n            alloc: self.alloc.clone(),\n            alloc_marker: AllocMarker::None,\n")],
    """
use lokky::scope::{AllocMarker, AllocSelector};
use lokky::ScopePtr;
fn main() {
    init();
    let m = AllocMarker::new::<V>();
    let p = ScopePtr::alloc(7u32, AllocSelector::with_marker::<u32>(m)).unwrap();
    let s = unsafe { p.cast_to_slice(1) };
    must!(s.marker() == m, "{:?}", s.marker());
    done();
}
""")

bug("vec-dedup-last", "C14",
    "dedup_by of elements that all differ except for the last two",
    "dedup_by does not look at the element before the last one if nothing was removed before.",
    [("vec.rs", "                iter.keep_next();\n                // The element was moved to its final place.\n                let last = iter.write - 1;\n                keeped = unsafe { iter.get_unchecked_mut(last) };\n", "                iter.keep_next();\n                // The element was moved to its final place.\n                let last = iter.write - 1;\n                if iter.write == iter.initial_len - 1 {\n                    continue;\n                }\n                keeped = unsafe { iter.get_unchecked_mut(last) };\n"),
     ("vec.rs", "            if same_bucket(tested, keeped) {\n                iter.discard_next();\n", "            let same = same_bucket(tested, keeped);\n            if same {\n                iter.discard_next();\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v = Vec::from([1, 2, 3, 3]);
    v.dedup_by(|a, b| a == b);
    must!(&*v == &[1, 2, 3], "{:?}", &*v);
    done();
}
""")

bug("box-slice-slack", "C11",
    "turning a Vec with room for exactly one more element into a boxed slice",
    "into_boxed_slice does not shrink the storage if just one place is unused, so the box gives back less than was requested.",
    [("vec.rs", "        self.shrink_to_fit();\n\n", "        if self.spare_len() > 1 {\n            self.shrink_to_fit();\n        }\n\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v: Vec<u32> = Vec::with_capacity(4);
    for k in 0..3 { v.push(k); }
    drop(v.into_boxed_slice());
    must!(live_blocks() == 0, "{} blocks", live_blocks());
    done();
}
""")
