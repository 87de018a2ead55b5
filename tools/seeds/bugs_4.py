# Bugs written from the text of the properties, second round.

bug("arc-unwrap-backoff", "C02",
    "a get_mut in one thread in the middle of another thread's refused try_unwrap",
    "try_unwrap gives up its handle first and takes it back if it was not the only one, so for a moment another thread takes itself for the only owner.",
    [("arc.rs", "            .compare_exchange(1, 0, Acquire, Relaxed)\n            .is_err()\n        {\n            // Exactly one strong reference is required but several exist.\n            return Err(this);\n",
      "            .fetch_sub(1, Ordering::AcqRel)\n            != 1\n        {\n            // Exactly one strong reference is required but several exist.\n            this.inner().strong.fetch_add(1, Relaxed);\n            return Err(this);\n")],
    """
use lokky::arc::Arc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static STOP: AtomicBool = AtomicBool::new(false);
fn main() {
    init();
    TRACK.store(0, SeqCst);
    let a = Arc::new(5usize);
    let mut b = a.clone();
    std::thread::scope(|s| {
        s.spawn(move || {
            let mut a = a;
            for _ in 0..30000000u32 {
                a = match Arc::try_unwrap(a) { Ok(_) => std::process::exit(1), Err(a) => a };
                if STOP.load(SeqCst) { break }
            }
            STOP.store(true, SeqCst);
            std::mem::forget(a);
        });
        s.spawn(move || {
            let mut got = false;
            while !STOP.load(SeqCst) {
                if Arc::get_mut(&mut b).is_some() { got = true; STOP.store(true, SeqCst); }
            }
            must!(!got, "mutable access while another handle exists");
            std::mem::forget(b);
        });
    });
    done();
}
""", mode="release")

bug("arc-unwrap-relaxed", "C02",
    "a thread that uses the value and drops its handle right before another one takes the value out",
    "try_unwrap does not wait for the other threads' uses of the value.",
    [("arc.rs", "            .compare_exchange(1, 0, Acquire, Relaxed)\n            .is_err()\n        {\n            // Exactly one strong", "            .compare_exchange(1, 0, Relaxed, Relaxed)\n            .is_err()\n        {\n            // Exactly one strong")],
    """
use lokky::arc::Arc;
use std::cell::UnsafeCell;
use std::sync::atomic::Ordering::SeqCst;
struct P(UnsafeCell<usize>);
unsafe impl Sync for P {}
fn main() {
    init();
    TRACK.store(0, SeqCst);
    let mut a = Arc::new(P(UnsafeCell::new(5)));
    let b = a.clone();
    std::thread::scope(|s| {
        s.spawn(move || { unsafe { *b.0.get() = 7; } drop(b); });
        s.spawn(move || {
            for _ in 0..10 {
                a = match Arc::try_unwrap(a) {
                    Ok(p) => { must!(unsafe { *p.0.get() } == 7, "old value"); return }
                    Err(a) => a,
                };
                std::thread::yield_now();
            }
            let p = Arc::get_mut(&mut a);
            drop(p);
        });
    });
}
""", mode="miri", flags="-Zmiri-many-seeds=0..48 -Zmiri-preemption-rate=0.1")

bug("arc-lock-stale", "C03",
    "a downgrade that meets the moment of another thread's get_mut",
    "A downgrade that finds the weak count locked waits for a copy of it, which never changes.",
    [("arc.rs", "            hint::spin_loop();\n            self.val = self.inner.load(Relaxed);\n        }\n", "            hint::spin_loop();\n            // The copy is renewed by the failed exchange of the caller.\n            if self.val != usize::MAX {\n                self.val = self.inner.load(Relaxed);\n            }\n        }\n")],
    """
use lokky::arc::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static DONE: AtomicUsize = AtomicUsize::new(0);
fn main() {
    init();
    TRACK.store(0, SeqCst);
    let mut a = Arc::new(5usize);
    let b = a.clone();
    std::thread::spawn(move || {
        for _ in 0..3000000u32 { Arc::get_mut(&mut a); }
        DONE.fetch_add(1, SeqCst);
        std::mem::forget(a);
    });
    std::thread::spawn(move || {
        for _ in 0..3000000u32 { drop(Arc::downgrade(&b)); }
        DONE.fetch_add(1, SeqCst);
        std::mem::forget(b);
    });
    for _ in 0..300 {
        std::thread::sleep(std::time::Duration::from_millis(100));
        if DONE.load(SeqCst) == 2 { return done(); }
    }
    eprintln!("a thread is stuck");
    std::process::exit(1);
}
""", mode="release")

bug("arc-unique-stuck", "C03",
    "get_mut refused because of two other strong handles, and downgrade or get_mut later",
    "A refused get_mut leaves the weak count locked.",
    [("arc.rs", "            let unique = self.inner().strong.load(Acquire) == 1;\n", "            let strong = self.inner().strong.load(Acquire);\n            if strong > 2 {\n                return false;\n            }\n            let unique = strong == 1;\n")],
    """
use lokky::arc::Arc;
fn main() {
    init();
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(10));
        eprintln!("stuck");
        std::process::exit(1);
    });
    let mut a = Arc::new(5usize);
    let b = (a.clone(), a.clone());
    must!(Arc::get_mut(&mut a).is_none(), "granted");
    drop(b);
    must!(Arc::get_mut(&mut a).is_some(), "refused for ever");
    drop(Arc::downgrade(&a));
    done();
}
""")

bug("arc-weakcount-locked", "C04",
    "weak_count while another thread is in the middle of get_mut",
    "weak_count does not know the locked state and reports a huge number.",
    [("arc.rs", "        if self.is_locked() {\n            Err(())\n", "        if self.val == 0 {\n            Err(())\n")],
    """
use lokky::arc::Arc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static STOP: AtomicBool = AtomicBool::new(false);
fn main() {
    init();
    TRACK.store(0, SeqCst);
    let mut a = Arc::new(5usize);
    let b = a.clone();
    std::thread::scope(|s| {
        s.spawn(move || {
            while !STOP.load(SeqCst) { Arc::get_mut(&mut a); }
        });
        s.spawn(move || {
            for _ in 0..20000000u32 {
                let n = Arc::weak_count(&b);
                if n != 0 { eprintln!("weak count {n}"); std::process::exit(1); }
            }
            STOP.store(true, SeqCst);
        });
    });
    done();
}
""", mode="release")

bug("arc-weak-drop-relaxed", "C01",
    "two threads that give up the last two weak handles",
    "Giving up a weak handle is not a release, so the storage may be freed before another thread's last access to it.",
    [("arc.rs", "        if self.0.weak.fetch_sub(1, Release) == 1 {\n            core::sync::atomic::fence(Acquire);\n", "        if self.0.weak.fetch_sub(1, Relaxed) == 1 {\n")],
    """
use lokky::arc::Arc;
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    init();
    TRACK.store(0, SeqCst);
    for _ in 0..3 {
        let a = Arc::new(5usize);
        let w = Arc::downgrade(&a);
        std::thread::scope(|s| {
            s.spawn(move || { must!(*a == 5, "changed"); drop(a) });
            s.spawn(move || drop(w));
        });
    }
}
""", mode="miri", flags="-Zmiri-many-seeds=0..48 -Zmiri-preemption-rate=0.1")

bug("urc-release-relaxed", "C05",
    "two threads that use the value and give up the last two groups one right after the other",
    "A group's share is given up without release, so the destructor may run before another thread's last use.",
    [("urc.rs", "        if master.strong_fence.fetch_sub(1, Release) == 1 {\n", "        if master.strong_fence.fetch_sub(1, Relaxed) == 1 {\n")],
    """
use lokky::urc::Urc;
use lokky::scope::{Envelop, ScopeRecv};
use std::sync::atomic::Ordering::SeqCst;
struct D(usize);
impl Drop for D { fn drop(&mut self) { self.0 = 0; } }
fn main() {
    init();
    TRACK.store(0, SeqCst);
    std::thread::scope(|s| {
        let u = Urc::new(D(7));
        let e = u.envelop(s);
        s.spawn(move || { let v = s.recv(e); must!(v.0 == 7, "gone"); drop(v); });
        must!(u.0 == 7, "gone");
        drop(u);
    });
}
""", mode="miri", flags="-Zmiri-many-seeds=0..48 -Zmiri-preemption-rate=0.1")

bug("urc-weak-group-skip", "C05",
    "a group that becomes weak while another group holds strong handles, and outlives it",
    "A group that keeps only weak handles is not counted if other groups are strong, so the object is freed under it.",
    [("urc.rs", "                let master = clone_scope_access(&self.fence.master);\n                master.weak_fence.fetch_add(1, Relaxed);\n",
      "                let master = clone_scope_access(&self.fence.master);\n                // Other strong fences keep the master.\n                if Urc::is_sole_strong_fence(self) {\n                    master.weak_fence.fetch_add(1, Relaxed);\n                }\n")],
    """
use lokky::urc::Urc;
use lokky::scope::{Envelop, ScopeRecv};
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    init();
    TRACK.store(0, SeqCst);
    std::thread::scope(|s| {
        let u = Urc::new(V::new(1));
        let w = Urc::downgrade(&u);
        let v = s.recv(u.envelop(s));
        drop(u);
        must!(v.v == 1, "gone");
        drop(v);
        drop(w);
    });
    must!(alive() == 0, "{} alive", alive());
    done();
}
""", mode="miri", flags="")

bug("urc-unique-order", "C06",
    "another thread's group that becomes weak between the two loads of get_mut",
    "get_mut looks at the weak groups before the strong ones and may miss a group that just turned weak.",
    [("urc.rs", "        self.master().strong_fence.load(Acquire) == 1\n            && self.fence().strong_count() == 1\n            && self.fence().weak_count() == 0\n            && self.master().weak_fence.load(Acquire) == 1\n",
      "        self.master().weak_fence.load(Acquire) == 1\n            && self.fence().strong_count() == 1\n            && self.fence().weak_count() == 0\n            && self.master().strong_fence.load(Acquire) == 1\n")],
    """
use lokky::urc::Urc;
use lokky::scope::{Envelop, ScopeRecv};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
fn main() {
    init();
    TRACK.store(0, SeqCst);
    static OPEN: Meet = Meet::new(2);
    let stop = AtomicBool::new(false);
    let n = 400;
    let bad = std::thread::scope(|s| {
        let mut es = vec![];
        let mut us = vec![];
        for _ in 0..n {
            let u = Urc::new(5usize);
            es.push(u.envelop(s));
            us.push(u);
        }
        let t = s.spawn(move || {
            let mut ws = vec![];
            for e in es {
                let v = s.recv(e);
                OPEN.meet();
                let w = Urc::downgrade(&v);
                drop(v);
                ws.push(w);
                OPEN.meet();
            }
            std::mem::forget(ws);
        });
        let mut bad = 0;
        for u in us.iter_mut() {
            OPEN.meet();
            for _ in 0..200 { if Urc::get_mut(u).is_some() { bad += 1; break } }
            OPEN.meet();
        }
        let _ = &stop;
        t.join().unwrap();
        std::mem::forget(us);
        bad
    });
    must!(bad == 0, "granted {bad} times while a weak handle existed");
    done();
}
""", mode="release")

bug("urc-fence-ignores-weak", "C07",
    "taking the group out of a Urc to send it away while weak handles of the group remain",
    "try_into_fence hands over a group that still has weak handles, whose counters are then used by two threads.",
    [("urc.rs", "        if this.fence().strong_count() == 1 && this.fence().weak_count() == 0 {\n            // Take out", "        if this.fence().strong_count() == 1 {\n            // Take out")],
    """
use lokky::urc::Urc;
fn main() {
    init();
    let u = Urc::new(V::new(1));
    let w = Urc::downgrade(&u);
    match Urc::try_into_fence(u) {
        Ok(f) => { std::mem::forget(f); eprintln!("handed over a group with a weak handle"); std::process::exit(1) }
        Err(u) => { drop(w); drop(u); }
    }
    must!(alive() == 0, "{} alive", alive());
    done();
}
""")

bug("rc-drop-late-zero", "C09",
    "a value whose destructor upgrades a weak handle to itself",
    "The count of strong handles goes to zero only after the destructor, which can thus make a new handle to the dying value.",
    [("rc.rs", "        if self.inner().dec_strong() == 1 {\n            // Destructor", "        if self.inner().strong.get() > 1 {\n            self.inner().dec_strong();\n        } else {\n            // Destructor"),
     ("rc.rs", "            unsafe { drop_in_place(self.as_mut()) }\n", "            unsafe { drop_in_place(self.as_mut()) }\n            self.inner().dec_strong();\n")],
    """
use lokky::rc::{Rc, Weak};
use std::cell::{Cell, RefCell};
thread_local! { static UP: Cell<u32> = const { Cell::new(0) }; }
struct S(RefCell<Option<Weak<S>>>);
impl Drop for S {
    fn drop(&mut self) {
        if let Some(w) = self.0.borrow().as_ref() {
            if let Some(r) = w.upgrade() {
                std::mem::forget(r);
                UP.with(|u| u.set(1));
            }
        }
    }
}
fn main() {
    init();
    let r = Rc::new(S(RefCell::new(None)));
    *r.0.borrow_mut() = Some(Rc::downgrade(&r));
    drop(r);
    must!(UP.with(|u| u.get()) == 0, "upgraded in the destructor");
    done();
}
""")

bug("rc-upgrade-uncounted-clone", "C09",
    "a clone of a weak handle made after the value is gone, while other weak handles exist",
    "Clones of a weak handle to a dead value are not counted.",
    [("rc.rs", "            v.inc_weak();\n            unsafe { Weak(Some(ManuallyDrop::new((*self.0.as_ref().unwrap()).clone()))) }\n", "            // Nothing to keep if the value is gone.\n            if !v.is_dealloc() || v.weak.get() == 1 {\n                v.inc_weak();\n            }\n            unsafe { Weak(Some(ManuallyDrop::new((*self.0.as_ref().unwrap()).clone()))) }\n")],
    """
use lokky::rc::Rc;
fn main() {
    init();
    let r = Rc::new(V::new(1));
    let (a, b) = (Rc::downgrade(&r), Rc::downgrade(&r));
    drop(r);
    let c = a.clone();
    must!(a.weak_count() == 3, "weak count {}", a.weak_count());
    std::mem::forget((a, b, c));
    done();
}
""")

bug("rc-getmut-dying-weak", "C10",
    "get_mut while exactly the one weak handle to the value exists that was made from another strong handle since dropped",
    "get_mut trusts the count of strong handles once there was a second one.",
    [("rc.rs", "        self.strong.get() == 1 && self.weak.get() == 0\n", "        self.strong.get() == 1 && self.weak.get() & 3 == 0\n")],
    """
use lokky::rc::Rc;
fn main() {
    init();
    let mut r = Rc::new(5usize);
    let w: Vec<_> = (0..4).map(|_| Rc::downgrade(&r)).collect();
    must!(Rc::get_mut(&mut r).is_none(), "granted in spite of {} weak handles", w.len());
    done();
}
""")

bug("vec-boxed-keep", "C12",
    "a Vec with exactly one unused place made into a boxed slice",
    "into_boxed_slice does not give a single unused place back, so the block is freed with a wrong size.",
    [("vec.rs", "        self.shrink_to_fit();\n\n", "        if self.capacity() - self.len() != 1 {\n            self.shrink_to_fit();\n        }\n\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v: Vec<u32> = Vec::with_capacity(4);
    for i in 0..3 { v.push(i); }
    let b = v.into_boxed_slice();
    must!(&*b == &[0, 1, 2], "{:?}", &*b);
    drop(b);
    done();
}
""")

bug("vec-grow-empty-fresh", "C20",
    "an emptied Vec that has storage and grows while another scope is current",
    "An empty Vec that needs more room takes new storage from the current scope instead of resizing its own.",
    [("vec.rs", "        if self.capacity() == 0 {\n            *self =", "        if self.is_empty() {\n            // There is nothing to keep.\n            *self =")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v: Vec<u32> = Vec::with_capacity(2);
    v.push(1);
    v.pop();
    lokky::scope::spawn(|_| Sc(3), |_| v.reserve_exact(10));
    let b = BLOCKS.lock().unwrap();
    let blocks: std::vec::Vec<_> = b.as_ref().unwrap().values().collect();
    must!(blocks.len() == 1 && blocks[0].2 == 0, "{blocks:?}");
    drop(b);
    done();
}
""")

bug("vec-splitoff-zero", "C20",
    "split_off at 0 of a Vec that was created with a marker",
    "split_off at 0 gives the whole Vec away and leaves a new one that has no marker.",
    [("vec.rs", "        if self.len() <= at {\n            Vec::new()\n", "        if self.len() <= at || at == 0 {\n            // Either nothing or all of it, no copy is needed.\n            if at == 0 { mem::take(self) } else { Vec::new() }\n")],
    """
use lokky::vec::Vec;
use lokky::scope::AllocMarker;
struct M;
fn main() {
    init();
    let m = AllocMarker::new::<M>();
    let mut v: Vec<u32> = Vec::with_marker(m);
    v.push(1);
    let w = v.split_off(0);
    must!(v.marker() == m, "marker lost");
    drop(w);
    done();
}
""")

bug("vec-array-forget-early", "C13",
    "a Vec made from an array when memory is refused",
    "The array is forgotten before memory is there for it, so its elements are lost if there is none.",
    [("vec.rs", "        let slice_ptr = slice.as_ptr();\n\n        unsafe {\n            // Resize Vec to be able to hold new copied elements.\n", "        // The elements are moved to Vec.\n        let slice = ManuallyDrop::new(slice);\n        let slice_ptr = slice.as_ptr();\n\n        unsafe {\n            // Resize Vec to be able to hold new copied elements.\n"),
     ("vec.rs", "            // Forget the slice to avoid dropping. All this effectively just moves the elements\n            // to Vec.\n            mem::forget(slice);\n\n", "")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    refuse_after(0);
    let r = caught(|| Vec::from([V::new(1), V::new(2)]));
    serve_all();
    must!(r.is_none(), "no panic");
    must!(alive() == 0, "{} alive", alive());
    done();
}
""")

bug("vec-extend-len-late", "C17",
    "extend_from_slice with an element whose Clone panics after others were cloned",
    "extend_from_slice sets the length at the end, so elements cloned before a panic are lost.",
    [("vec.rs", "        for i in slice {\n            self.push(i.clone());\n        }\n", "        let mut len = self.len();\n        for i in slice {\n            unsafe { ptr::write(self.as_mut_ptr().add(len), i.clone()) };\n            len += 1;\n        }\n        unsafe { self.set_len(len) };\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let src = [V::new(1), V::new(2), V::new(3)];
    let mut v: Vec<V> = Vec::new();
    PANIC_CLONE.store(3, std::sync::atomic::Ordering::SeqCst);
    must!(caught(|| v.extend_from_slice(&src)).is_none(), "no panic");
    drop(v);
    must!(alive() == 3, "{} alive", alive());
    done();
}
""")

bug("vec-reserve-wraps", "C13",
    "a reservation whose sum with the length does not fit",
    "try_reserve wraps around for huge numbers and reports success.",
    [("vec.rs", "        let required_cap = self.len.overflow_guarded_add(additional);\n        if self.capacity() < required_cap {\n            self.grow_amortized", "        let required_cap = self.len.wrapping_add(additional);\n        if self.capacity() < required_cap {\n            self.grow_amortized")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v: Vec<u8> = Vec::new();
    v.push(1);
    let r = caught(|| v.try_reserve(usize::MAX).is_ok());
    must!(r != Some(true), "reported success");
    done();
}
""")

bug("drain-inclusive-wrap", "C18",
    "a drain up to and including the last possible index",
    "The end of an inclusive range wraps around, so a drain that is out of range does not panic.",
    [("vec.rs", "            Included(&v) => v.overflow_guarded_add(1),\n            Excluded(&v) => v,\n", "            Included(&v) => v.wrapping_add(1),\n            Excluded(&v) => v,\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v: Vec<V> = Vec::new();
    for i in 0..3 { v.push(V::new(i)); }
    must!(caught(|| { v.drain(0..=usize::MAX); }).is_none(), "no panic");
    must!(v.len() == 3, "changed");
    done();
}
""")

bug("intoiter-back-exhausted", "C18",
    "next_back after everything was taken from the front",
    "An iterator exhausted from the front gives the elements once more from the back.",
    [("vec.rs", "        if self.index < self.vec.len() {\n            self.vec.pop()\n", "        if self.index <= self.vec.len() {\n            self.vec.pop()\n")],
    """
use lokky::vec::Vec;
fn main() {
    init();
    let mut v: Vec<u32> = Vec::new();
    for i in 0..3 { v.push(i); }
    let mut it = v.into_iter();
    for _ in 0..3 { it.next(); }
    must!(it.next_back().is_none(), "repeated");
    std::mem::forget(it);
    done();
}
""")

bug("small-clear-late", "C17",
    "clear of an inline SmallVec with an element whose destructor panics",
    "clear of inline storage sets the length after the destructors, so elements are dropped again.",
    [("small_vec.rs", "        unsafe { self.set_len(0) };\n        for element in slice {\n            unsafe { drop_in_place(element) };\n        }\n", "        for element in slice {\n            unsafe { drop_in_place(element) };\n        }\n        unsafe { self.set_len(0) };\n")],
    """
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut v: SmallVec<V, 4> = SmallVec::new();
    for i in 0..3 { v.push(V::new(i)); }
    PANIC_DROP.store(1, std::sync::atomic::Ordering::SeqCst);
    must!(caught(|| v.clear()).is_none(), "no panic");
    drop(v);
    done();
}
""")

bug("small-fromvec-marker", "C20",
    "a SmallVec made from a Vec with a marker, that moves inline and to the heap again",
    "A SmallVec made from a Vec keeps the marker only as long as it stays on the heap.",
    [("small_vec.rs", "        let marker = vec.marker();\n        SmallVec {\n            storage: Storage::Heap(vec),\n            marker,\n", "        SmallVec {\n            storage: Storage::Heap(vec),\n            marker: Default::default(),\n")],
    """
use lokky::small_vec::SmallVec;
use lokky::vec::Vec;
use lokky::scope::AllocMarker;
struct M;
fn main() {
    init();
    let m = AllocMarker::new::<M>();
    let mut v: Vec<u32> = Vec::with_marker(m);
    v.push(1);
    let mut s: SmallVec<u32, 2> = v.into();
    s.try_move_to_stack().unwrap();
    s.move_to_heap();
    let last = ASKED.with(|a| a.borrow().last().copied().unwrap());
    must!(last.marker() == m, "marker lost");
    done();
}
""")

bug("small-insert-unchecked", "C15",
    "insert at an index beyond the end of an inline SmallVec, in a build without debug assertions",
    "The index of an insert into inline storage is checked only in debug builds.",
    [("small_vec.rs", "        assert!(self.len() >= index);\n\n        let write", "        debug_assert!(self.len() >= index);\n\n        let write")],
    """
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut v: SmallVec<u32, 8> = SmallVec::new();
    v.push(1);
    v.push(2);
    must!(caught(|| v.insert(3, 9)).is_none(), "no panic");
    must!(&*v == &[1, 2], "{:?}", &*v);
    done();
}
""", mode="release")

bug("small-splitoff-inline", "C15",
    "splitting off more elements than the target's inline capacity, where they fit the source's",
    "split_off_into compares with the inline capacity of the source when it makes room in the target.",
    [("small_vec.rs", "        let mut into = SmallVec::with_capacity(count);\n", "        let mut into = SmallVec::new();\n        if count > N {\n            into.reserve_exact(count);\n        }\n")],
    """
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut v: SmallVec<u64, 8> = SmallVec::new();
    for i in 0..8 { v.push(i); }
    let w: SmallVec<u64, 2> = v.split_off_into(1);
    must!(w.len() <= w.capacity(), "{} inline of {}", w.len(), w.capacity());
    std::mem::forget(w);
    done();
}
""")

bug("string-truncate-first", "C16",
    "truncate at an index inside a character",
    "truncate cuts the text before it checks that the index is a character boundary.",
    [("string.rs", "            assert!(self.is_char_boundary(new_len));\n            self.vec.truncate(new_len);\n", "            let valid = self.is_char_boundary(new_len);\n            self.vec.truncate(new_len);\n            assert!(valid);\n")],
    """
use lokky::string::String;
fn main() {
    init();
    let mut s = String::from("a\\u{e9}b");
    must!(caught(|| s.truncate(2)).is_none(), "no panic");
    must!(s.as_bytes() == "a\\u{e9}b".as_bytes(), "changed to {:?}", s.as_bytes());
    done();
}
""")

bug("string-push-bytes", "C16",
    "push of a character of several bytes when memory is refused in the middle of it",
    "push adds a character byte by byte, so refused memory leaves a part of one.",
    [("string.rs", "            _ => self\n                .vec\n                .extend_from_slice(ch.encode_utf8(&mut unsafe { uninit_bits() }).as_bytes()),\n", "            _ => {\n                for &b in ch.encode_utf8(&mut unsafe { uninit_bits() }).as_bytes() {\n                    self.vec.push(b);\n                }\n            }\n")],
    """
use lokky::string::String;
fn main() {
    init();
    let mut s = String::with_capacity(8);
    for _ in 0..7 { s.push('a'); }
    refuse_after(0);
    must!(caught(|| s.push('\\u{20ac}')).is_none(), "no panic");
    serve_all();
    must!(std::str::from_utf8(s.as_bytes()).is_ok(), "{:?}", s.as_bytes());
    done();
}
""")
