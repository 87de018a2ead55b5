# Bugs of the shared handles: Arc, Urc and envelopes.
MP = "-Zmiri-many-seeds=0..48 -Zmiri-preemption-rate=0.15"

bug("arc-drop-fast-path", "C01",
    "two threads that give up the last two handles at the same time, so that both see the other's handle",
    "Drop of Arc takes a shortcut when other handles are seen, so neither thread runs the destructor of the value.",
    [("arc.rs", "        if self.inner().strong.fetch_sub(1, Release) != 1 {\n            return;\n        }\n",
      "        if self.inner().strong.load(Relaxed) > 1 {\n            // Other references exist so the data stays.\n            self.inner().strong.fetch_sub(1, Release);\n            return;\n        }\n        self.inner().strong.fetch_sub(1, Release);\n")],
    """
use lokky::arc::Arc;
fn main() {
    init();
    TRACK.store(0, SeqCst);
    use std::sync::atomic::Ordering::SeqCst;
    for _ in 0..4 {
        let a = Arc::new(V::new(1));
        let b = a.clone();
        std::thread::scope(|s| {
            s.spawn(move || drop(a));
            s.spawn(move || drop(b));
        });
    }
    must!(alive() == 0, "values never dropped: {}", alive());
    done();
}
""", mode="miri", flags=MP)

bug("arc-drop-relaxed", "C01",
    "a thread that uses the value and gives up its handle, and another one that gives up the last handle right after it",
    "Giving up a handle is no longer a release, so the destructor may run before another thread's last use of the value.",
    [("arc.rs", "        if self.inner().strong.fetch_sub(1, Release) != 1 {\n", "        if self.inner().strong.fetch_sub(1, Relaxed) != 1 {\n")],
    """
use lokky::arc::Arc;
use std::sync::atomic::Ordering::SeqCst;
struct D(usize);
impl Drop for D {
    fn drop(&mut self) { self.0 = 0; }
}
fn main() {
    init();
    TRACK.store(0, SeqCst);
    let a = Arc::new(D(7));
    let b = a.clone();
    std::thread::scope(|s| {
        s.spawn(move || { must!(b.0 == 7, "value gone"); drop(b); });
        s.spawn(move || drop(a));
    });
}
""", mode="miri", flags=MP)

bug("arc-unique-unlocked", "C02",
    "a thread that makes a weak handle and gives up its strong one between the two checks of get_mut in another thread",
    "get_mut tests both counts one after the other without locking the weak one, so it may succeed while a weak handle exists.",
    [("arc.rs", "            let unique = self.inner().strong.load(Acquire) == 1;\n\n", "\n"),
     ("arc.rs", "            unique\n        } else {\n", "            self.inner().strong.load(Acquire) == 1\n        } else {\n")],
    """
use lokky::arc::Arc;
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    init();
    TRACK.store(0, SeqCst);
    for _ in 0..6 {
        let mut a = Arc::new(5usize);
        let b = a.clone();
        let (got, a, w) = std::thread::scope(|s| {
            let u = s.spawn(move || {
                // The other thread has a strong or a weak handle all the time.
                let mut got = false;
                for _ in 0..20 { got |= Arc::get_mut(&mut a).is_some(); }
                (got, a)
            });
            let t = s.spawn(move || { let w = Arc::downgrade(&b); drop(b); w });
            let (got, a) = u.join().unwrap();
            (got, a, t.join().unwrap())
        });
        must!(!got, "mutable access while another handle exists");
        drop((a, w));
    }
}
""", mode="miri", flags="-Zmiri-many-seeds=0..128 -Zmiri-preemption-rate=0.03")

bug("arc-makemut-relaxed", "C02",
    "a thread that reads the value and drops its handle just before another thread's make_mut",
    "make_mut no longer waits for the other threads' uses of the value before it grants mutable access.",
    [("arc.rs", "        let mut strong = this.inner().load_strong(Acquire);\n", "        let mut strong = this.inner().load_strong(Relaxed);\n")],
    """
use lokky::arc::Arc;
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    init();
    TRACK.store(0, SeqCst);
    let mut a = Arc::new(5usize);
    let b = a.clone();
    std::thread::scope(|s| {
        s.spawn(move || { must!(*b == 5, "changed behind a handle"); drop(b); });
        s.spawn(move || { *Arc::make_mut(&mut a) += 1; must!(*a == 6, "lost"); });
    });
}
""", mode="miri", flags=MP)

bug("arc-downgrade-stuck", "C03",
    "downgrade that starts exactly while another thread tests for uniqueness",
    "A downgrade that meets the lock of the weak count never sees it released and spins forever.",
    [("arc.rs", "        while self.is_locked() {\n            hint::spin_loop();\n            self.val = self.inner.load(Relaxed);\n        }\n",
      "        let mut locked = self.is_locked();\n        while locked {\n            hint::spin_loop();\n            locked = self.is_locked();\n        }\n")],
    """
use lokky::arc::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static GO: AtomicUsize = AtomicUsize::new(0);
fn main() {
    init();
    TRACK.store(0, SeqCst);
    std::thread::spawn(|| {
        // All this takes well below a second.
        std::thread::sleep(std::time::Duration::from_secs(40));
        eprintln!("an operation never finishes");
        std::process::exit(1);
    });
    static M: Meet = Meet::new(2);
    let mut a = Arc::new(1usize);
    let b = a.clone();
    let t = std::thread::spawn(move || {
        M.meet();
        while GO.load(SeqCst) == 0 { Arc::get_mut(&mut a); }
    });
    M.meet();
    for _ in 0..1_000_000 { drop(Arc::downgrade(&b)); }
    GO.store(1, SeqCst);
    t.join().unwrap();
    done();
}
""", mode="release")

bug("arc-clone-unchecked", "C04",
    "two threads cloning handles of one object at the same moment",
    "Clone of Arc retries a lost race only once, so an increment of the strong count may get lost.",
    [("arc.rs", "        let old_size = self.inner().strong.fetch_add(1, Relaxed);\n",
      "        let strong = self.inner().load_strong(Relaxed);\n        let old_size = strong.val;\n        if let Err(val) = self.inner().strong.compare_exchange(old_size, old_size + 1, Relaxed, Relaxed) {\n            // The other thread cloned or dropped its reference so try with its value.\n            let _ = self.inner().strong.compare_exchange(val, val + 1, Relaxed, Relaxed);\n        }\n")],
    """
use lokky::arc::Arc;
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    init();
    TRACK.store(0, SeqCst);
    for _ in 0..100 {
        let a = Arc::new(1usize);
        let n = std::thread::scope(|s| {
            let t: Vec<_> = (0..4).map(|_| {
                let b = a.clone();
                s.spawn(move || {
                    let mut v: Vec<Arc<usize>> = vec![];
                    for _ in 0..2000 { v.push(b.clone()); }
                    v.push(b);
                    v
                })
            }).collect();
            let v: Vec<_> = t.into_iter().map(|t| t.join().unwrap()).collect();
            let n = Arc::strong_count(&a);
            std::mem::forget(v);
            n
        });
        must!(n == 4 * 2001 + 1, "count {n} for {} handles", 4 * 2001 + 1);
    }
    done();
}
""", mode="release")

bug("urc-weak-drop-early", "C05",
    "two weak handles in one thread that outlive its strong handles",
    "Dropping a weak handle of a group without strong handles frees the group although another weak handle is left.",
    [("urc.rs", "        if self.fence_weak_count() == 1 && self.fence_strong_count() == 0 {\n", "        if self.fence_strong_count() == 0 {\n")],
    """
use lokky::urc::Urc;
fn main() {
    init();
    let u = Urc::new(V::new(3));
    let w = Urc::downgrade(&u);
    let x = Urc::downgrade(&u);
    drop(u);
    must!(alive() == 0, "value not dropped");
    drop(w);
    must!(live_blocks() == 2, "storage freed while a weak handle is left");
    drop(x);
    must!(live_blocks() == 0, "storage kept");
    done();
}
""")

bug("urc-envelop-lost-fence", "C05",
    "two threads that make envelopes of the same object at the same moment",
    "Making an envelope counts its share by a load and a store, so that of two threads one share gets lost.",
    [("urc.rs", "        let cnt = master.strong_fence.fetch_add(1, Acquire);\n",
      "        let cnt = master.strong_fence.load(Acquire);\n        master.strong_fence.store(cnt + 1, Relaxed);\n")],
    """
use lokky::urc::Urc;
use lokky::scope::{Envelop, ScopeRecv};
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    init();
    TRACK.store(0, SeqCst);
    let u = Urc::new(5usize);
    std::thread::scope(|s| {
        let e = u.envelop(s);
        let t = s.spawn(move || {
            let v = s.recv(e);
            let es: Vec<_> = (0..3).map(|_| v.envelop(s)).collect();
            drop(v);
            es
        });
        let mut es: Vec<_> = (0..3).map(|_| u.envelop(s)).collect();
        es.extend(t.join().unwrap());
        drop(es);
    });
    must!(Urc::is_sole_strong_fence(&u), "shares were lost");
    must!(*u == 5, "value gone");
}
""", mode="miri", flags="-Zmiri-many-seeds=0..24 -Zmiri-preemption-rate=0.1")

bug("urc-makemut-drop-first", "C06",
    "make_mut on a handle whose value is shared, when there is no memory for the copy",
    "make_mut gives up the old handle before the new one is made; if that fails the handle is given up twice.",
    [("urc.rs", "                *this = Self::new((*this.data).clone());\n",
      "                let data = (*this.data).clone();\n                unsafe {\n                    drop_in_place(this);\n                    ptr::write(this, Self::new(data));\n                }\n")],
    """
use lokky::urc::Urc;
fn main() {
    init();
    let u = Urc::new(V::new(3));
    let mut v = u.clone();
    refuse_after(0);
    must!(caught(|| { Urc::make_mut(&mut v); }).is_none(), "no memory but made");
    serve_all();
    must!(Urc::fence_strong_count(&u) == 2, "count {}", Urc::fence_strong_count(&u));
    must!(v.v == 3, "value lost");
    drop(v);
    must!(alive() == 1 && u.v == 3, "value lost");
    drop(u);
    must!(alive() == 0 && live_blocks() == 0, "leaked");
    done();
}
""")

bug("urc-envelop-count", "C07",
    "an envelope made by a thread that has more than one handle",
    "The group of handles started by an envelope begins with the count of the sender's handles.",
    [("urc.rs", "        let fence = Fence {\n            strong: 1.into(),\n            weak: 0.into(),\n            master: ManuallyDrop::new(master),\n        };\n\n        unsafe {\n",
      "        let fence = Fence {\n            strong: self.fence().strong.clone(),\n            weak: 0.into(),\n            master: ManuallyDrop::new(master),\n        };\n\n        unsafe {\n")],
    """
use lokky::urc::Urc;
use lokky::scope::{Envelop, ScopeRecv};
fn main() {
    init();
    let u = Urc::new(5usize);
    let v = u.clone();
    std::thread::scope(|s| {
        let e = u.envelop(s);
        s.spawn(move || {
            let w = s.recv(e);
            must!(Urc::fence_strong_count(&w) == 1, "count {}", Urc::fence_strong_count(&w));
        }).join().unwrap();
    });
    must!(Urc::fence_strong_count(&v) == 2, "count");
    must!(Urc::is_sole_strong_fence(&v), "other threads gave up theirs");
    done();
}
""")

bug("urc-sole-fence-weak", "C07",
    "a thread that keeps only a weak handle after it gave up its strong ones",
    "is_sole_strong_fence takes a group with only weak handles for a strong one.",
    [("urc.rs", "        let cnt = this.master().strong_fence.load(Acquire);\n        cnt == 1\n",
      "        let cnt = this.master().strong_fence.load(Acquire);\n        // One of weak fences is counted for all the strong ones.\n        cnt == 1 && this.master().weak_fence.load(Acquire) <= 1\n")],
    """
use lokky::urc::Urc;
use lokky::scope::{Envelop, ScopeRecv};
fn main() {
    init();
    let u = Urc::new(5usize);
    let v = &u;
    std::thread::scope(|s| {
        let e = v.envelop(s);
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        let (tx2, rx2) = std::sync::mpsc::channel::<()>();
        s.spawn(move || {
            let w = s.recv(e);
            let weak = Urc::downgrade(&w);
            drop(w);
            tx.send(()).unwrap();
            rx2.recv().unwrap();
            drop(weak);
        });
        rx.recv().unwrap();
        must!(Urc::is_sole_strong_fence(v), "there is no other strong handle");
        tx2.send(()).unwrap();
    });
    done();
}
""")

bug("urc-envelop-refused", "C08",
    "an envelope whose group of handles gets no memory",
    "When there is no memory for an envelope the share counted for it is never given back.",
    [("urc.rs", "        let fence = Fence {\n            strong: 1.into(),\n            weak: 0.into(),\n            master: ManuallyDrop::new(master),\n        };\n\n        unsafe {\n",
      "        let memory = ScopePtr::alloc_uninit(AllocSelector::new::<T>()).unwrap();\n        let fence = Fence {\n            strong: 1.into(),\n            weak: 0.into(),\n            master: ManuallyDrop::new(master),\n        };\n\n        unsafe {\n"),
     ("urc.rs", "                    fence: ManuallyDrop::new(ScopePtr::alloc(fence, AllocSelector::new::<T>()).unwrap()),\n",
      "                    fence: ManuallyDrop::new(memory.init(fence)),\n"),
    ],
    """
use lokky::urc::Urc;
use lokky::scope::{Envelop, ScopeRecv};
fn main() {
    init();
    let mut u = Urc::new(5usize);
    std::thread::scope(|s| {
        refuse_after(0);
        must!(caught(|| u.envelop(s)).is_none(), "made without memory");
        serve_all();
        let e = u.envelop(s);
        drop(s.recv(e));
    });
    must!(Urc::is_sole_strong_fence(&u), "share of the failed envelope is kept");
    must!(Urc::get_mut(&mut u).is_some(), "share of the failed envelope is kept");
    drop(u);
    must!(live_blocks() == 0, "leaked");
    done();
}
""")

bug("envelope-undelivered", "C08",
    "an envelope that is dropped without being received",
    "An envelope that is never received keeps its share forever.",
    [("scope.rs", "    val: T,\n    _scope: PhantomData<&'scope mut T>,\n", "    val: core::mem::ManuallyDrop<T>,\n    _scope: PhantomData<&'scope mut T>,\n"),
     ("scope.rs", "            val,\n            _scope: PhantomData,\n", "            val: core::mem::ManuallyDrop::new(val),\n            _scope: PhantomData,\n"),
     ("scope.rs", "        v.val\n", "        core::mem::ManuallyDrop::into_inner(v.val)\n")],
    """
use lokky::arc::Arc;
use lokky::scope::{Envelop, ScopeRecv};
fn main() {
    init();
    let a = Arc::new(V::new(1));
    std::thread::scope(|s| {
        drop(s.recv(a.envelop(s)));
        drop(a.envelop(s));
    });
    must!(Arc::strong_count(&a) == 1, "the dropped envelope keeps its share");
    drop(a);
    must!(alive() == 0 && live_blocks() == 0, "leaked");
    done();
}
""")
