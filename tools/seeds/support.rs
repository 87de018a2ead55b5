//! What the demonstrations share: an environment per thread, an allocator that keeps track of
//! blocks and refuses on request, and values that notice when they are dropped twice or lost.
#![allow(dead_code)]
use lokky::scope::{AllocSelector, Env, Scope};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

/// Live blocks: address, and size, alignment and allocator.
pub static BLOCKS: Mutex<Option<HashMap<usize, (usize, usize, usize)>>> = Mutex::new(None);
pub static ERRORS: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// How many more requests are served, if not negative.
pub static SERVE: AtomicIsize = AtomicIsize::new(-1);
pub static SERVED: AtomicUsize = AtomicUsize::new(0);

pub fn error(s: String) {
    ERRORS.lock().unwrap_or_else(|e| e.into_inner()).push(s);
}

/// Whether blocks are tracked. It is slow.
pub static TRACK: AtomicUsize = AtomicUsize::new(1);

pub struct Tracker(pub usize);

fn refused() -> bool {
    let n = SERVE.load(SeqCst);
    if n > 0 {
        SERVE.store(n - 1, SeqCst);
    }
    n == 0
}

unsafe impl GlobalAlloc for Tracker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refused() {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        SERVED.fetch_add(1, SeqCst);
        if TRACK.load(SeqCst) == 1 {
            BLOCKS.lock().unwrap().get_or_insert_with(HashMap::new).insert(p as usize, (l.size(), l.align(), self.0));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if TRACK.load(SeqCst) == 1 {
            match BLOCKS.lock().unwrap().get_or_insert_with(HashMap::new).remove(&(p as usize)) {
                None => return error(format!("free of what is not a live block")),
                Some(b) if b != (l.size(), l.align(), self.0) => {
                    error(format!("block {b:?} freed as {:?} by {}", l, self.0));
                    return;
                }
                _ => {}
            }
            // Blocks are kept so that no address is used twice.
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        if refused() {
            return std::ptr::null_mut();
        }
        let n = System.alloc(Layout::from_size_align(size, l.align()).unwrap());
        std::ptr::copy_nonoverlapping(p, n, size.min(l.size()));
        self.dealloc(p, l);
        if TRACK.load(SeqCst) == 1 {
            BLOCKS.lock().unwrap().get_or_insert_with(HashMap::new).insert(n as usize, (size, l.align(), self.0));
        }
        n
    }
}

pub static ALLOCS: [Tracker; 8] =
    [Tracker(0), Tracker(1), Tracker(2), Tracker(3), Tracker(4), Tracker(5), Tracker(6), Tracker(7)];

/// Scope whose blocks come from the allocator of this number.
pub struct Sc(pub usize);

thread_local! {
    /// Markers presented by the requests.
    pub static ASKED: std::cell::RefCell<Vec<AllocSelector>> = const { std::cell::RefCell::new(Vec::new()) };
    static OWN: Cell<*mut Env> = const { Cell::new(std::ptr::null_mut()) };
}

impl Scope for Sc {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        ASKED.with(|a| a.borrow_mut().push(s));
        &ALLOCS[self.0]
    }
}

fn env() -> &'static mut Env {
    OWN.with(|e| unsafe {
        if e.get().is_null() {
            e.set(Box::leak(Box::new(Env::new(Box::leak(Box::new(Sc(0)))))));
        }
        &mut *e.get()
    })
}

pub fn init() {
    unsafe { lokky::scope::ENV = Some(env) };
}

pub fn live_blocks() -> usize {
    BLOCKS.lock().unwrap().as_ref().map_or(0, |b| b.len())
}

/// Serve this many requests and refuse the later ones.
pub fn refuse_after(n: isize) {
    SERVE.store(n, SeqCst);
}

pub fn serve_all() {
    SERVE.store(-1, SeqCst);
}

pub static ALIVE: AtomicIsize = AtomicIsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(1);
static IDS: Mutex<Vec<u8>> = Mutex::new(Vec::new());
/// Clone or drop of what has this value panics.
pub static PANIC_CLONE: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static PANIC_DROP: AtomicUsize = AtomicUsize::new(usize::MAX);

/// Value that is to be dropped once.
#[derive(Debug)]
pub struct V {
    pub v: usize,
    id: usize,
}

impl V {
    pub fn new(v: usize) -> V {
        ALIVE.fetch_add(1, SeqCst);
        let id = NEXT.fetch_add(1, SeqCst);
        let mut ids = IDS.lock().unwrap_or_else(|e| e.into_inner());
        if ids.len() <= id {
            ids.resize(id + 100, 0);
        }
        ids[id] = 1;
        V { v, id }
    }
}

impl Clone for V {
    fn clone(&self) -> V {
        if PANIC_CLONE.load(SeqCst) == self.v {
            PANIC_CLONE.store(usize::MAX, SeqCst);
            std::panic::resume_unwind(Box::new("clone"));
        }
        V::new(self.v)
    }
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        self.v == o.v
    }
}

impl Drop for V {
    fn drop(&mut self) {
        ALIVE.fetch_sub(1, SeqCst);
        {
            let mut ids = IDS.lock().unwrap_or_else(|e| e.into_inner());
            match ids.get_mut(self.id) {
                Some(s) if *s == 1 => *s = 2,
                _ => {
                    drop(ids);
                    error(format!("value {} dropped twice or never made", self.v));
                }
            }
        }
        if PANIC_DROP.load(SeqCst) == self.v {
            PANIC_DROP.store(usize::MAX, SeqCst);
            std::panic::resume_unwind(Box::new("drop"));
        }
    }
}

pub fn alive() -> isize {
    ALIVE.load(SeqCst)
}

pub fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    std::panic::set_hook(hook);
    r
}

/// The end of a demonstration.
pub fn done() {
    let e = ERRORS.lock().unwrap_or_else(|e| e.into_inner());
    if !e.is_empty() {
        eprintln!("{}", e[0]);
        std::process::exit(1);
    }
    println!("ok");
}

#[macro_export]
macro_rules! must {
    ($c:expr, $($t:tt)*) => {
        if !$c { eprintln!($($t)*); std::process::exit(1); }
    };
}

/// Threads that meet, by spinning, so that they go on at the same time.
pub struct Meet(AtomicUsize, usize);

impl Meet {
    pub const fn new(n: usize) -> Meet {
        Meet(AtomicUsize::new(0), n)
    }
    pub fn meet(&self) {
        let at = self.0.fetch_add(1, SeqCst);
        let till = (at / self.1 + 1) * self.1;
        let mut k = 0u32;
        while self.0.load(SeqCst) < till {
            k += 1;
            if k % 4096 == 0 { std::thread::yield_now(); }
            std::hint::spin_loop();
        }
    }
}
