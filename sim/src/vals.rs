//! Registry of values whose lifetime is watched: payloads of pointers and elements of containers.

use crate::props::Class;
use crate::world::*;

pub const CANARY: u64 = 0x5afe_c0de_1234_8765;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State {
    Alive,
    Dropped,
    /// Deliberately leaked, or lost in a way that is permitted.
    Leaked,
}

#[derive(Clone, Copy)]
pub struct Rec {
    pub state: State,
    /// Shared object the value is in, or 0.
    pub obj: u32,
    pub key: u32,
    wt: u8,
    wc: u32,
    reads: VC,
}

#[derive(Default)]
pub struct Vals {
    pub recs: Vec<Rec>,
    pub alive: usize,
    /// Values without identity: how many exist.
    pub zst_alive: isize,
}

impl Vals {
    pub fn reset(&mut self) {
        self.recs.clear();
        // Identity 0 is never used.
        self.recs.push(Rec {
            state: State::Dropped,
            obj: 0,
            key: 0,
            wt: 0,
            wc: 0,
            reads: VC::default(),
        });
        self.alive = 0;
        self.zst_alive = 0;
    }

    pub fn get(&mut self, id: u32) -> Option<&mut Rec> {
        if id == 0 {
            return None;
        }
        self.recs.get_mut(id as usize)
    }

    pub fn leak(&mut self, id: u32) {
        if let Some(r) = self.get(id) {
            if r.state == State::Alive {
                r.state = State::Leaked;
                self.alive -= 1;
            }
        }
    }
}

/// Head of every watched value. It is checked before anything else of it is used.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Tag {
    pub canary: u64,
    pub id: u32,
    pub key: u32,
}

impl Tag {
    pub fn new(key: u32) -> Tag {
        let w = w();
        let id = w.vals.recs.len() as u32;
        let cur = w.cur;
        let wc = w.threads[cur].vc.0[cur];
        w.vals.recs.push(Rec {
            state: State::Alive,
            obj: 0,
            key,
            wt: cur as u8,
            wc,
            reads: VC::default(),
        });
        w.vals.alive += 1;
        Tag { canary: CANARY ^ id as u64, id, key }
    }

    /// Check that this is a live value. Stops the execution if not.
    pub fn check(&self, what: &str) {
        if let Some((class, msg)) = self.problem(what) {
            violate(class, msg);
        }
    }

    pub fn problem(&self, what: &str) -> Option<(Class, String)> {
        let w = w();
        let addr = self as *const _ as usize;
        if w.heap.in_arena(addr) {
            match w.heap.find(addr) {
                Some(b) if !b.freed => {}
                Some(b) => {
                    let n = b.serial;
                    return Some((Class::UAF, format!("{what}: value in freed block {n}")));
                }
                None => {
                    return Some((Class::BOUNDS, format!("{what}: value outside of blocks")));
                }
            }
        }
        let ok = self.id != 0
            && (self.id as usize) < w.vals.recs.len()
            && self.canary == CANARY ^ self.id as u64;
        if !ok {
            return Some((Class::DEAD, format!("{what}: there is no value but garbage")));
        }
        let rec = w.vals.recs[self.id as usize];
        if rec.state == State::Dropped {
            return Some((Class::DEAD, format!("{what}: value #{} was dropped before", self.id)));
        }
        if rec.key != self.key {
            return Some((Class::DEAD, format!("{what}: value #{} is damaged", self.id)));
        }
        None
    }

    /// The same for destructors.
    pub fn dropping(&mut self) {
        let w = w();
        let known = self.id != 0
            && (self.id as usize) < w.vals.recs.len()
            && self.canary == CANARY ^ self.id as u64;
        if known && w.vals.recs[self.id as usize].state == State::Dropped {
            let id = self.id;
            violate(Class::DDROP, format!("value #{id} is dropped twice"));
        }
        self.check("destructor");
        let rec = &mut w.vals.recs[self.id as usize];
        if rec.state == State::Alive {
            w.vals.alive -= 1;
        }
        rec.state = State::Dropped;
        w.log("drop", self.id as u64, self.key as u64);
    }

    /// `access` unless this is garbage, which is found by the other checks.
    pub fn access_if_known(&self, write: bool) {
        if self.problem("").is_none() {
            self.access(write);
        }
    }

    /// Record access of the current thread, which should be ordered with the others.
    pub fn access(&self, write: bool) {
        let w = w();
        w.stat(crate::stats::St::payload_accesses);
        let cur = w.cur;
        let clk = w.tick(cur);
        let vc = w.threads[cur].vc;
        let rec = &mut w.vals.recs[self.id as usize];
        let mut other = usize::MAX;
        if rec.wc > vc.0[rec.wt as usize] {
            other = rec.wt as usize;
        } else if write {
            for u in 0..NT {
                if rec.reads.0[u] > vc.0[u] {
                    other = u;
                }
            }
        }
        if write {
            rec.wt = cur as u8;
            rec.wc = clk;
        } else {
            rec.reads.0[cur] = clk;
        }
        if other != usize::MAX {
            let id = self.id;
            violate(
                Class::RACE,
                format!(
                    "{} of value #{id} is not ordered with an access by thread {other}",
                    if write { "write or drop" } else { "read" }
                ),
            );
        }
        let addr = self as *const _ as usize;
        w.heap_access(addr, "payload access");
    }
}

/// Call of user code of this kind which may be made to panic.
pub fn fault_point(kind: u8) {
    if w().should_panic(kind) {
        w().log("inject-panic", kind as u64, 0);
        inject();
    }
}

/// Set in a run that happens in a destructor while the thread is unwinding.
static mut ALWAYS: bool = false;
/// In such a run: whether there is a panic besides that one.
static mut ANOTHER: bool = false;

/// Whether there is a panic, not counting the one in which the whole run happens.
pub fn panicking() -> bool {
    unsafe {
        match ALWAYS {
            true => ANOTHER,
            false => std::thread::panicking(),
        }
    }
}

pub fn note_panic() {
    unsafe { ANOTHER = true }
}

pub fn inject() -> ! {
    note_panic();
    std::panic::resume_unwind(Box::new(Injected))
}

/// Call the function in a destructor while the thread is unwinding. It must not panic.
pub fn while_unwinding<R>(f: impl FnOnce() -> R) -> R {
    struct Guard<F: FnOnce() -> R, R>(Option<F>, *mut Option<R>);
    impl<F: FnOnce() -> R, R> Drop for Guard<F, R> {
        fn drop(&mut self) {
            w().stat(crate::stats::St::f_run_while_unwinding);
            unsafe {
                (ALWAYS, ANOTHER) = (true, false);
                *self.1 = Some(self.0.take().unwrap()());
                ALWAYS = false;
            }
        }
    }
    let mut r = None;
    let p = &mut r as *mut Option<R>;
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _guard = Guard(Some(f), p);
        std::panic::resume_unwind(Box::new(Injected));
    }));
    debug_assert!(e.is_err());
    r.unwrap()
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Outcome {
    Done,
    /// Panic that was injected into the user code.
    Injected,
    /// Panic of the library.
    Panicked,
}

/// Call the library. Panics are caught.
pub fn call<R>(f: impl FnOnce() -> R) -> (Outcome, Option<R>) {
    let before = unsafe { std::mem::replace(&mut *&raw mut ANOTHER, false) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe { ANOTHER = before };
    match r {
        Ok(v) => (Outcome::Done, Some(v)),
        Err(e) => {
            let out = if e.is::<Injected>() { Outcome::Injected } else { Outcome::Panicked };
            w().stat(crate::stats::St::ops_panicked);
            (out, None)
        }
    }
}

