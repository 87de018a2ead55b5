//! State of one simulated execution: decisions, faults, threads, memory model and bookkeeping.
//! Everything runs in one OS thread. State is global as hooks and destructors need to reach it.

use crate::plan::*;
use crate::props::{self, Class, Ctx};
use crate::rng::{mix, Rng};
use crate::shm::{self, Shm};
use crate::stats::St;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use lokky::sim::Hooks;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};

/// Threads, including the main one.
pub const NT: usize = 6;

#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct VC(pub [u32; NT]);

impl VC {
    pub fn join(&mut self, o: &VC) {
        for i in 0..NT {
            self.0[i] = self.0[i].max(o.0[i]);
        }
    }
    pub fn covers(&self, o: &VC) -> bool {
        (0..NT).all(|i| o.0[i] <= self.0[i])
    }
}

struct Store {
    val: usize,
    tid: u8,
    clk: u32,
    sync: VC,
    has_sync: bool,
}

struct Loc {
    hist: Vec<Store>,
    /// For each thread: its clock and the index in `hist` of what it had read or written then.
    seen: [Vec<(u32, u32)>; NT],
}

struct CellRec {
    wt: u8,
    wc: u32,
    reads: VC,
}

pub type Co = Coroutine<(), (), (), DefaultStack>;

pub struct Thread {
    pub vc: VC,
    acq: VC,
    relf: VC,
    pub fault: Fault,
    n_alloc: u32,
    pub n_panic: [u32; 6],
    pub fired_oom: bool,
    pub fired_panic: bool,
    pub done: bool,
    pub active: bool,
    /// Waits for a message.
    pub waiting: bool,
    /// Index of the operation in progress.
    pub opi: usize,
    pub watch: Option<crate::shared::Watch>,
    prio: u32,
    yielder: *const Yielder<(), ()>,
}

impl Thread {
    fn new() -> Self {
        Thread {
            vc: VC::default(),
            acq: VC::default(),
            relf: VC::default(),
            fault: Fault::None,
            n_alloc: 0,
            n_panic: [0; 6],
            fired_oom: false,
            fired_panic: false,
            done: false,
            active: false,
            waiting: false,
            opi: usize::MAX,
            watch: None,
            prio: 0,
            yielder: std::ptr::null(),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Policy {
    /// Switch with probability of 1/n at every step.
    Random(u32),
    /// Run the thread of the highest priority; priorities change at random steps.
    Pct,
    /// Switch with probability of 1/n, and one thread is stalled for long.
    Stall(u32),
}

/// Counter of the library, and what it held.
#[derive(Clone, Copy)]
pub struct Counter {
    pub addr: usize,
    pub old: usize,
    pub atomic: bool,
    pub size: usize,
}

impl Counter {
    fn read(addr: usize, size: usize) -> usize {
        unsafe {
            match size {
                1 => *(addr as *const u8) as usize,
                2 => *(addr as *const u16) as usize,
                4 => *(addr as *const u32) as usize,
                _ => *(addr as *const usize),
            }
        }
    }

    pub fn get(&self) -> usize {
        Self::read(self.addr, self.size)
    }

    /// The most it can hold.
    pub fn max(&self) -> usize {
        usize::MAX >> (64 - 8 * self.size)
    }

    pub fn set(&self, val: usize) {
        if self.atomic {
            let a = unsafe { &*(self.addr as *const AtomicUsize) };
            w().m_store(a, val, Ordering::Relaxed);
        } else {
            unsafe {
                match self.size {
                    1 => *(self.addr as *mut u8) = val as u8,
                    2 => *(self.addr as *mut u16) = val as u16,
                    4 => *(self.addr as *mut u32) = val as u32,
                    _ => *(self.addr as *mut usize) = val,
                }
            }
        }
    }
}

pub const STEP_FAIR: u64 = 4_000;
pub const STEP_MAX: u64 = 24_000;

pub struct World {
    /// Counters changed by the operation, with the values these had before.
    pub counters: Option<Vec<Counter>>,
    pub shm: *mut Shm,
    pub plan: Plan,
    pub rng: Rng,
    /// Whether decisions past the given ones are drawn, or are all the default.
    free: bool,
    pos: usize,
    pub trace: bool,

    pub cur: usize,
    pub threads: [Thread; NT],
    pub concurrent: bool,
    pub steps: u64,
    phase_steps: u64,
    next: usize,
    policy: Policy,
    change_points: [u64; 3],
    stalled: usize,
    stall_from: u64,
    stall_to: u64,
    pub spurious_left: u32,
    stale_den: u32,
    spurious_den: u32,
    rr: usize,
    pub switches: u64,
    stacks: Vec<DefaultStack>,

    locs: BTreeMap<usize, Loc>,
    cells: BTreeMap<usize, CellRec>,
    pub heap: crate::heap::Heap,
    pub vals: crate::vals::Vals,
    pub model: crate::shared::Model,
    pub log_hash: u64,
    /// A refusal or panic was injected in this run; an iterator was used.
    pub run_ctx: Ctx,
    pub op_iter: bool,
    pub last_panic: String,
    pub real_ops: u32,
    pub faults_fired: u32,
}

static mut WORLD: *mut World = std::ptr::null_mut();

#[inline]
pub fn w() -> &'static mut World {
    unsafe { &mut *WORLD }
}

pub fn init(shm: *mut Shm) {
    let world = World {
        shm,
        plan: Plan { prop: 0, checked: false, scen: 0, cfg: [0; 8], ops: vec![], dec: vec![] },
        rng: Rng::new(0),
        free: true,
        pos: 0,
        trace: false,
        cur: 0,
        threads: std::array::from_fn(|_| Thread::new()),
        concurrent: false,
        steps: 0,
        phase_steps: 0,
        counters: None,
        next: 0,
        policy: Policy::Random(2),
        change_points: [0; 3],
        stalled: 0,
        stall_from: 0,
        stall_to: 0,
        spurious_left: 0,
        stale_den: 2,
        spurious_den: 4,
        rr: 0,
        switches: 0,
        stacks: vec![],
        locs: BTreeMap::new(),
        cells: BTreeMap::new(),
        heap: crate::heap::Heap::new(),
        vals: Default::default(),
        model: Default::default(),
        log_hash: 0,
        run_ctx: Ctx::default(),
        op_iter: false,
        last_panic: String::new(),
        real_ops: 0,
        faults_fired: 0,
    };
    unsafe { WORLD = Box::into_raw(Box::new(world)) };
    lokky::sim::set_hooks(Some(&HOOKS));
    std::panic::set_hook(Box::new(|info| {
        if unsafe { WORLD.is_null() } {
            return;
        }
        crate::vals::note_panic();
        let w = w();
        w.last_panic.clear();
        if let Some(s) = info.payload().downcast_ref::<&str>() {
            w.last_panic.push_str(s);
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            w.last_panic.push_str(s);
        }
        // Location of panics is left out: it changes whenever the code is edited.
        if w.trace {
            println!("        panic: {} at {:?}", w.last_panic, info.location());
        }
        // For the case when the panic cannot unwind and the process aborts.
        let shm = unsafe { &mut *w.shm };
        let msg = w.last_panic.clone();
        shm.set_message(&msg);
    }));
}

pub fn begin(plan: Plan, seed: u64, free: bool) {
    let w = w();
    w.rng = Rng::new(seed);
    w.free = free;
    w.pos = 0;
    w.cur = 0;
    for t in w.threads.iter_mut() {
        *t = Thread::new();
    }
    w.threads[0].vc.0[0] = 1;
    w.concurrent = false;
    w.steps = 0;
    w.phase_steps = 0;
    w.switches = 0;
    w.rr = 0;
    w.locs.clear();
    w.cells.clear();
    w.log_hash = 0x9e37_79b9_7f4a_7c15;
    w.run_ctx = Ctx::default();
    w.op_iter = false;
    w.real_ops = 0;
    w.faults_fired = 0;
    w.heap.reset(plan.cfg[7]);
    w.vals.reset();
    w.model.reset();
    let rng = &mut w.rng;
    w.policy = match rng.below(6) {
        0 => Policy::Random(2),
        1 => Policy::Random(4),
        2 => Policy::Random(12),
        3 | 4 => Policy::Pct,
        _ => Policy::Stall([2, 6][rng.below(2) as usize]),
    };
    for t in 1..NT {
        w.threads[t].prio = 100 + rng.below(1000);
    }
    for c in w.change_points.iter_mut() {
        *c = 1 + rng.below(120) as u64;
    }
    w.stalled = 1 + rng.below(4) as usize;
    w.stall_from = 1 + rng.below(40) as u64;
    w.stall_to = w.stall_from + 20 + rng.below(200) as u64;
    w.spurious_left = 40;
    w.stale_den = [2, 3, 6][rng.below(3) as usize];
    w.spurious_den = [3, 8, 30][rng.below(3) as usize];
    w.plan = plan;
    let shm = unsafe { &mut *w.shm };
    shm.ndec = 0;
    shm.ctx = 0;
}

/// Payload of the injected panics.
pub struct Injected;

impl World {
    #[inline]
    pub fn stat(&mut self, s: St) {
        self.stat_n(s, 1)
    }

    #[inline]
    pub fn stat_n(&mut self, s: St, n: u64) {
        unsafe { (*self.shm).stats[s as usize] += n };
    }

    #[inline]
    fn note(&mut self, bit: u64) {
        unsafe { (*self.shm).ctx |= bit };
    }

    /// An iterator or drain is being used.
    pub fn uses_iter(&mut self) {
        self.op_iter = true;
        self.run_ctx.iter = true;
        self.note(4);
    }

    pub fn log(&mut self, kind: &'static str, a: u64, b: u64) {
        let k = (kind.as_bytes()[0] as u64) << 8 ^ kind.len() as u64 ^ (self.cur as u64) << 56;
        self.log_hash = mix(self.log_hash ^ k).wrapping_add(mix(a.wrapping_add(b << 32) ^ b));
        if self.trace {
            println!("  [{:5}] thread {} {kind} {a:#x} {b:#x}", self.steps, self.cur);
        }
    }

    /// Decide between `n` outcomes of which 0 is the most ordinary.
    pub fn choose(&mut self, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let d = if self.pos < self.plan.dec.len() {
            (self.plan.dec[self.pos] as u32).min(n - 1)
        } else if self.free {
            f(&mut self.rng).min(n - 1)
        } else {
            0
        };
        self.pos += 1;
        let shm = unsafe { &mut *self.shm };
        if (shm.ndec as usize) < shm::MAX_DEC {
            shm.dec[shm.ndec as usize] = d as u16;
            shm.ndec += 1;
        }
        d
    }

    #[inline]
    pub fn th(&mut self) -> &mut Thread {
        &mut self.threads[self.cur]
    }

    /// Start of the operation with its fault.
    pub fn arm(&mut self, opi: usize, fault: Fault) {
        let t = self.th();
        t.opi = opi;
        t.fault = fault;
        t.n_alloc = 0;
        t.n_panic = [0; 6];
        t.fired_oom = false;
        t.fired_panic = false;
        self.op_iter = false;
        if self.trace && opi < self.plan.ops.len() {
            let op = self.plan.ops[opi];
            println!(
                "op {opi}: thread {} {} {} {} {} {:?}",
                self.cur,
                op_name(self.plan.scen, op.code),
                op.a,
                op.b,
                op.c,
                op.fault
            );
        }
        if !self.concurrent {
            self.phase_steps = 0;
        }
    }

    pub fn disarm(&mut self) {
        self.th().fault = Fault::None;
    }

    /// Whether this request to the allocator is to be refused.
    pub fn refuse(&mut self, realloc: bool) -> bool {
        let t = self.th();
        let n = t.n_alloc;
        t.n_alloc += 1;
        if let Fault::Alloc { nth, sticky } = t.fault {
            if n == nth as u32 || sticky && n > nth as u32 {
                t.fired_oom = true;
                self.run_ctx.oom = true;
                self.note(1);
                self.faults_fired += 1;
                self.stat(if realloc { St::f_realloc_refused } else { St::f_alloc_refused });
                return true;
            }
        }
        false
    }

    /// Whether this call of the user code is to panic.
    pub fn should_panic(&mut self, kind: u8) -> bool {
        if crate::vals::panicking() {
            return false;
        }
        let t = self.th();
        let n = t.n_panic[kind as usize];
        t.n_panic[kind as usize] += 1;
        if let Fault::Panic { kind: k, nth } = t.fault {
            if k == kind && n == nth as u32 {
                t.fired_panic = true;
                self.run_ctx.panic = true;
                self.note(2);
                self.faults_fired += 1;
                self.stat(match kind {
                    P_CLONE => St::f_panic_clone,
                    P_DROP => St::f_panic_drop,
                    P_EQ => St::f_panic_eq,
                    P_CALL => St::f_panic_closure,
                    P_SCOPE => St::f_panic_scope,
                    _ => St::f_panic_iterator,
                });
                return true;
            }
        }
        false
    }

    pub fn ctx_op(&mut self) -> Ctx {
        let iter = self.op_iter;
        let t = self.th();
        Ctx { oom: t.fired_oom, panic: t.fired_panic, iter }
    }

    /// Context of the operation or, if nothing was injected in it, of the run.
    pub fn ctx_run(&mut self) -> Ctx {
        let c = self.ctx_op();
        let r = self.run_ctx;
        if c.oom || c.panic {
            Ctx { iter: c.iter || r.iter, ..c }
        } else {
            Ctx { oom: r.oom, panic: r.panic, iter: c.iter || r.iter }
        }
    }

    fn ctx_for(&mut self, class: Class) -> Ctx {
        use Class::*;
        match class {
            CONTENT | TEXT | RESULT | CAP | ITER => self.ctx_op(),
            _ => self.ctx_run(),
        }
    }

    // Scheduling.

    fn runnable(&self, t: usize) -> bool {
        let th = &self.threads[t];
        th.active && !th.done && !th.waiting
    }

    /// Threads that may run next: the current one first if it can.
    fn options(&self, out: &mut [usize; NT]) -> usize {
        let mut n = 0;
        if self.cur != 0 && self.runnable(self.cur) {
            out[n] = self.cur;
            n += 1;
        }
        for t in 1..NT {
            if t != self.cur && self.runnable(t) {
                out[n] = t;
                n += 1;
            }
        }
        n
    }

    fn pick(&mut self, spin: bool) -> usize {
        let mut opts = [0; NT];
        let mut n = self.options(&mut opts);
        if n == 0 {
            // Nobody can send anything no more so let everyone continue.
            for t in 1..NT {
                self.threads[t].waiting = false;
            }
            n = self.options(&mut opts);
            if n == 0 {
                return 0;
            }
        }
        if n == 1 {
            return opts[0];
        }
        let opts = &opts[..n];
        if self.phase_steps > STEP_FAIR {
            // No faults no more and every thread gets its turn.
            let last = self.rr;
            self.rr = *opts.iter().min_by_key(|&&t| (t + NT - last - 1) % NT).unwrap();
            return self.rr;
        }
        let has_cur = opts[0] == self.cur;
        let step = self.phase_steps;
        let mut stalled = 0;
        let mut rng = self.rng.clone();
        let mut by_policy = || -> usize {
            match self.policy {
                Policy::Random(den) => {
                    if has_cur && !spin && !rng.chance(1, den) {
                        0
                    } else {
                        rng.below(n as u32) as usize
                    }
                }
                Policy::Pct => {
                    if self.change_points.contains(&step) || spin {
                        let low = 50 - (step as u32).min(49);
                        self.threads[self.cur].prio = low;
                    }
                    (0..n).max_by_key(|&i| (self.threads[opts[i]].prio, n - i)).unwrap()
                }
                Policy::Stall(den) => {
                    let in_stall = step >= self.stall_from && step < self.stall_to;
                    let ok = |i: usize| !(in_stall && opts[i] == self.stalled);
                    if has_cur && !spin && ok(0) && !rng.chance(1, den) {
                        0
                    } else {
                        let r = rng.below(n as u32) as usize;
                        if ok(r) {
                            r
                        } else {
                            stalled += 1;
                            (r + 1) % n
                        }
                    }
                }
            }
        };
        let choice = by_policy();
        self.rng = rng;
        self.stat_n(St::f_thread_stalled, stalled);
        let k = self.choose(n as u32, |_| choice as u32);
        opts[k as usize]
    }

    fn step_common(&mut self) {
        self.steps += 1;
        self.phase_steps += 1;
        if self.phase_steps > STEP_FAIR && self.concurrent {
            if self.phase_steps == STEP_FAIR + 1 {
                self.stat(St::p_fair_phase);
            }
        }
        if self.phase_steps > STEP_MAX {
            violate(
                Class::PROGRESS,
                "operations do not finish although every thread gets its turn".into(),
            );
        }
    }

    pub fn tick(&mut self, t: usize) -> u32 {
        self.threads[t].vc.0[t] += 1;
        self.threads[t].vc.0[t]
    }

    // Memory model.

    fn loc<'a>(locs: &'a mut BTreeMap<usize, Loc>, a: &AtomicUsize) -> &'a mut Loc {
        let addr = a as *const _ as usize;
        locs.entry(addr).or_insert_with(|| Loc {
            hist: vec![Store {
                val: a.load(Ordering::Relaxed),
                tid: 0,
                clk: 0,
                sync: VC::default(),
                has_sync: false,
            }],
            seen: Default::default(),
        })
    }

    fn saw(loc: &mut Loc, tid: usize, clk: u32, idx: usize) {
        let seen = &mut loc.seen[tid];
        match seen.last_mut() {
            // Earlier sighting of the same tells more.
            Some(last) if last.1 >= idx as u32 => {}
            Some(last) if last.0 == clk => last.1 = idx as u32,
            _ => seen.push((clk, idx as u32)),
        }
    }

    /// The oldest store the thread can still read.
    fn lower_bound(loc: &Loc, vc: &VC) -> usize {
        let mut lb = 0;
        for (i, s) in loc.hist.iter().enumerate().rev() {
            if s.clk <= vc.0[s.tid as usize] {
                lb = i;
                break;
            }
        }
        for (u, seen) in loc.seen.iter().enumerate() {
            for &(clk, idx) in seen.iter().rev() {
                if clk <= vc.0[u] {
                    lb = lb.max(idx as usize);
                    break;
                }
            }
        }
        lb
    }

    fn acquire(&mut self, sync: Option<VC>, order: Ordering) {
        if let Some(vc) = sync {
            let t = &mut self.threads[self.cur];
            match order {
                Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst => t.vc.join(&vc),
                _ => t.acq.join(&vc),
            }
        }
    }

    fn no_faults(&self) -> bool {
        !self.concurrent || self.phase_steps > STEP_FAIR
    }

    fn m_load(&mut self, a: &AtomicUsize, order: Ordering) -> usize {
        let cur = self.cur;
        let vc = self.threads[cur].vc;
        let clk = vc.0[cur];
        let loc = Self::loc(&mut self.locs, a);
        let last = loc.hist.len() - 1;
        let lb = Self::lower_bound(loc, &vc);
        let mut idx = last;
        if lb < last && order != Ordering::SeqCst && !self.no_faults() {
            let n = (last - lb + 1) as u32;
            let den = self.stale_den;
            let back =
                self.choose(n, |r| if r.chance(1, den) { 1 + r.below(n - 1) } else { 0 }) as usize;
            idx = last - back;
            if back > 0 {
                self.faults_fired += 1;
                self.stat(St::f_stale_load);
            }
        }
        let loc = Self::loc(&mut self.locs, a);
        Self::saw(loc, cur, clk, idx);
        let s = &loc.hist[idx];
        let (val, sync) = (s.val, s.has_sync.then_some(s.sync));
        self.acquire(sync, order);
        self.log("load", self.heap.norm(a as *const _ as usize), val as u64);
        val
    }

    fn release_vc(&mut self, order: Ordering) -> Option<VC> {
        let cur = self.cur;
        let vc = self.threads[cur].vc;
        match order {
            Ordering::Release | Ordering::AcqRel | Ordering::SeqCst => Some(vc),
            _ => {
                let f = self.threads[cur].relf;
                (f != VC::default()).then_some(f)
            }
        }
    }

    fn m_store(&mut self, a: &AtomicUsize, val: usize, order: Ordering) {
        let cur = self.cur;
        let clk = self.tick(cur);
        let sync = self.release_vc(order);
        let loc = Self::loc(&mut self.locs, a);
        loc.hist.push(Store {
            val,
            tid: cur as u8,
            clk,
            sync: sync.unwrap_or_default(),
            has_sync: sync.is_some(),
        });
        let idx = loc.hist.len() - 1;
        Self::saw(loc, cur, clk, idx);
        a.store(val, Ordering::Relaxed);
        self.log("store", self.heap.norm(a as *const _ as usize), val as u64);
    }

    fn m_rmw(
        &mut self,
        a: &AtomicUsize,
        f: &mut dyn FnMut(usize) -> Option<usize>,
        success: Ordering,
        failure: Ordering,
        weak: bool,
    ) -> Result<usize, usize> {
        let cur = self.cur;
        let clk = self.tick(cur);
        let loc = Self::loc(&mut self.locs, a);
        let idx = loc.hist.len() - 1;
        let s = &loc.hist[idx];
        let (val, sync, has_sync) = (s.val, s.sync, s.has_sync);
        if let Some(list) = &mut self.counters {
            list.push(Counter { addr: a as *const _ as usize, old: val, atomic: true, size: 8 });
        }
        let addr = self.heap.norm(a as *const _ as usize);
        let mut new = f(val);
        if new.is_some() && weak && self.spurious_left > 0 && !self.no_faults() {
            let den = self.spurious_den;
            if self.choose(2, |r| r.chance(1, den) as u32) == 1 {
                self.spurious_left -= 1;
                self.faults_fired += 1;
                self.stat(St::f_spurious_cas_failure);
                new = None;
            }
        }
        let loc = Self::loc(&mut self.locs, a);
        match new {
            None => {
                Self::saw(loc, cur, clk, idx);
                self.acquire(has_sync.then_some(sync), failure);
                self.log("cas-failed", addr, val as u64);
                Err(val)
            }
            Some(new) => {
                Self::saw(loc, cur, clk, idx + 1);
                self.acquire(has_sync.then_some(sync), success);
                // This continues the release sequence.
                let rel = self.release_vc(success);
                let mut out = sync;
                if let Some(r) = rel {
                    out.join(&r);
                }
                let loc = Self::loc(&mut self.locs, a);
                loc.hist.push(Store {
                    val: new,
                    tid: cur as u8,
                    clk,
                    sync: out,
                    has_sync: has_sync || rel.is_some(),
                });
                a.store(new, Ordering::Relaxed);
                self.log("rmw", addr, new as u64);
                Ok(val)
            }
        }
    }

    fn m_fence(&mut self, order: Ordering) {
        let cur = self.cur;
        let t = &mut self.threads[cur];
        if matches!(order, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) {
            let acq = t.acq;
            t.vc.join(&acq);
        }
        if matches!(order, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) {
            self.tick(cur);
            let t = &mut self.threads[cur];
            t.relf = t.vc;
        }
        self.log("fence", 0, 0);
    }

    fn m_exclusive(&mut self, a: &AtomicUsize) {
        self.check_atomic(a, "exclusive access");
        self.locs.remove(&(a as *const _ as usize));
    }

    fn check_atomic(&mut self, a: &AtomicUsize, what: &str) {
        let addr = a as *const _ as usize;
        self.heap_access(addr, what);
    }

    /// The library or a payload accesses this address. Check that it may.
    pub fn heap_access(&mut self, addr: usize, what: &str) {
        let cur = self.cur;
        let clk = self.tick(cur);
        match self.heap.find(addr) {
            Some(b) => {
                if b.freed {
                    let n = b.serial;
                    violate(Class::UAF, format!("{what} of block {n} which was freed"));
                }
                b.access.0[cur] = clk;
            }
            None => {
                if self.heap.in_arena(addr) {
                    violate(Class::UAF, format!("{what} outside of any allocated block"));
                }
            }
        }
    }

    fn m_cell(&mut self, addr: usize, size: usize, write: bool) {
        self.stat(St::cell_ops);
        if !self.heap.in_arena(addr) {
            return;
        }
        if let (Some(list), true, 1 | 2 | 4 | 8) = (&mut self.counters, write, size) {
            let old = Counter::read(addr, size);
            list.push(Counter { addr, old, atomic: false, size });
        }
        self.heap_access(addr, if write { "counter write" } else { "counter read" });
        let cur = self.cur;
        let clk = self.tick(cur);
        let vc = self.threads[cur].vc;
        let c = self.cells.entry(addr).or_insert(CellRec { wt: 0, wc: 0, reads: VC::default() });
        let mut other = usize::MAX;
        if c.wc > vc.0[c.wt as usize] {
            other = c.wt as usize;
        } else if write {
            for u in 0..NT {
                if c.reads.0[u] > vc.0[u] {
                    other = u;
                }
            }
        }
        if write {
            c.wt = cur as u8;
            c.wc = clk;
        } else {
            c.reads.0[cur] = clk;
        }
        if other != usize::MAX {
            violate(
                Class::CELLRACE,
                format!("threads {cur} and {other} access an unsynchronised counter at once"),
            );
        }
        if self.trace {
            self.log(if write { "cell-write" } else { "cell-read" }, self.heap.norm(addr), 0);
        }
    }
}

// Functions that may switch to another thread do not take references to the `World`, as it will be
// changed behind these.

fn switch_to(t: usize) {
    let y = {
        let w = w();
        if t == w.cur {
            return;
        }
        w.next = t;
        w.switches += 1;
        w.threads[w.cur].yielder
    };
    unsafe { (*y).suspend(()) };
}

fn cannot_switch() -> bool {
    let w = w();
    w.step_common();
    !w.concurrent || w.cur == 0 || crate::vals::panicking()
}

/// Scheduling point.
pub fn sched() {
    if !cannot_switch() {
        let t = w().pick(false);
        switch_to(t);
    }
}

fn spin() {
    w().stat(St::p_spin);
    if !cannot_switch() {
        let t = w().pick(true);
        switch_to(t);
    }
}

/// Block the thread until it is waken up.
pub fn wait() {
    if !cannot_switch() {
        let w = w();
        w.threads[w.cur].waiting = true;
        let t = w.pick(false);
        switch_to(t);
    }
}

/// Run threads `1..=n` till the end.
pub fn run_threads(n: usize, body: fn(usize)) {
    assert!(n < NT);
    let mut cos: [Option<Co>; NT] = std::array::from_fn(|_| None);
    {
        let w = w();
        let main_vc = w.threads[0].vc;
        for t in 1..=n {
            w.threads[t].vc = main_vc;
            w.threads[t].vc.0[t] = 1;
            w.threads[t].active = true;
            let stack = match w.stacks.pop() {
                Some(s) => s,
                None => DefaultStack::new(256 * 1024).expect("stack"),
            };
            cos[t] = Some(Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
                super::world::w().threads[t].yielder = y;
                body(t);
            }));
        }
        w.tick(0);
        w.concurrent = true;
        w.phase_steps = 0;
        w.cur = 0;
        w.next = w.pick(false);
    }
    loop {
        let t = w().next;
        if t == 0 {
            break;
        }
        w().cur = t;
        let r = cos[t].as_mut().unwrap().resume(());
        if let CoroutineResult::Return(()) = r {
            let w = w();
            w.threads[t].done = true;
            w.stacks.push(cos[t].take().unwrap().into_stack());
            w.next = w.pick(false);
        }
    }
    let w = w();
    w.cur = 0;
    w.concurrent = false;
    w.phase_steps = 0;
    // All threads are joined.
    for t in 1..=n {
        let vc = w.threads[t].vc;
        w.threads[0].vc.join(&vc);
    }
    w.tick(0);
}

fn pre_atomic(a: &AtomicUsize, what: &str) {
    w().check_atomic(a, what);
    sched();
    w().check_atomic(a, what);
    w().stat(St::atomic_ops);
}

fn h_load(a: &AtomicUsize, o: Ordering) -> usize {
    pre_atomic(a, "load");
    w().m_load(a, o)
}
fn h_store(a: &AtomicUsize, v: usize, o: Ordering) {
    pre_atomic(a, "store");
    w().m_store(a, v, o)
}
fn h_rmw(
    a: &AtomicUsize,
    f: &mut dyn FnMut(usize) -> Option<usize>,
    s: Ordering,
    e: Ordering,
    weak: bool,
) -> Result<usize, usize> {
    pre_atomic(a, "update");
    w().m_rmw(a, f, s, e, weak)
}
fn h_exclusive(a: &AtomicUsize) {
    w().m_exclusive(a)
}
fn h_fence(o: Ordering) {
    sched();
    w().m_fence(o)
}
fn h_spin() {
    spin()
}
fn h_cell(a: usize, s: usize, write: bool) {
    w().m_cell(a, s, write)
}

static HOOKS: Hooks = Hooks {
    load: h_load,
    store: h_store,
    rmw: h_rmw,
    exclusive: h_exclusive,
    fence: h_fence,
    spin: h_spin,
    cell: h_cell,
};

fn describe(w: &mut World, msg: &str) -> String {
    let cur = w.cur;
    let opi = w.threads[cur].opi;
    let at = match w.plan.ops.get(opi) {
        Some(op) => format!("op {opi} ({})", op_name(w.plan.scen, op.code)),
        None if opi == usize::MAX - 1 => "final checks".to_string(),
        None => "clean-up".to_string(),
    };
    format!("{msg} [{}, thread {cur}, {at}]", SCENARIOS[w.plan.scen])
}

fn finish(class: Class, msg: String, ctx: Ctx) -> ! {
    let w = w();
    let ours = props::accepts(w.plan.prop, class, ctx);
    let msg = describe(w, &msg);
    if w.trace {
        println!("{}: {}", props::CLASS_NAMES[class as usize], msg);
    }
    let shm = unsafe { &mut *w.shm };
    shm.class = class as u64;
    shm.set_message(&msg);
    shm.state = if ours { shm::VIOLATION } else { shm::FOREIGN };
    unsafe { libc::_exit(if ours { 77 } else { 78 }) }
}

/// The execution cannot continue after this.
#[cold]
pub fn violate(class: Class, msg: String) -> ! {
    let ctx = w().ctx_for(class);
    finish(class, msg, ctx)
}

/// The check failed but the execution can continue if that is not what is looked for.
#[cold]
pub fn soft(class: Class, msg: impl FnOnce() -> String) {
    let w = w();
    let ctx = w.ctx_for(class);
    if props::accepts(w.plan.prop, class, ctx) {
        finish(class, msg(), ctx)
    }
    if w.trace {
        println!("(not of this property) {}: {}", props::CLASS_NAMES[class as usize], msg());
    }
    w.stat(St::foreign_soft);
}

/// The simulator itself is broken.
#[cold]
pub fn harness_error(msg: &str) -> ! {
    let w = w();
    let shm = unsafe { &mut *w.shm };
    shm.set_message(msg);
    shm.state = shm::HARNESS;
    unsafe { libc::_exit(79) }
}
