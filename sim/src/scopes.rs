//! Scenario of scopes: every thread has an environment of its own, enters scopes in each other,
//! leaves them in all ways there are, and uses containers made in other scopes.

use crate::heap::{self, marker, marker_index, SimAlloc, SimScope, MARKERS};
use crate::plan::*;
use crate::props::{self, Class};
use crate::rng::Rng;
use crate::seq::{judge, Case, Verdict, PLAIN};
use crate::stats::St;
use crate::vals::*;
use crate::world::*;
use lokky::arc::Arc as LArc;
use lokky::boxed::Box as LBox;
use lokky::ScopePtr;
use lokky::rc::Rc as LRc;
use lokky::scope::{self, AllocSelector, Env, Scope};
use lokky::small_vec::SmallVec;
use lokky::string::String as LString;
use lokky::urc::Urc as LUrc;
use lokky::vec::Vec as LVec;

pub const OPS: &[&str] = &[
    "enter", "exit", "panic", "make", "grow", "shrink", "convert", "clone", "drop", "envs", "check",
    "update",
];

macro_rules! codes {
    ($($name:ident)*) => { codes!(@ 0u8; $($name)*); };
    (@ $n:expr; $name:ident $($rest:ident)*) => {
        const $name: u8 = $n;
        codes!(@ $n + 1; $($rest)*);
    };
    (@ $n:expr;) => {};
}
codes!(ENTER EXIT PANIC MAKE GROW SHRINK CONVERT CLONE DROP ENVS CHECK UPDATE);

const SLOTS: usize = 4;
const DEPTH: usize = 5;
/// First of the scopes that are entered.
const FIRST: u8 = 6;
/// The scope without any data.
const UNIT: u8 = 127;

type Item = u64;

enum Obj {
    Vec(LVec<Item>),
    Small(SmallVec<Item, 2>),
    Slice(LBox<[Item]>),
    Text(LString),
    Box(LBox<Item>),
    Rc(LRc<Item>),
    Arc(LArc<Item>),
    Urc(LUrc<Item>),
    /// Keeps its allocator even while it is empty.
    Raw(ScopePtr<[Item]>),
}

impl Obj {
    /// Address in the storage if there is some.
    fn place(&self) -> Option<usize> {
        match self {
            Obj::Vec(v) => (v.capacity() > 0).then(|| v.as_ptr() as usize),
            Obj::Small(v) => (v.is_heap() && v.capacity() > 0).then(|| v.as_ptr() as usize),
            Obj::Slice(v) => (!v.is_empty()).then(|| v.as_ptr() as usize),
            Obj::Text(v) => (v.capacity() > 0).then(|| v.as_bytes().as_ptr() as usize),
            Obj::Box(v) => Some(&**v as *const Item as usize),
            Obj::Rc(v) => Some(&**v as *const Item as usize),
            Obj::Arc(v) => Some(&**v as *const Item as usize),
            Obj::Urc(v) => Some(&**v as *const Item as usize),
            Obj::Raw(v) => (!v.is_empty()).then(|| v.as_ptr() as usize),
        }
    }

    fn content(&self) -> Vec<Item> {
        match self {
            Obj::Vec(v) => v.to_vec(),
            Obj::Small(v) => v.to_vec(),
            Obj::Slice(v) => v.to_vec(),
            Obj::Text(v) => v.as_bytes().iter().map(|b| *b as Item).collect(),
            Obj::Box(v) => vec![**v],
            Obj::Rc(v) => vec![**v],
            Obj::Arc(v) => vec![**v],
            Obj::Urc(v) => vec![**v],
            Obj::Raw(v) => v.to_vec(),
        }
    }

    fn len(&self) -> usize {
        match self {
            Obj::Vec(v) => v.len(),
            Obj::Small(v) => v.len(),
            Obj::Slice(v) => v.len(),
            Obj::Text(v) => v.len(),
            Obj::Raw(v) => v.len(),
            _ => 1,
        }
    }

    fn name(&self) -> &'static str {
        match self {
            Obj::Vec(_) => "Vec",
            Obj::Small(_) => "SmallVec",
            Obj::Slice(_) => "Box<[T]>",
            Obj::Text(_) => "String",
            Obj::Box(_) => "Box",
            Obj::Rc(_) => "Rc",
            Obj::Arc(_) => "Arc",
            Obj::Urc(_) => "Urc",
            Obj::Raw(_) => "ScopePtr<[T]>",
        }
    }
}

struct Slot {
    o: Obj,
    m: Vec<Item>,
    marker: Option<u16>,
    /// Allocator of the storage.
    alloc: Option<u16>,
    /// Where it was made.
    home: u8,
}

/// Scope on the stack of the thread as it should be.
#[derive(Clone, Copy)]
struct Level {
    id: u8,
    addr: usize,
}

struct Th {
    t: usize,
    ops: Vec<(usize, Op)>,
    pos: usize,
    stack: Vec<Level>,
    slots: [Option<Slot>; SLOTS],
    again: bool,
    next_id: u8,
    /// How many more levels the panic goes through.
    unwinding: u16,
    /// The initialiser was seen.
    started: bool,
}

// Kinds of scopes: their size, alignment and methods differ.

/// Its destructor uses the scope it was entered from.
struct Padded {
    _pad: [u64; 9],
    inner: SimScope,
    bits: u16,
}

impl Drop for Padded {
    fn drop(&mut self) {
        let th = &threads()[w().cur];
        let depth = th.stack.len();
        if depth < 2 || th.top().id != self.inner.0 {
            violate(Class::SCOPE, "a scope is dropped before its body is done".into());
        }
        let parent = th.stack[depth - 2];
        sched();
        let here = 0u8;
        check_is(scope::current(&here), parent, "current scope in the destructor of a scope");
        if self.bits & 4 != 0 {
            let v = LBox::new(7u64);
            let a = w().heap.find(&*v as *const u64 as usize).map(|b| b.alloc);
            if a.is_some_and(|a| a / MARKERS as u16 != parent.id as u16) {
                soft(Class::SCOPE, || "destructor of a scope was served by a wrong scope".into());
            }
        }
        if self.bits & 8 != 0 {
            scope::spawn(
                |p| {
                    check_is(p, parent, "parent given to the initialiser in a destructor");
                    SimScope(5)
                },
                |s| {
                    let at = Level { id: 5, addr: s as *const SimScope as usize };
                    let here = 0u8;
                    check_is(scope::current(&here), at, "current scope of a destructor's");
                },
            );
            check_is(scope::current(&here), parent, "current scope after a destructor's");
        }
        w().stat(St::p_scope_destructor);
        if self.bits & 48 == 48 && !crate::vals::panicking() {
            w().run_ctx.panic = true;
            w().stat(St::f_scope_drop_panicked);
            crate::vals::inject();
        }
    }
}

#[repr(align(64))]
struct Aligned {
    inner: SimScope,
}

struct Unit;

impl Scope for Padded {
    fn alloc_for(&self, s: AllocSelector) -> &dyn core::alloc::GlobalAlloc {
        self.inner.alloc_for(s)
    }
}

impl Scope for Aligned {
    fn alloc_for(&self, s: AllocSelector) -> &dyn core::alloc::GlobalAlloc {
        self.inner.alloc_for(s)
    }
}

impl Scope for Unit {
    fn alloc_for(&self, s: AllocSelector) -> &dyn core::alloc::GlobalAlloc {
        SimScope(UNIT).alloc_for(s)
    }
}

trait Make: Scope + Sized + 'static {
    fn make(id: u8, bits: u16) -> Self;
    fn id(&self) -> u8;
    const UNIT: bool = false;
}

impl Make for SimScope {
    fn make(id: u8, _: u16) -> Self {
        SimScope(id)
    }
    fn id(&self) -> u8 {
        self.0
    }
}

impl Make for Padded {
    fn make(id: u8, bits: u16) -> Self {
        Padded { _pad: [0x5555_5555_5555_5555; 9], inner: SimScope(id), bits }
    }
    fn id(&self) -> u8 {
        self.inner.0
    }
}

impl Make for Aligned {
    fn make(id: u8, _: u16) -> Self {
        Aligned { inner: SimScope(id) }
    }
    fn id(&self) -> u8 {
        self.inner.0
    }
}

impl Make for Unit {
    fn make(_: u8, _: u16) -> Self {
        Unit
    }
    fn id(&self) -> u8 {
        UNIT
    }
    const UNIT: bool = true;
}

fn addr_of(s: &dyn Scope) -> usize {
    s as *const dyn Scope as *const () as usize
}

/// Scope that the allocator selected belongs to.
fn serves(s: &dyn Scope) -> u8 {
    // This is not a call by the library.
    let th = w().th();
    let (fault, n) = (std::mem::replace(&mut th.fault, Fault::None), th.n_panic);
    let a = s.alloc_for(AllocSelector::new::<Item>());
    let th = w().th();
    (th.fault, th.n_panic) = (fault, n);
    let a = unsafe { &*(a as *const dyn core::alloc::GlobalAlloc as *const SimAlloc) };
    (a.0 as usize / MARKERS) as u8
}

fn check_is(s: &dyn Scope, want: Level, what: &str) {
    // Nothing is called on what is not a scope.
    let a = addr_of(s);
    if want.addr != 0 && a != want.addr {
        violate(Class::SCOPE, format!("{what} is not scope {}", want.id));
    }
    let id = serves(s);
    if id != want.id {
        violate(Class::SCOPE, format!("{what} is scope {id}, should be {}", want.id));
    }
}

/// Whether this thread has requested an allocator.
fn requested(from: usize) -> bool {
    let w = w();
    w.heap.reqs[from..].iter().any(|r| r.thread == w.cur)
}

impl Th {
    fn top(&self) -> Level {
        *self.stack.last().unwrap()
    }

    fn check_current(&self, when: &str) {
        let here = 0u8;
        check_is(scope::current(&here), self.top(), &format!("current scope {when}"));
    }

    /// Check the slot after the operation.
    fn settle(&mut self, i: usize, want: &[Item], exact: bool) {
        let top = self.top();
        let Some(slot) = self.slots[i].as_mut() else { return };
        let name = slot.o.name();
        let w = w();
        let mut alloc = None;
        if let Some(p) = slot.o.place() {
            let serial = w.heap.live_block(p);
            if serial == 0 {
                violate(Class::UAF, format!("{name}: storage is not a live block"));
            }
            alloc = w.heap.by_serial(serial).map(|b| b.alloc);
        }
        let got = slot.o.content();
        let ok = match exact {
            true => got == want,
            false => got.len() <= want.len() && got.len() >= slot.m.len() && got[..] == want[..got.len()],
        };
        if !ok {
            soft(Class::CONTENT, || format!("{name} is {got:?}, should be {want:?}"));
        }
        slot.m = got;
        if let (Some(a), Some(m)) = (alloc, slot.marker) {
            if a % MARKERS as u16 != m {
                soft(Class::MARKER, || format!("{name} of marker {m} has storage in allocator {a}"));
            }
        }
        if let Some(a) = alloc {
            match slot.alloc {
                Some(old) if old != a => soft(Class::MARKER, || {
                    format!("{name}: storage went from allocator {old} to {a}")
                }),
                Some(_) => {}
                None => {
                    let s = a / MARKERS as u16;
                    if s != top.id as u16 {
                        soft(Class::SCOPE, || {
                            format!("{name}: new storage is of scope {s}, current one is {}", top.id)
                        });
                    }
                }
            }
        }
        if alloc.is_some() || !matches!(slot.o, Obj::Raw(_)) {
            slot.alloc = alloc;
        }
    }

    fn requests(&mut self, from: usize, want: Option<u16>) {
        let t = self.t;
        let top = self.top().id;
        // Requests by other threads go to scopes of theirs.
        let reqs: Vec<heap::Req> =
            w().heap.reqs[from..].iter().filter(|r| r.thread == t).copied().collect();
        for r in reqs {
            let m = marker_index(r.marker);
            if want.is_some_and(|w| w != m) {
                soft(Class::MARKER, || {
                    format!("request presents marker {m}, should be {}", want.unwrap())
                });
            }
            if r.scope != top {
                soft(Class::SCOPE, || {
                    format!("allocator was requested of scope {}, current one is {top}", r.scope)
                });
            }
        }
    }

    fn vacate(&mut self, i: usize) {
        if let Some(slot) = self.slots[i].take() {
            let w = w();
            let fault = std::mem::replace(&mut w.th().fault, Fault::None);
            let (out, _) = call(move || drop(slot.o));
            if out != Outcome::Done {
                soft(Class::PANIC, || "panic while dropping".into());
            }
            w.th().fault = fault;
        }
    }

    /// Execute operations up to the end of the scope.
    fn body(&mut self) {
        while self.pos < self.ops.len() {
            let (opi, op) = self.ops[self.pos];
            self.pos += 1;
            match op.code {
                EXIT => {
                    if self.stack.len() > 1 {
                        return;
                    }
                }
                PANIC => {
                    if self.stack.len() > 1 {
                        self.unwinding = (1 + op.a % 3).min(self.stack.len() as u16 - 1);
                        w().run_ctx.panic = true;
                        w().stat(St::f_scope_body_panicked);
                        crate::vals::inject();
                    }
                }
                ENTER => {
                    if self.stack.len() <= DEPTH {
                        self.enter(opi, op);
                        if self.unwinding > 0 {
                            // On to the outer ones.
                            crate::vals::inject();
                        }
                    }
                }
                _ => {
                    w().arm(opi, op.fault);
                    self.exec(&op);
                    w().disarm();
                    if self.again && matches!(op.fault, Fault::Alloc { .. }) {
                        w().arm(opi, Fault::None);
                        self.exec(&op);
                        w().disarm();
                        w().stat(St::p_retry_ok);
                    }
                }
            }
            self.check_current("between operations");
        }
    }

    fn enter(&mut self, opi: usize, op: Op) {
        w().stat(St::ops);
        w().real_ops += 1;
        match op.a % 5 {
            0 | 1 => self.enter_as::<SimScope>(opi, op),
            2 => self.enter_as::<Padded>(opi, op),
            3 => self.enter_as::<Aligned>(opi, op),
            _ => self.enter_as::<Unit>(opi, op),
        }
    }

    fn enter_as<S: Make>(&mut self, opi: usize, op: Op) {
        w().arm(opi, op.fault);
        let depth = self.stack.len();
        let parent = self.top();
        if depth >= 3 {
            w().stat(St::p_scope_depth3);
        }
        let id = if S::UNIT { UNIT } else { self.next_id };
        self.next_id += 1;
        let this: *mut Th = self;
        // Both closures use the thread, one after another.
        let th = || unsafe { &mut *this };
        th().started = false;
        let value = op.c as u64 | 1 << 40;
        let (out, r) = call(|| {
            scope::spawn(
                |p| {
                    let th = th();
                    check_is(p, parent, "parent given to the initialiser");
                    th.check_current("in an initialiser");
                    if op.b & 1 == 1 {
                        // These are of the parent.
                        let v = LBox::new(7u64);
                        let s = w().heap.find(&*v as *const u64 as usize).map(|b| b.alloc);
                        if let Some(a) = s {
                            if a / MARKERS as u16 != parent.id as u16 {
                                soft(Class::SCOPE, || "initialiser was served by a wrong scope".into());
                            }
                        }
                    }
                    if op.b & 2 == 2 {
                        // An initialiser that enters a scope of its own.
                        scope::spawn(
                            |p| {
                                check_is(p, parent, "parent given to the inner initialiser");
                                SimScope(5)
                            },
                            |s| {
                                let at = Level { id: 5, addr: s as *const SimScope as usize };
                                let here = 0u8;
                                check_is(scope::current(&here), at, "current scope of an initialiser's");
                                fault_point(P_CALL);
                            },
                        );
                        th.check_current("in an initialiser after a scope of its own");
                    }
                    sched();
                    fault_point(P_CALL);
                    w().disarm();
                    th.started = true;
                    S::make(id, op.b as u16)
                },
                |s| {
                    let th = th();
                    if s.id() != id {
                        violate(Class::SCOPE, "scope given to the body is not the one made".into());
                    }
                    let addr = if S::UNIT { 0 } else { s as *const S as usize };
                    th.stack.push(Level { id, addr });
                    th.check_current("at the start of a body");
                    th.body();
                    th.check_current("at the end of a body");
                    value
                },
            )
        });
        self.stack.truncate(depth);
        let w = w();
        let fired = w.th().fired_panic;
        if w.th().fired_oom {
            // By the box of the initialiser.
            self.started = true;
        }
        w.disarm();
        match out {
            Outcome::Done => {
                if r != Some(value) {
                    soft(Class::SCOPE, || "result of the body was lost".into());
                }
            }
            Outcome::Injected => {
                if self.unwinding > 0 {
                    self.unwinding -= 1;
                } else if fired {
                    w.stat(St::f_scope_init_panicked);
                }
            }
            Outcome::Panicked => {
                if !w.th().fired_oom {
                    let msg = w.last_panic.clone();
                    soft(Class::PANIC, || format!("panic: {msg}"));
                }
            }
        }
        let how = if out == Outcome::Done { "after a scope" } else { "after a panic in a scope" };
        self.check_current(how);
    }

    fn make(&mut self, i: usize, kind: u16, v: u16, op: &Op) {
        self.vacate(i);
        let n = op.b as usize % 7;
        let m = if v % 2 == 1 { op.c % 4 } else { 0 };
        let base = op.c as u64;
        let items: Vec<Item> = (0..n as u64).map(|k| base + k).collect();
        let text: String = (0..n).map(|k| (b'a' + ((k as u16 + op.c) % 26) as u8) as char).collect();
        let reqs = w().heap.reqs.len();
        let mut mark = m;
        let (out, r) = call(|| match kind {
            0 | 1 => {
                let mut v = match v % 4 {
                    0 => LVec::new(),
                    1 => LVec::with_marker(marker(m)),
                    2 => LVec::with_capacity(n),
                    _ => LVec::with_capacity_and_marker(n, marker(m)),
                };
                v.extend_from_slice(&items);
                Obj::Vec(v)
            }
            2 => {
                let mut v = match v % 4 {
                    0 => SmallVec::new(),
                    1 => SmallVec::with_marker(marker(m)),
                    2 => SmallVec::with_capacity(n),
                    _ => SmallVec::with_capacity_and_marker(n, marker(m)),
                };
                v.extend_from_slice(&items);
                Obj::Small(v)
            }
            3 => {
                mark = 0;
                Obj::Slice(LVec::from(&items[..]).into_boxed_slice())
            }
            4 => {
                let mut s = match v % 4 {
                    0 => LString::new(),
                    1 => LString::with_marker(marker(m)),
                    2 => LString::with_capacity(n),
                    _ => LString::with_capacity_and_marker(n, marker(m)),
                };
                s.push_str(&text);
                Obj::Text(s)
            }
            5 => Obj::Box(if v % 2 == 1 { LBox::new_with(base, marker(m)) } else { LBox::new(base) }),
            6 => {
                mark = 0;
                Obj::Rc(LRc::new(base))
            }
            7 => {
                mark = 0;
                Obj::Arc(LArc::new(base))
            }
            8 => {
                mark = 0;
                Obj::Urc(LUrc::new(base))
            }
            _ => {
                let sel = AllocSelector::with_marker::<Item>(marker(m));
                let mut o: ScopePtr<[Item]> = ScopePtr::alloc_array_uninit(n, sel).unwrap();
                for (k, x) in items.iter().enumerate() {
                    unsafe { o.as_mut_ptr().add(k).write(*x) };
                }
                Obj::Raw(o)
            }
        });
        let ok = judge(&mut self.again, out, false, PLAIN) == Verdict::Ok;
        if ok {
            let home = self.top().id;
            let o = r.unwrap();
            let want = match &o {
                Obj::Text(_) => text.bytes().map(|b| b as Item).collect(),
                Obj::Vec(_) | Obj::Small(_) | Obj::Slice(_) | Obj::Raw(_) => items,
                _ => vec![base],
            };
            // The allocator is chosen now even if it is not asked for memory yet.
            let alloc = match o {
                Obj::Raw(_) => Some(home as u16 * MARKERS as u16 + mark),
                _ => None,
            };
            self.slots[i] = Some(Slot { o, m: vec![], marker: Some(mark), alloc, home });
            self.settle(i, &want, true);
        }
        self.requests(reqs, Some(mark));
    }

    fn exec(&mut self, op: &Op) {
        let i = (op.a & 3) as usize % SLOTS;
        let j = (op.a >> 2 & 3) as usize % SLOTS;
        let kind = (op.a >> 4 & 15) % 10;
        let v = op.a >> 8;
        self.again = false;
        w().stat(St::ops);
        w().real_ops += 1;
        match op.code {
            CHECK => {
                sched();
                return;
            }
            MAKE => return self.make(i, kind, v, op),
            ENVS => return self.envs(op),
            _ => {}
        }
        let top = self.top().id;
        let Some(slot) = self.slots[i].as_mut() else { return };
        if slot.home != top {
            w().stat(St::f_cross_scope_use);
        }
        let pre = slot.m.clone();
        let mark = slot.marker;
        let reqs = w().heap.reqs.len();
        match op.code {
            GROW => {
                let n = op.b as usize % 9;
                let base = op.c as u64;
                let items: Vec<Item> = (0..n as u64).map(|k| base + k).collect();
                let mut want = pre.clone();
                let how = v % 3;
                let (out, r) = call(|| match &mut slot.o {
                    Obj::Vec(o) => {
                        match how {
                            0 => items.iter().for_each(|x| o.push(*x)),
                            1 => o.extend_from_slice(&items),
                            _ => o.reserve(n),
                        }
                        how != 2
                    }
                    Obj::Small(o) => {
                        match how {
                            0 => items.iter().for_each(|x| o.push(*x)),
                            1 => o.extend_from_slice(&items),
                            _ => o.try_reserve_exact(n).unwrap(),
                        }
                        how != 2
                    }
                    Obj::Text(o) => {
                        for _ in 0..n {
                            o.push('x');
                        }
                        true
                    }
                    Obj::Raw(o) => {
                        let old = o.len();
                        unsafe {
                            if o.realloc_array(old + n).is_err() {
                                panic!("refused");
                            }
                            for (k, x) in items.iter().enumerate() {
                                o.as_mut_ptr().add(old + k).write(*x);
                            }
                        }
                        true
                    }
                    _ => false,
                });
                match &slot.o {
                    Obj::Text(_) => want.extend(std::iter::repeat_n(b'x' as Item, n)),
                    Obj::Vec(_) | Obj::Small(_) | Obj::Raw(_) => want.extend(&items),
                    _ => {}
                }
                let ok = judge(&mut self.again, out, false, PLAIN) == Verdict::Ok;
                if self.again && how == 0 || self.again && matches!(slot.o, Obj::Text(_)) {
                    // A part of it was done.
                    self.again = false;
                }
                match r {
                    Some(true) if ok => self.settle(i, &want, true),
                    Some(_) if ok => self.settle(i, &pre, true),
                    _ => self.settle(i, &want, false),
                }
                self.requests(reqs, mark);
            }
            SHRINK => {
                let (out, _) = call(|| match &mut slot.o {
                    Obj::Vec(o) => o.shrink_to_fit(),
                    Obj::Small(o) if v % 2 == 0 => o.shrink_to_fit(),
                    Obj::Small(o) => _ = o.try_move_to_stack(),
                    Obj::Text(o) => o.shrink_to_fit(),
                    Obj::Raw(o) => {
                        let n = [o.len() / 2, 0][v as usize % 2];
                        if unsafe { o.realloc_array(n) }.is_err() {
                            panic!("refused");
                        }
                    }
                    _ => {}
                });
                let ok = judge(&mut self.again, out, false, PLAIN) == Verdict::Ok;
                let mut want = pre.clone();
                if let Obj::Raw(_) = slot.o {
                    if ok {
                        want.truncate([pre.len() / 2, 0][v as usize % 2]);
                    }
                    slot.m = want.clone();
                } else if slot.o.place().is_none() {
                    slot.alloc = None;
                }
                self.settle(i, &want, true);
                self.requests(reqs, mark);
            }
            UPDATE => {
                // Unsharing, which allocates if there are other handles.
                let x = op.c as u64 + 1000;
                let (out, r) = call(|| match &mut slot.o {
                    Obj::Box(o) => {
                        **o = x;
                        true
                    }
                    Obj::Rc(o) => {
                        *LRc::make_mut(o) = x;
                        true
                    }
                    Obj::Arc(o) => {
                        *LArc::make_mut(o) = x;
                        true
                    }
                    Obj::Urc(o) => {
                        *LUrc::make_mut(o) = x;
                        true
                    }
                    _ => false,
                });
                let ok = judge(&mut self.again, out, false, PLAIN) == Verdict::Ok;
                // Storage may be another now.
                let now = slot.o.place().and_then(|p| w().heap.find(p).map(|b| b.alloc));
                if now != slot.alloc && requested(reqs) {
                    slot.alloc = None;
                }
                match r {
                    Some(true) if ok => self.settle(i, &[x], true),
                    _ => self.settle(i, &pre, true),
                }
                self.requests(reqs, mark);
            }
            CONVERT => {
                let slot = self.slots[i].take().unwrap();
                let Slot { o, m, alloc, marker, home } = slot;
                let place = o.place();
                let (out, r) = call(|| match o {
                    Obj::Vec(o) if v % 2 == 0 => Obj::Slice(o.into_boxed_slice()),
                    Obj::Vec(o) => Obj::Small(SmallVec::from(o)),
                    Obj::Small(o) if v % 2 == 0 => Obj::Vec(o.into_vec()),
                    Obj::Small(o) => Obj::Slice(o.into_boxed_slice()),
                    Obj::Slice(o) => Obj::Vec(LVec::from(o)),
                    Obj::Box(o) => Obj::Rc(LRc::from(o)),
                    o => o,
                });
                let ok = judge(&mut self.again, out, false, PLAIN) == Verdict::Ok;
                // It is gone.
                self.again = false;
                if ok {
                    let o = r.unwrap();
                    // Where elements are moved to other storage it is a new one.
                    let moved = matches!(o, Obj::Rc(_))
                        || requested(reqs)
                        || place.is_none()
                        || o.place().is_none();
                    self.slots[i] = Some(Slot {
                        o,
                        m: vec![],
                        // Which marker is kept is not told.
                        marker: marker.filter(|&m| m == 0),
                        alloc: if moved { None } else { alloc },
                        home,
                    });
                    if moved && !requested(reqs) {
                        // None was requested so it is an old one, if any.
                        self.slots[i].as_mut().unwrap().alloc = alloc;
                    }
                    self.settle(i, &m, true);
                }
                self.requests(reqs, marker.filter(|&m| m == 0));
            }
            CLONE => {
                if i == j {
                    return;
                }
                self.vacate(j);
                let slot = self.slots[i].as_mut().unwrap();
                let shares = matches!(slot.o, Obj::Rc(_) | Obj::Arc(_) | Obj::Urc(_));
                let (out, r) = call(|| match &slot.o {
                    Obj::Vec(o) => Some(Obj::Vec(o.clone())),
                    Obj::Small(o) => Some(Obj::Small(o.clone())),
                    Obj::Text(o) => Some(Obj::Text(o.clone())),
                    Obj::Rc(o) => Some(Obj::Rc(o.clone())),
                    Obj::Arc(o) => Some(Obj::Arc(o.clone())),
                    Obj::Urc(o) => Some(Obj::Urc(o.clone())),
                    Obj::Slice(_) | Obj::Box(_) | Obj::Raw(_) => None,
                });
                let alloc = slot.alloc;
                let ok = judge(&mut self.again, out, false, PLAIN) == Verdict::Ok;
                if let (true, Some(Some(o))) = (ok, r) {
                    let home = self.top().id;
                    let alloc = if shares { alloc } else { None };
                    self.slots[j] = Some(Slot {
                        o,
                        m: vec![],
                        marker: mark.filter(|&m| m == 0),
                        alloc,
                        home,
                    });
                    self.settle(j, &pre, true);
                }
                self.settle(i, &pre, true);
                self.requests(reqs, mark.filter(|&m| m == 0));
            }
            DROP => {
                let slot = self.slots[i].take().unwrap();
                let _ = slot.o.len();
                let (out, _) = call(move || drop(slot.o));
                judge(&mut self.again, out, false, PLAIN);
                self.requests(reqs, mark);
            }
            _ => unreachable!(),
        }
    }

    /// An environment other than the one of the thread.
    fn envs(&mut self, op: &Op) {
        let mut first = SimScope(4);
        let at = Level { id: 4, addr: &first as *const SimScope as usize };
        // The environment is of static scopes but does not outlive this one.
        let first: &'static mut SimScope = unsafe { &mut *(&mut first as *mut SimScope) };
        let mut env = Env::new(first);
        let here = 0u8;
        check_is(env.current(&here), at, "current scope of another environment");
        let this: *mut Th = self;
        let (out, r) = call(|| {
            env.spawn(
                |p| {
                    check_is(p, at, "parent in another environment");
                    fault_point(P_CALL);
                    SimScope(3)
                },
                |s| {
                    if s.0 != 3 {
                        violate(Class::SCOPE, "scope given to the body is not the one made".into());
                    }
                    sched();
                    unsafe { &*this }.check_current("while another environment is used");
                    fault_point(P_CALL);
                    op.c
                },
            )
        });
        check_is(env.current(&here), at, "current scope of another environment afterwards");
        let ok = judge(&mut self.again, out, false, Case { ..PLAIN }) == Verdict::Ok;
        if ok && r != Some(op.c) {
            soft(Class::SCOPE, || "result of the body was lost".into());
        }
    }
}

static mut THREADS: Vec<Th> = Vec::new();

fn threads() -> &'static mut Vec<Th> {
    unsafe { &mut *(&raw mut THREADS) }
}

fn thread_body(t: usize) {
    let th = &mut threads()[t];
    th.check_current("at the start of a thread");
    let (out, _) = call(|| th.body());
    if out != Outcome::Done {
        let msg = w().last_panic.clone();
        violate(Class::PANIC, format!("panic outside of scopes: {msg}"));
    }
    w().arm(usize::MAX, Fault::None);
    th.check_current("at the end of a thread");
    for i in 0..SLOTS {
        th.vacate(i);
    }
}

pub fn run() {
    let ops = w().plan.ops.clone();
    let n = (w().plan.cfg[0] as usize).min(4);
    let ths = threads();
    ths.clear();
    for t in 0..=n {
        ths.push(Th {
            t,
            ops: ops.iter().copied().enumerate().filter(|(_, o)| o.t as usize == t).collect(),
            pos: 0,
            stack: vec![Level { id: heap::root_id(t), addr: heap::root_addr(t) }],
            slots: [const { None }; SLOTS],
            again: false,
            next_id: FIRST + 24 * t as u8,
            unwinding: 0,
            started: false,
        });
    }
    thread_body(0);
    if n > 0 {
        run_threads(n, thread_body);
    }
    w().arm(usize::MAX - 1, Fault::None);
    threads()[0].check_current("in the end");
    heap::final_checks();
}

pub fn gen(prop: usize, rng: &mut Rng, plan: &mut Plan) {
    let n = [0, 0, 1, 2, 2, 3][rng.below(6) as usize];
    plan.cfg[0] = n;
    let mut wt = [14u32, 9, 4, 12, 12, 5, 6, 4, 6, 2, 3, 4];
    let (mut refuse, mut panic) = (8, 10);
    match prop {
        props::C12 => (refuse, panic) = (14, 4),
        props::C13 => (refuse, panic) = (40, 0),
        props::C20 => (refuse, panic) = (25, 4),
        _ => {}
    }
    if matches!(prop, props::C12 | props::C20) {
        wt[ENTER as usize] = 9;
        wt[MAKE as usize] = 16;
        wt[GROW as usize] = 16;
    }
    let faults = !rng.chance(1, 5);
    for t in 0..=n {
        let count = match () {
            _ if t == 0 && n > 0 => rng.below(4),
            _ if crate::plan::long(rng) => 20 + rng.below(60),
            _ => 3 + rng.below(18),
        };
        for _ in 0..count {
            let code = rng.weighted(&wt) as u8;
            let slot = rng.below(4) as u16;
            let a = match code {
                ENTER | PANIC => rng.below(15) as u16,
                _ => slot | (rng.below(4) as u16) << 2 | (rng.below(10) as u16) << 4 | (rng.below(8) as u16) << 8,
            };
            let b = rng.below(256) as u16;
            let mut o = Op { t: t as u8, code, a, b, c: rng.below(1 << 10) as u16, fault: Fault::None };
            if faults {
                let r = rng.below(100);
                if matches!(code, ENTER | ENVS) {
                    if r < panic {
                        o.fault = Fault::Panic { kind: P_CALL, nth: rng.below(3) as u8 };
                    } else if r < panic + 3 {
                        o.fault = Fault::Alloc { nth: 0, sticky: false };
                    }
                } else if r < refuse {
                    o.fault = Fault::Alloc {
                        nth: [0, 0, 0, 1, 2][rng.below(5) as usize],
                        sticky: rng.chance(1, 3),
                    };
                }
            }
            plan.ops.push(o);
        }
    }
}
