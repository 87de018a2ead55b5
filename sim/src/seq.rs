//! Scenarios of `Vec`, `SmallVec` and `Box`: histories of operations on a few containers, each
//! compared with plain sequences after every operation.

use crate::cmp::{self, Looks, Plainly};
use crate::cont::*;
use crate::elem::*;
use crate::heap::{self, marker, marker_index};
use crate::plan::{self, *};
use crate::props::{self, Class};
use crate::rng::{mix, Rng};
use crate::stats::St;
use crate::vals::*;
use crate::world::*;
use lokky::scope::AllocSelector;
use lokky::ScopePtr;
use std::cell::Cell;
use std::collections::VecDeque;
use std::mem::{ManuallyDrop, MaybeUninit};
use std::ops::Bound;

pub const OPS: &[&str] = &[
    "new", "push", "pop", "insert", "remove", "swap-remove", "truncate", "clear", "extend-slice",
    "extend-iter", "append", "resize", "resize-with", "retain", "dedup", "split-off", "reserve",
    "shrink", "convert", "clone", "from-array", "from-slice", "from-iter", "into-iter", "drain",
    "drop", "leak", "to-stack", "to-heap", "index", "spare", "box", "unbox", "mutate", "raw",
    "compare", "box-forward", "clone-from",
];

macro_rules! codes {
    ($($name:ident)*) => { codes!(@ 0u8; $($name)*); };
    (@ $n:expr; $name:ident $($rest:ident)*) => {
        const $name: u8 = $n;
        codes!(@ $n + 1; $($rest)*);
    };
    (@ $n:expr;) => {};
}
codes!(NEW PUSH POP INSERT REMOVE SWAP_REMOVE TRUNCATE CLEAR EXTEND_SLICE EXTEND_ITER APPEND RESIZE
    RESIZE_WITH RETAIN DEDUP SPLIT_OFF RESERVE SHRINK CONVERT CLONE FROM_ARRAY FROM_SLICE FROM_ITER
    INTO_ITER DRAIN DROP LEAK TO_STACK TO_HEAP INDEX SPARE BOX UNBOX MUTATE RAW COMPARE BOX_FORWARD CLONE_FROM);

const SLOTS: usize = 3;

/// Frees the array but drops no element.
struct FreeRaw<T>(Option<ManuallyDrop<ScopePtr<[T]>>>);

impl<T> Drop for FreeRaw<T> {
    fn drop(&mut self) {
        if let Some(p) = &mut self.0 {
            unsafe { p.dealloc() }
        }
    }
}

struct Slot<T: Elem> {
    c: Dyn<T>,
    m: Vec<Id>,
    /// Marker it was created with, if known.
    marker: Option<u16>,
    /// Capacity it should have at least.
    promise: usize,
    /// Allocator of the storage.
    alloc: Option<u16>,
}

/// What is to be found in the container after the operation. Identity of 0 is that of any element
/// made in the operation.
enum Want {
    Exact(Vec<Id>),
    /// These and some of the ones that were being added.
    Prefix(Vec<Id>, Vec<Id>),
    /// Some of these, in any order.
    Some(Vec<Id>),
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Verdict {
    Ok,
    Failed,
    /// What should have failed did not.
    Odd,
}

#[derive(Clone, Copy)]
pub struct Case {
    /// Indices are in range.
    pub valid: bool,
    /// The size may exist.
    pub sized: bool,
    /// Returns errors.
    pub fallible: bool,
    /// May succeed as well as fail.
    pub lenient: bool,
}

pub const PLAIN: Case = Case { valid: true, sized: true, fallible: false, lenient: false };

struct Eng<T: Elem> {
    slots: [Option<Slot<T>>; SLOTS],
    /// First identity made in this operation.
    floor: u32,
    /// Elements may be lost by this operation.
    lossy: bool,
    /// Mismatches of content are ones of iteration.
    iter: bool,
    /// The operation was refused memory and can be repeated.
    again: bool,
    keys: u32,
}

fn snap<T: Elem>(s: &[T], what: &str) -> Vec<Id> {
    if s.len() > 1 << 20 {
        violate(Class::CONTENT, format!("{what}: length is {}", s.len()));
    }
    s.iter()
        .map(|v| {
            v.check(what);
            v.ident()
        })
        .collect()
}

fn show(v: &[Id]) -> String {
    const ENDS: usize = 20;
    let some = |v: &[Id]| {
        let items: Vec<String> = v
            .iter()
            .map(|(id, key)| if *id == 0 { format!("{key}") } else { format!("#{id}:{key}") })
            .collect();
        items.join(" ")
    };
    if v.len() > 2 * ENDS {
        let (first, last) = (&v[..ENDS], &v[v.len() - ENDS..]);
        return format!("[{} ... {}; {} in all]", some(first), some(last), v.len());
    }
    format!("[{}]", some(v))
}

/// Decode index: mostly valid.
fn index(b: u16, len: usize) -> usize {
    match b {
        0..=199 if len > 7400 => b as usize * 499 % len,
        0..=199 if len > 200 => b as usize * 37 % len,
        0..=199 => b as usize % len.max(1),
        200..=229 => len,
        230..=244 => len + 1 + (b as usize - 230) / 5,
        _ => usize::MAX - (b as usize - 245) % 4,
    }
}

/// Number of elements of this size that is not or hardly possible.
fn huge(b: u16, size: usize) -> usize {
    let b = b as usize;
    match b / 4 % 4 {
        0 => usize::MAX - b % 4,
        1 => isize::MAX as usize / size.max(1) + b % 4,
        2 => (usize::MAX / size.max(1) - 1).saturating_add(b % 4),
        _ => isize::MAX as usize - b % 4 * 8,
    }
}

/// Number of elements, in some runs there are many of them.
fn many(n: usize, len: usize) -> usize {
    match w().plan.cfg[2] {
        1 if len < 800 => n * 24 + 1,
        _ => n,
    }
}

/// Number of elements to resize to, in some runs they are to be counted in more than 16 bits.
fn most(n: usize, len: usize) -> usize {
    match w().plan.cfg[2] {
        2 if len < 70_000 => n * 7000 + 1,
        _ => many(n, len),
    }
}

/// Feeds elements into the container.
struct Feed<'a, T> {
    items: VecDeque<T>,
    lower: usize,
    upper: Option<usize>,
    given: &'a Cell<usize>,
}

impl<T> Iterator for Feed<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        fault_point(P_ITER);
        let v = self.items.pop_front();
        if v.is_some() {
            self.given.set(self.given.get() + 1);
        }
        v
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        let lower = self.lower.min(n + 5);
        // It may lie.
        (lower, self.upper.map(|u| if u == usize::MAX { lower } else { n + u }))
    }
}

static BYTES: [u8; 256] = {
    let mut a = [0; 256];
    let mut i = 0;
    while i < 256 {
        a[i] = 0x40u8.wrapping_add(i as u8);
        i += 1;
    }
    a
};

/// Tell whether the operation ended the way it may end.
pub fn judge(again: &mut bool, out: Outcome, failed: bool, case: Case) -> Verdict {
    let w = w();
    let (oom, panic) = {
        let t = w.th();
        (t.fired_oom, t.fired_panic)
    };
    w.disarm();
    match out {
        Outcome::Done if panic => {
            soft(Class::PANIC, || "panic of user code did not propagate".into());
            Verdict::Odd
        }
        Outcome::Done if !failed => {
            if !case.valid {
                soft(Class::INDEX, || "invalid index was accepted".into());
                Verdict::Odd
            } else if !case.sized {
                soft(Class::REPR, || "size that cannot exist was accepted".into());
                Verdict::Odd
            } else {
                Verdict::Ok
            }
        }
        Outcome::Done => {
            if !oom && case.sized && !case.lenient {
                soft(Class::OOM, || "error though no memory was refused".into());
            }
            *again = oom;
            Verdict::Failed
        }
        Outcome::Injected => Verdict::Failed,
        Outcome::Panicked => {
            if case.valid && case.sized && !oom && !panic && !case.lenient {
                let msg = w.last_panic.clone();
                soft(Class::PANIC, || format!("panic: {msg}"));
            }
            if case.fallible && oom && case.sized && !case.lenient {
                soft(Class::OOM, || "panic instead of an error".into());
            }
            *again = oom && case.valid;
            Verdict::Failed
        }
    }
}

impl<T: Elem> Eng<T> {
    fn key(&self, c: u16, i: usize) -> u32 {
        T::key((mix(c as u64 ^ (i as u64) << 20) as u32) % self.keys)
    }

    /// New elements for an operation and what they are like.
    fn items(&self, c: u16, n: usize) -> (Vec<T>, Vec<Id>) {
        let v: Vec<T> = (0..n).map(|i| T::make(self.key(c, i))).collect();
        let ids = v.iter().map(|e| e.ident()).collect();
        (v, ids)
    }

    fn judge(&mut self, out: Outcome, failed: bool, case: Case) -> Verdict {
        judge(&mut self.again, out, failed, case)
    }

    fn matches(&self, want: &[Id], got: &[Id]) -> bool {
        want.len() == got.len()
            && want.iter().zip(got).all(|(w, g)| {
                w.1 == g.1 && (!T::TRACKED || w.0 == g.0 || w.0 == 0 && g.0 >= self.floor)
            })
    }

    fn class(&self) -> Class {
        if self.iter {
            Class::ITER
        } else {
            Class::CONTENT
        }
    }

    /// Compare the container with what it should be, then take it as it is.
    fn settle(&mut self, i: usize, want: Want) {
        let Some(slot) = self.slots[i].as_ref() else { return };
        self.check_storage(slot);
        let got = snap(slot.c.slice(), "element");
        match got.len() {
            65536.. => w().stat(St::p_length_over_65535),
            256.. => w().stat(St::p_length_over_255),
            _ => {}
        }
        if slot.c.len() != got.len() {
            soft(Class::CONTENT, || "length differs from the one of the slice".into());
        }
        let ok = match &want {
            Want::Exact(v) => self.matches(v, &got),
            Want::Prefix(base, added) => {
                got.len() >= base.len() && got.len() <= base.len() + added.len() && {
                    let mut all = base.clone();
                    all.extend_from_slice(added);
                    self.matches(&all[..got.len()], &got)
                }
            }
            Want::Some(pool) => {
                let mut pool = pool.clone();
                got.iter().all(|g| match pool.iter().position(|p| self.matches(&[*p], &[*g])) {
                    Some(n) => {
                        pool.swap_remove(n);
                        true
                    }
                    None => false,
                })
            }
        };
        if !ok {
            let class = self.class();
            soft(class, || {
                let (rule, want) = match &want {
                    Want::Exact(v) => ("should be", show(v)),
                    Want::Prefix(b, a) => ("should be", format!("{} and some of {}", show(b), show(a))),
                    Want::Some(v) => ("should be of", show(v)),
                };
                format!(
                    "{} {i} is {}, {rule} {want}",
                    KIND_NAMES[slot.c.kind() as usize],
                    show(&got)
                )
            });
        }
        let slot = self.slots[i].as_mut().unwrap();
        slot.m = got;
        self.check_slot(i);
    }

    /// Check that the elements are where they may be. Nothing of them is read.
    fn check_storage(&self, slot: &Slot<T>) {
        let c = &slot.c;
        let (len, cap, ptr) = (c.len(), c.cap(), c.ptr() as usize);
        let size = std::mem::size_of::<T>();
        let name = KIND_NAMES[c.kind() as usize];
        if len > cap {
            soft(Class::CAP, || format!("{name}: length {len} is over capacity {cap}"));
        }
        if ptr == 0 || ptr % std::mem::align_of::<T>() != 0 {
            violate(Class::CAP, format!("{name}: misaligned storage"));
        }
        if let (Some(n), false) = (c.inline(), c.is_heap()) {
            if cap != n || len > n {
                soft(Class::CAP, || {
                    format!("{name} is inline with length {len} and capacity {cap}")
                });
            }
            let (start, total) = c.place();
            if size > 0 && (ptr < start || ptr + len * size > start + total) {
                violate(Class::CAP, format!("{name} is inline but elements are elsewhere"));
            }
            return;
        }
        if size == 0 || cap == 0 {
            return;
        }
        let w = w();
        let serial = w.heap.live_block(ptr);
        if serial == 0 {
            violate(Class::UAF, format!("{name}: storage is not a live block"));
        }
        let b = w.heap.by_serial(serial).unwrap();
        let (start, bytes) = (b.start, b.size);
        if c.kind() != K_RC && start != ptr
            || cap.checked_mul(size).is_none_or(|n| n > bytes - (ptr - start))
        {
            violate(
                Class::CAP,
                format!("{name}: capacity {cap} does not fit {bytes} bytes of block {serial}"),
            );
        }
    }

    fn check_slot(&mut self, i: usize) {
        let slot = self.slots[i].as_mut().unwrap();
        let c = &slot.c;
        let name = KIND_NAMES[c.kind() as usize];
        let (len, cap) = (c.len(), c.cap());
        if cap < slot.promise {
            let p = slot.promise;
            soft(Class::CAP, || format!("{name}: capacity is {cap} but {p} was reserved"));
            slot.promise = 0;
        }
        let (empty, full) = c.flags();
        if empty != (len == 0) || full != (len == cap) {
            soft(Class::RESULT, || format!("{name}: is_empty or is_full is wrong"));
        }
        if let (Some(got), Some(want)) = (c.marker(), slot.marker) {
            if got != marker(want) {
                let got = marker_index(got);
                soft(Class::MARKER, || format!("{name}: marker is {got}, should be {want}"));
                slot.marker = Some(got);
            }
        }
        // Allocator of the storage.
        let alloc = if std::mem::size_of::<T>() > 0
            && cap > 0
            && (c.inline().is_none() || c.is_heap())
        {
            w().heap.find(c.ptr() as usize).map(|b| b.alloc)
        } else {
            None
        };
        if let Some(a) = alloc {
            if let Some(m) = slot.marker {
                if a % heap::MARKERS as u16 != m {
                    soft(Class::MARKER, || {
                        format!("{name} of marker {m} has storage in allocator {a}")
                    });
                }
            }
            if let Some(old) = slot.alloc {
                if old != a {
                    soft(Class::MARKER, || {
                        format!("{name}: storage went from allocator {old} to {a}")
                    });
                }
            }
        }
        slot.alloc = alloc;
    }

    fn put(&mut self, i: usize, c: Dyn<T>, m: Vec<Id>, marker: Option<u16>, promise: usize) {
        assert!(self.slots[i].is_none());
        let marker = marker.or_else(|| c.marker().map(marker_index));
        self.slots[i] = Some(Slot { c, m: vec![], marker, promise, alloc: None });
        self.settle(i, Want::Exact(m));
    }

    /// Checks at the end of every operation.
    fn accounts(&mut self) {
        let total: usize = self.slots.iter().flatten().map(|s| s.m.len()).sum();
        let w = w();
        if T::TRACKED {
            let mut held: Vec<u32> =
                self.slots.iter().flatten().flat_map(|s| s.m.iter().map(|e| e.0)).collect();
            held.sort_unstable();
            if held.windows(2).any(|p| p[0] == p[1]) {
                violate(Class::DEAD, "an element is held twice".into());
            }
            if w.vals.alive > total {
                let lost: Vec<u32> = (1..w.vals.recs.len() as u32)
                    .filter(|id| {
                        w.vals.recs[*id as usize].state == State::Alive
                            && held.binary_search(id).is_err()
                    })
                    .collect();
                if self.lossy {
                    w.stat_n(St::p_elements_lost, lost.len() as u64);
                } else {
                    soft(Class::LEAKV, || {
                        let n = lost.len();
                        let lost = &lost[..n.min(20)];
                        format!("{n} elements were lost without being dropped: {lost:?}")
                    });
                }
                for id in lost {
                    w.vals.leak(id);
                }
            }
        } else if T::COUNTED {
            let alive = w.vals.zst_alive;
            if alive > total as isize {
                if self.lossy {
                    w.stat_n(St::p_elements_lost, (alive - total as isize) as u64);
                } else {
                    soft(Class::LEAKV, || {
                        format!("{alive} zero-sized elements exist, there should be {total}")
                    });
                }
            } else if alive < total as isize {
                violate(
                    Class::DDROP,
                    format!("{alive} zero-sized elements exist, there should be {total}"),
                );
            }
            w.vals.zst_alive = total as isize;
        }
    }

    /// Check requests made since there were `from` of them.
    fn requests(&mut self, from: usize, want: Option<u16>) {
        let reqs: Vec<heap::Req> = w().heap.reqs[from..].to_vec();
        for r in reqs {
            let m = marker_index(r.marker);
            if want.is_some_and(|w| w != m) {
                soft(Class::MARKER, || {
                    format!("request presents marker {m}, should be {}", want.unwrap())
                });
            }
            heap::check_selector::<T>(&r);
        }
    }

    /// Drop what is in the slot, without faults.
    fn vacate(&mut self, i: usize) {
        if let Some(slot) = self.slots[i].take() {
            let w = w();
            let fault = std::mem::replace(&mut w.th().fault, Fault::None);
            let (out, _) = call(move || drop(slot.c));
            if out != Outcome::Done {
                let msg = w.last_panic.clone();
                soft(Class::PANIC, || format!("panic while dropping: {msg}"));
            }
            w.th().fault = fault;
            self.accounts();
        }
    }

    fn returned(&mut self, got: Option<T>, want: Option<Id>) {
        let got = got.inspect(|v| v.check("returned element")).map(|v| {
            let id = v.ident();
            (id, v)
        });
        let id = got.as_ref().map(|g| g.0);
        let same = match (id, want) {
            (None, None) => true,
            (Some(g), Some(w)) => self.matches(&[w], &[g]),
            _ => false,
        };
        if !same {
            soft(Class::RESULT, || format!("returned {id:?}, should be {want:?}"));
        }
        if let Some((_, v)) = got {
            let (out, _) = call(move || drop(v));
            if out != Outcome::Done {
                soft(Class::PANIC, || "panic while dropping".into());
            }
        }
    }

    fn exec(&mut self, op: &Op) {
        let i = (op.a & 3) as usize % SLOTS;
        let j = (op.a >> 2 & 3) as usize % SLOTS;
        let kind = op.a >> 4 & 15;
        let v = op.a >> 8;
        self.floor = w().vals.recs.len() as u32;
        self.lossy = false;
        self.iter = false;
        self.again = false;
        let reqs = w().heap.reqs.len();
        w().stat(St::ops);

        match op.code {
            RAW => return self.raw(op, v, reqs),
            BOX_FORWARD => return self.box_forward(op),
            NEW | FROM_ARRAY | FROM_SLICE | FROM_ITER | BOX => return self.make(op, i, kind, v, reqs),
            _ => {}
        }
        let Some(slot) = self.slots[i].as_mut() else { return };
        let can = match op.code {
            INTO_ITER | LEAK => is_vec(&*slot.c),
            TO_STACK | TO_HEAP => slot.c.inline().is_some(),
            UNBOX => slot.c.kind() == K_BOX,
            CONVERT => converts(slot.c.kind(), kind),
            DROP | MUTATE | COMPARE => true,
            _ => slot.c.growable(),
        };
        if !can {
            return;
        }
        w().real_ops += 1;
        let pre = slot.m.clone();
        let len = pre.len();
        let mark = slot.marker;
        let unchanged = Want::Exact(pre.clone());
        // Room it needs, where that is known.
        let need = match op.code {
            PUSH | INSERT => Some(len + 1),
            EXTEND_SLICE => Some(len + many(op.b as usize % 12, len).min(56)),
            APPEND => Some(len + self.slots[j].as_ref().map_or(0, |s| s.m.len())),
            RESIZE | RESIZE_WITH if op.b < 240 => Some(len.max(most(op.b as usize % 14, 0))),
            RESERVE if op.b < 240 => Some(len + many(op.b as usize % 40, len)),
            EXTEND_ITER | RESERVE | CONVERT | TO_HEAP | CLONE_FROM => None,
            _ => Some(len),
        };
        let slot = self.slots[i].as_ref().unwrap();
        let need = need.filter(|_| slot.c.inline().is_some() && !slot.c.is_heap());
        match op.code {
            PUSH => {
                let (mut e, ids) = self.items(op.c, 1);
                let e = e.pop().unwrap();
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let grows = len == c.cap();
                let (out, _) = call(|| c.push(e));
                let mut want = pre;
                if self.judge(out, false, PLAIN) == Verdict::Ok {
                    want.extend(ids);
                    if grows {
                        w().stat(St::p_vec_grow);
                    }
                }
                self.settle(i, Want::Exact(want));
                self.requests(reqs, mark);
            }
            POP => {
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let (out, r) = call(|| c.pop());
                let mut want = pre;
                if self.judge(out, false, PLAIN) == Verdict::Ok {
                    let last = want.pop();
                    self.returned(r.unwrap(), last);
                }
                self.settle(i, Want::Exact(want));
            }
            INSERT => {
                let at = index(op.b, len + 1);
                let (mut e, ids) = self.items(op.c, 1);
                let e = e.pop().unwrap();
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let (out, _) = call(|| c.insert(at, e));
                let mut want = pre;
                let case = Case { valid: at <= len, ..PLAIN };
                if !case.valid {
                    w().stat(St::f_invalid_index);
                }
                if self.judge(out, false, case) == Verdict::Ok {
                    want.insert(at, ids[0]);
                }
                self.settle(i, Want::Exact(want));
                self.requests(reqs, mark);
            }
            REMOVE | SWAP_REMOVE => {
                let at = index(op.b, len);
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let (out, r) =
                    call(|| if op.code == REMOVE { c.remove(at) } else { c.swap_remove(at) });
                let mut want = pre;
                let case = Case { valid: at < len, ..PLAIN };
                if !case.valid {
                    w().stat(St::f_invalid_index);
                }
                match self.judge(out, false, case) {
                    Verdict::Ok => {
                        let id = if op.code == REMOVE {
                            want.remove(at)
                        } else {
                            want.swap_remove(at)
                        };
                        self.returned(r, Some(id));
                    }
                    Verdict::Odd => std::mem::forget(r),
                    _ => {}
                }
                self.settle(i, Want::Exact(want));
            }
            TRUNCATE | CLEAR => {
                let n = if op.code == CLEAR { 0 } else { index(op.b, len) };
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let (out, _) = call(|| if op.code == CLEAR { c.clear() } else { c.truncate(n) });
                match self.judge(out, false, PLAIN) {
                    Verdict::Ok => {
                        let mut want = pre;
                        want.truncate(n);
                        self.settle(i, Want::Exact(want));
                    }
                    _ => {
                        self.lossy = true;
                        self.settle(i, Want::Some(pre));
                    }
                }
            }
            EXTEND_SLICE => {
                let n = many(op.b as usize % 12, len).min(56);
                let (src, ids) = self.items(op.c, n);
                let added: Vec<Id> = ids.iter().map(|e| (0, e.1)).collect();
                let refs = can_extend_refs(self.slots[i].as_mut().unwrap().c.any()) && v & 1 == 1;
                let start = (op.c % 200) as usize;
                let added = if refs {
                    (start..start + n).map(|k| (0, k as u32)).collect()
                } else {
                    added
                };
                // Clones are to be told from the originals.
                self.floor = w().vals.recs.len() as u32;
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let (out, _) = call(|| {
                    if refs {
                        extend_refs(c.any(), &BYTES[start..start + n])
                    } else {
                        c.extend_slice(&src)
                    }
                });
                let verdict = self.judge(out, false, PLAIN);
                if snap(&src, "source") != ids {
                    soft(Class::CONTENT, || "source of the clones was changed".into());
                }
                drop(src);
                self.settle_added(i, verdict, pre, added, op);
                self.requests(reqs, mark);
            }
            EXTEND_ITER => {
                let n = many(op.b as usize % 12, len);
                let (src, ids) = self.items(op.c, n);
                let given = Cell::new(0);
                let mut feed = self.feed(src, op, &given);
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let (out, _) = call(|| c.extend_iter(&mut feed));
                let verdict = self.judge(out, false, PLAIN);
                drop(feed);
                self.settle_added(i, verdict, pre, ids, op);
                self.requests(reqs, mark);
            }
            APPEND => self.append(i, j, reqs),
            CLONE_FROM => self.clone_from(i, j, reqs),
            RESIZE | RESIZE_WITH => {
                let n = if op.b < 240 { most(op.b as usize % 14, 0) } else { 0 };
                let key = self.key(op.c, 0);
                let add = n.saturating_sub(len);
                let calls = Cell::new(0usize);
                let keys: Vec<u32> = (0..add.max(1)).map(|k| self.key(op.c, k)).collect();
                let out;
                let added: Vec<Id>;
                if op.code == RESIZE {
                    let e = T::make(key);
                    let c = &mut self.slots[i].as_mut().unwrap().c;
                    out = call(|| c.resize(n, e)).0;
                    added = vec![(0, T::key(key)); add];
                } else {
                    let c = &mut self.slots[i].as_mut().unwrap().c;
                    out = call(|| {
                        c.resize_with(n, &mut || {
                            fault_point(P_CALL);
                            let k = calls.get();
                            calls.set(k + 1);
                            T::make(keys[k % keys.len()])
                        })
                    })
                    .0;
                    added = keys[..add].iter().map(|k| (0, T::key(*k))).collect();
                }
                let verdict = self.judge(out, false, PLAIN);
                if verdict == Verdict::Ok && op.code == RESIZE_WITH && calls.get() != add {
                    let n = calls.get();
                    soft(Class::RESULT, || format!("closure was called {n} times, not {add}"));
                }
                if n <= len && verdict == Verdict::Ok {
                    let mut want = pre;
                    want.truncate(n);
                    self.settle(i, Want::Exact(want));
                } else if n <= len {
                    self.lossy = true;
                    self.settle(i, Want::Some(pre));
                } else {
                    self.settle_added(i, verdict, pre, added, op);
                }
                self.requests(reqs, mark);
            }
            RETAIN => {
                let mask = mix(op.b as u64);
                let keep = |n: usize| mask >> (n % 64) & 1 == 1;
                let seen: std::cell::RefCell<Vec<Id>> = Default::default();
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let (out, _) = call(|| {
                    c.retain(&mut |e| {
                        e.check("element given to the closure");
                        fault_point(P_CALL);
                        let mut seen = seen.borrow_mut();
                        seen.push(e.ident());
                        keep(seen.len() - 1)
                    })
                });
                match self.judge(out, false, PLAIN) {
                    Verdict::Ok => {
                        if *seen.borrow() != pre {
                            let got = show(&seen.borrow());
                            soft(Class::RESULT, || {
                                format!("closure was given {got} instead of {}", show(&pre))
                            });
                        }
                        let mut n = 0;
                        let mut want = pre;
                        want.retain(|_| {
                            n += 1;
                            keep(n - 1)
                        });
                        self.settle(i, Want::Exact(want));
                    }
                    _ => {
                        self.lossy = true;
                        self.settle(i, Want::Some(pre));
                    }
                }
            }
            DEDUP => {
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let how = op.b % 4;
                // Tested and the one before it.
                let same = |tested: u32, before: u32| match how {
                    0 | 1 => tested == before,
                    2 => tested / 2 == before / 2,
                    _ => tested <= before,
                };
                let (out, _) = call(|| match how {
                    0 => c.dedup(),
                    1 => c.dedup_by_key(&mut |e| {
                        e.check("element given to the closure");
                        fault_point(P_CALL);
                        Key(e.ident().1)
                    }),
                    2 => c.dedup_by_key(&mut |e| {
                        e.check("element given to the closure");
                        fault_point(P_CALL);
                        Key(e.ident().1 / 2)
                    }),
                    _ => c.dedup_by(&mut |a, b| {
                        a.check("element given to the closure");
                        b.check("element given to the closure");
                        fault_point(P_CALL);
                        same(a.ident().1, b.ident().1)
                    }),
                });
                match self.judge(out, false, PLAIN) {
                    Verdict::Ok => {
                        let mut want: Vec<Id> = vec![];
                        for e in pre {
                            if want.last().is_none_or(|l| !same(e.1, l.1)) {
                                want.push(e);
                            }
                        }
                        self.settle(i, Want::Exact(want));
                    }
                    _ => {
                        self.lossy = true;
                        self.settle(i, Want::Some(pre));
                    }
                }
            }
            SPLIT_OFF => {
                if i == j {
                    return;
                }
                let at = index(op.b, len + 1);
                self.vacate(j);
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let small = c.inline().is_some();
                let (out, r) = call(|| c.split_off(at, kind));
                let case = Case { valid: at <= len, ..PLAIN };
                if !case.valid {
                    w().stat(St::f_invalid_index);
                    if !small && out == Outcome::Done {
                        // Vec takes that for an empty tail.
                        w().disarm();
                        self.settle(i, Want::Exact(pre));
                        self.put(j, r.unwrap(), vec![], None, 0);
                        return;
                    }
                }
                // Which marker the new one has is not told, except when there was none at all.
                let new_mark = mark.filter(|&m| m == 0);
                if self.judge(out, false, case) == Verdict::Ok {
                    let mut want = pre;
                    let tail = want.split_off(at);
                    self.settle(i, Want::Exact(want));
                    let n = tail.len();
                    self.put(j, r.unwrap(), tail, new_mark, 0);
                    self.stays(j, n);
                } else {
                    self.settle(i, unchanged);
                }
                self.requests(reqs, new_mark);
            }
            RESERVE => {
                let size = std::mem::size_of::<T>();
                let n = match op.b {
                    0..=239 => many(op.b as usize % 40, len),
                    b => huge(b - 240, size),
                };
                let how = op.c % 4;
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let (out, r) = call(|| c.reserve(how, n));
                let sized = len
                    .checked_add(n)
                    .and_then(|t| t.checked_mul(size))
                    .is_some_and(|t| t <= isize::MAX as usize);
                if !sized {
                    w().stat(St::f_unrepresentable_size);
                }
                let lenient = n > isize::MAX as usize;
                let case = Case { sized, fallible: how >= 2, lenient, ..PLAIN };
                let failed = r.is_some_and(|r| r.is_err());
                if self.judge(out, failed, case) == Verdict::Ok {
                    let slot = self.slots[i].as_mut().unwrap();
                    slot.promise = slot.promise.max(len + n);
                }
                self.settle(i, unchanged);
                self.requests(reqs, mark);
            }
            SHRINK => {
                let to = (op.b < 128).then_some(many(op.b as usize % 24, 0));
                let slot = self.slots[i].as_mut().unwrap();
                slot.promise = slot.promise.min(to.unwrap_or(0).max(len));
                let c = &mut slot.c;
                let cap = c.cap();
                let (out, _) = call(|| c.shrink(to));
                self.judge(out, false, PLAIN);
                if self.slots[i].as_ref().unwrap().c.cap() < cap {
                    w().stat(St::p_vec_shrink);
                }
                self.settle(i, unchanged);
                self.requests(reqs, mark);
            }
            CONVERT => {
                let slot = self.slots[i].take().unwrap();
                if len == 0 && kind == K_SLICE {
                    w().stat(St::p_zero_capacity_boxed);
                }
                let (c, alloc) = (slot.c, slot.alloc);
                let rc = kind == K_RC;
                let (out, r) = call(move || convert(c, kind));
                if self.judge(out, false, PLAIN) == Verdict::Ok {
                    let mark = if rc { Some(0) } else { mark };
                    self.put(i, r.unwrap(), pre, mark, 0);
                    let new = self.slots[i].as_mut().unwrap();
                    if let (Some(old), Some(now), false) = (alloc, new.alloc, rc) {
                        if old != now {
                            soft(Class::MARKER, || {
                                format!("storage went from allocator {old} to {now}")
                            });
                        }
                    }
                }
                self.again = false;
                self.requests(reqs, if rc { Some(0) } else { mark });
            }
            CLONE => {
                if i == j {
                    return;
                }
                self.vacate(j);
                self.floor = w().vals.recs.len() as u32;
                let c = &self.slots[i].as_ref().unwrap().c;
                let (out, r) = call(|| c.clone_seq());
                let new_mark = mark.filter(|&m| m == 0);
                if self.judge(out, false, PLAIN) == Verdict::Ok {
                    let want = pre.iter().map(|e| (0, e.1)).collect();
                    self.put(j, r.unwrap(), want, new_mark, 0);
                    if need.is_some() {
                        self.stays(j, len);
                    }
                }
                self.settle(i, unchanged);
                self.requests(reqs, new_mark);
            }
            INTO_ITER => self.into_iter(i, op),
            DRAIN => self.drain(i, op, kind),
            DROP => {
                let slot = self.slots[i].take().unwrap();
                let single = matches!(slot.c.kind(), K_BOX | K_RC);
                let (out, _) = call(move || drop(slot.c));
                if self.judge(out, false, PLAIN) != Verdict::Ok {
                    // The only value is the one that panicked.
                    self.lossy = !single;
                }
                self.again = false;
            }
            LEAK => {
                let slot = self.slots[i].take().unwrap();
                let serial = if std::mem::size_of::<T>() > 0 && slot.c.cap() > 0 {
                    w().heap.live_block(slot.c.ptr() as usize)
                } else {
                    0
                };
                let c = slot.c;
                self.lossy = true;
                w().stat(St::f_container_leaked);
                if v & 1 == 0 {
                    if let Some(b) = w().heap.by_serial(serial) {
                        b.leaked = true;
                    }
                    let (out, r) = call(move || leak(c));
                    if self.judge(out, false, PLAIN) == Verdict::Ok {
                        let r = r.unwrap();
                        let got = snap(r, "leaked element");
                        if got != pre {
                            soft(Class::CONTENT, || {
                                format!("leaked {}, should be {}", show(&got), show(&pre))
                            });
                        }
                        if serial != 0 && w().heap.live_block(r.as_ptr() as usize) != serial
                            && !r.is_empty()
                        {
                            soft(Class::CAP, || "leaked slice is not in the storage".into());
                        }
                    }
                } else {
                    let (out, _) = call(move || dealloc(c));
                    self.judge(out, false, PLAIN);
                    if T::TRACKED
                        && pre.iter().any(|e| {
                            w().vals.get(e.0).is_some_and(|r| r.state == State::Dropped)
                        })
                    {
                        soft(Class::EDROP, || "an element was dropped".into());
                    }
                    if T::COUNTED && !T::TRACKED && w().vals.zst_alive < pre.len() as isize {
                        soft(Class::EDROP, || "an element was dropped".into());
                    }
                }
            }
            TO_STACK => {
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let fits = len <= c.inline().unwrap();
                let (out, r) = call(|| c.to_stack());
                let refused = r.is_some_and(|r| r.is_err());
                let slot = self.slots[i].as_mut().unwrap();
                if out == Outcome::Done {
                    w().disarm();
                    if refused == fits {
                        let n = slot.c.inline().unwrap();
                        soft(Class::RESULT, || {
                            format!("moving {len} elements inline where {n} fit: refused is {refused}")
                        });
                    }
                    if !refused && slot.c.is_heap() {
                        soft(Class::RESULT, || "moved inline but is in the heap".into());
                    }
                    if refused {
                        w().stat(St::p_to_stack_refused);
                    } else {
                        slot.promise = 0;
                        w().stat(St::p_to_stack);
                    }
                } else {
                    self.judge(out, false, PLAIN);
                }
                self.settle(i, unchanged);
                self.requests(reqs, mark);
            }
            TO_HEAP => {
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let size = std::mem::size_of::<T>();
                let add = match op.b {
                    0..=199 => Some(many(op.b as usize % 20, len)),
                    200..=229 => None,
                    b => Some(huge(b - 230, size)),
                };
                let sized = len
                    .checked_add(add.unwrap_or(0))
                    .and_then(|t| t.checked_mul(size))
                    .is_some_and(|t| t <= isize::MAX as usize);
                let lenient = add.is_some_and(|n| n > isize::MAX as usize);
                if !sized {
                    w().stat(St::f_unrepresentable_size);
                }
                let was_heap = c.is_heap();
                let (out, r) = call(|| c.to_heap(add));
                let failed = r.is_some_and(|r| r.is_err());
                let case = Case { sized, lenient, fallible: add.is_some(), ..PLAIN };
                if self.judge(out, failed, case) == Verdict::Ok {
                    let slot = self.slots[i].as_mut().unwrap();
                    // Moving by hand may give up room reserved inline.
                    let kept = if was_heap { slot.promise } else { 0 };
                    slot.promise = kept.max(len + add.unwrap_or(0));
                    if !slot.c.is_heap() {
                        soft(Class::RESULT, || "moved to the heap but is inline".into());
                    }
                    w().stat(St::p_to_heap);
                }
                self.settle(i, unchanged);
                self.requests(reqs, mark);
            }
            INDEX => {
                let at = index(op.b, len);
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let how = op.c % 3;
                let end = index(op.c >> 2 & 255, len);
                let (out, r) = call(|| match how {
                    0 => vec![c.index(at).ident()],
                    1 => vec![c.index_mut(at).ident()],
                    _ => c.index_range(at..end).iter().map(|e| e.ident()).collect(),
                });
                let valid = if how == 2 { at <= end && end <= len } else { at < len };
                if !valid {
                    w().stat(St::f_invalid_index);
                }
                if self.judge(out, false, Case { valid, ..PLAIN }) == Verdict::Ok {
                    let want = if how == 2 { &pre[at..end] } else { &pre[at..at + 1] };
                    let got = r.unwrap();
                    if got != want {
                        soft(Class::RESULT, || {
                            format!("indexing gave {}, should be {}", show(&got), show(want))
                        });
                    }
                }
                self.settle(i, unchanged);
            }
            SPARE => {
                let c = &mut self.slots[i].as_mut().unwrap().c;
                let n = c.cap() - c.len().min(c.cap());
                let (out, r) = call(|| c.spare());
                self.judge(out, false, PLAIN);
                if let Some(r) = r {
                    if r != (n, n, n) {
                        soft(Class::CAP, || format!("spare places are {r:?}, should be {n}"));
                    }
                }
                self.settle(i, unchanged);
            }
            UNBOX => {
                let slot = self.slots[i].take().unwrap();
                let c = slot.c;
                let (out, r) = call(move || into_inner(c));
                if self.judge(out, false, PLAIN) == Verdict::Ok {
                    self.returned(r, Some(pre[0]));
                }
                self.again = false;
            }
            MUTATE => {
                // Replace or exchange elements in place.
                let slot = self.slots[i].as_mut().unwrap();
                if slot.c.kind() == K_RC || len == 0 {
                    return;
                }
                let (a, b) = (op.b as usize % len, op.c as usize % len);
                let mut want = pre;
                if v & 1 == 0 {
                    slot.c.slice_mut().swap(a, b);
                    want.swap(a, b);
                } else {
                    let (mut e, ids) = self.items(op.c, 1);
                    let slot = self.slots[i].as_mut().unwrap();
                    let e = e.pop().unwrap();
                    let (out, _) = call(|| slot.c.slice_mut()[a] = e);
                    self.lossy = out != Outcome::Done;
                    want[a] = ids[0];
                }
                w().disarm();
                self.settle(i, Want::Exact(want));
            }
            COMPARE => self.compare(op, i, j, kind, v),
            _ => unreachable!(),
        }
        if let Some(n) = need {
            self.stays(i, n);
        }
        self.accounts();
    }

    /// Check that a container which never needed room for more than this many is inline, if they
    /// fit so.
    fn stays(&self, i: usize, need: usize) {
        let Some(slot) = &self.slots[i] else { return };
        let Some(n) = slot.c.inline() else { return };
        if need <= n && slot.c.is_heap() {
            soft(Class::CAP, || format!("went to the heap for {need} elements where {n} fit inline"));
        }
    }

    /// Ask whether it equals another one, which is first, how it hashes and looks.
    fn compare(&mut self, op: &Op, i: usize, j: usize, kind: u16, v: u16) {
        let mut a = self.slots[i].take().unwrap();
        let k = a.c.kind();
        let single = k == K_BOX || k == K_RC;
        // What to compare with: another one if it is of the same type, or an altered copy.
        let mut copy = None;
        if a.c.growable() && (op.b & 3 != 0 || self.slots[j].is_none()) {
            let w = w();
            let fault = std::mem::replace(&mut w.th().fault, Fault::None);
            let mut c = a.c.clone_seq();
            let len = c.len();
            match v {
                0 if len > 0 => drop(c.pop()),
                1 => c.push(T::make(self.key(op.c, 0))),
                2 | 3 if len > 0 => {
                    c.slice_mut()[op.b as usize % len] = T::make(self.key(op.c, 0))
                }
                4 if len > 1 => c.slice_mut().swap(0, op.b as usize % len),
                _ => {}
            }
            if c.inline().is_some() {
                match op.b >> 2 & 3 {
                    0 => drop(c.to_heap(None)),
                    1 => drop(c.to_stack()),
                    _ => {}
                }
            }
            w.th().fault = fault;
            copy = Some(c);
        }
        let plainly = |s: &[T]| -> Vec<Plainly> {
            snap(s, "compared element").iter().map(|id| T::plainly(*id)).collect()
        };
        let ka = plainly(a.c.slice());
        let how = kind % 8;
        // Some keys are like NaN, unless all have to be comparable.
        let odd = T::TRACKED && op.c & 3 == 0 && how != cmp::CMP;
        let what = KIND_NAMES[k as usize];
        if op.c >> 2 & 3 == 0 {
            let style = op.b % cmp::STYLES;
            let (out, r) = call(|| a.c.looks(style));
            if self.judge_compare(out) {
                let want = Looks {
                    hash: T::digest(&ka, single),
                    debug: if single { cmp::debug(&ka[0], style) } else { cmp::debug(&ka, style) },
                    display: if single { T::plain_display(ka[0], style) } else { String::new() },
                };
                let got = r.unwrap();
                if got != want {
                    soft(Class::COMPARE, || {
                        format!("{what}: {}, should be {}", got.show(), want.show())
                    });
                }
                let spot = (a.c.ptr() as usize, a.m.len());
                if a.c.borrows().iter().any(|b| *b != spot) {
                    soft(Class::COMPARE, || format!("{what} is borrowed as something else"));
                }
            }
        } else {
            let (other, kb) = match &mut copy {
                Some(c) => {
                    let kb = plainly(c.slice());
                    (Some(c.any()), kb)
                }
                None => match self.slots[j].as_mut() {
                    Some(s) => {
                        let kb = plainly(s.c.slice());
                        (Some(s.c.any()), kb)
                    }
                    None => (None, vec![]),
                },
            };
            if let Some(other) = other {
                cmp::set_unordered(odd);
                let (out, r) = call(|| a.c.ask(other, how));
                let want = if single {
                    kb.first().map_or(0, |b| cmp::ask(&ka[0], b, how))
                } else {
                    cmp::ask(&ka[..], &kb[..], how)
                };
                cmp::set_unordered(false);
                if r != Some(None) && self.judge_compare(out) && r.flatten() != Some(want) {
                    soft(Class::COMPARE, || {
                        let name = cmp::HOW_NAMES[how as usize];
                        format!("{what}: {name} of {ka:?} and {kb:?} is {r:?}, should be {want}")
                    });
                }
            }
        }
        w().disarm();
        drop(copy);
        let m = a.m.clone();
        self.slots[i] = Some(a);
        self.settle(i, Want::Exact(m));
        if let Some(s) = &self.slots[j] {
            let m = s.m.clone();
            self.settle(j, Want::Exact(m));
        }
    }

    /// A box of an iterator or hasher is one.
    fn box_forward(&mut self, op: &Op) {
        w().real_ops += 1;
        let n = op.b as usize % 9;
        let keys: Vec<u32> = (0..n).map(|k| self.key(op.c, k)).collect();
        let mut steps = mix(op.c as u64 ^ (op.b as u64) << 32);
        if op.a & 1 == 0 {
            let mut plain = keys.clone().into_iter();
            let (out, r) = call(|| lokky::boxed::Box::new(keys.into_iter()));
            let case = PLAIN;
            if self.judge(out, false, case) != Verdict::Ok {
                return;
            }
            let mut b = r.unwrap();
            for _ in 0..12 {
                let k = (steps >> 3) as usize % 4;
                let (got, want) = match steps & 7 {
                    0 | 1 => (b.next(), plain.next()),
                    2 | 3 => (b.next_back(), plain.next_back()),
                    4 => (b.nth(k), plain.nth(k)),
                    5 => (b.nth_back(k), plain.nth_back(k)),
                    6 => (b.by_ref().last(), plain.by_ref().last()),
                    _ => (Some(b.len() as u32), Some(plain.len() as u32)),
                };
                if got != want || b.size_hint() != plain.size_hint() {
                    soft(Class::COMPARE, || {
                        format!("boxed iterator gives {got:?}, should be {want:?}, or size hints differ")
                    });
                }
                steps = mix(steps);
            }
        } else {
            let mut plain = cmp::Bytes::default();
            let (out, r) = call(|| lokky::boxed::Box::new(cmp::Bytes::default()));
            if self.judge(out, false, PLAIN) != Verdict::Ok {
                return;
            }
            let mut b = r.unwrap();
            for k in &keys {
                use std::hash::{Hash, Hasher};
                match k % 3 {
                    0 => (k.hash(&mut b), k.hash(&mut plain)),
                    1 => ((*k as u8).hash(&mut b), (*k as u8).hash(&mut plain)),
                    _ => (b.write(&k.to_le_bytes()[..3]), plain.write(&k.to_le_bytes()[..3])),
                };
                if b.finish() != plain.finish() {
                    soft(Class::COMPARE, || "boxed hasher finishes otherwise".into());
                }
            }
            if *b != plain {
                soft(Class::COMPARE, || "boxed hasher was fed otherwise".into());
            }
        }
    }

    /// Only a panic of the elements may pass.
    fn judge_compare(&mut self, out: Outcome) -> bool {
        if out == Outcome::Panicked {
            let msg = w().last_panic.clone();
            soft(Class::COMPARE, || format!("panic: {msg}"));
        }
        if out == Outcome::Done && w().th().fired_panic {
            soft(Class::PANIC, || "panic of user code did not propagate".into());
        }
        out == Outcome::Done
    }

    /// Use of the pointer all the containers are made of.
    fn raw(&mut self, op: &Op, v: u16, reqs: usize) {
        w().real_ops += 1;
        let m = op.c % 4;
        let sel = AllocSelector::with_marker::<T>(marker(m));
        let refused = Cell::new(false);
        let reqs = reqs.max(w().heap.reqs.len());
        let (out, _) = if v & 1 == 0 {
            let (mut e, ids) = self.items(op.c, 1);
            let e = e.pop().unwrap();
            let id = ids[0];
            call(|| {
                let p = match ScopePtr::alloc(e, sel) {
                    Ok(p) => p,
                    Err(_) => return refused.set(true),
                };
                let same = |v: &T| {
                    v.check("value");
                    if v.ident() != id {
                        soft(Class::CONTENT, || format!("value is {:?}, should be {id:?}", v.ident()));
                    }
                };
                same(&p);
                if p.marker() != marker(m) || p.alloc_selector() != sel {
                    soft(Class::MARKER, || "pointer tells another selector".into());
                }
                match op.b % 6 {
                    0 => drop(p),
                    1 => same(&p.into_inner()),
                    2 => {
                        let p = unsafe { p.cast::<MaybeUninit<T>>() };
                        let p = unsafe { p.cast::<T>() };
                        same(&p);
                    }
                    3 => {
                        let p = unsafe { p.cast_to_slice(1) };
                        if p.len() != 1 || p.marker() != marker(m) {
                            soft(Class::CAP, || "slice of one value is not".into());
                        }
                        same(&p[0]);
                    }
                    4 => {
                        let copy = unsafe { p.clone() };
                        p.forget();
                        same(&copy);
                    }
                    _ => {
                        let mut p = ManuallyDrop::new(p);
                        let e = unsafe { std::ptr::read(&**p) };
                        unsafe { p.dealloc() };
                        same(&e);
                    }
                }
            })
        } else {
            call(|| {
                let n = (op.b % 6) as usize;
                let p = match ScopePtr::<[T]>::alloc_array_uninit(n, sel) {
                    Ok(p) => p,
                    Err(_) => return refused.set(true),
                };
                // Destructors of elements may panic.
                let mut guard = FreeRaw(Some(ManuallyDrop::new(p)));
                let p = guard.0.as_mut().unwrap();
                let mut held: Vec<Id> = vec![];
                let mut size = n;
                for step in 0..3 {
                    if p.len() != size || p.marker() != marker(m) {
                        soft(Class::CAP, || format!("length is {}, should be {size}", p.len()));
                        return;
                    }
                    while held.len() < size {
                        let e = T::make(self.key(op.c, held.len()));
                        held.push(e.ident());
                        unsafe { p.as_mut_ptr().add(held.len() - 1).write(e) };
                    }
                    let to = (op.c >> (3 * step + 2)) as usize % 8;
                    let mut rest = vec![];
                    while held.len() > to {
                        held.pop();
                        rest.push(unsafe { p.as_ptr().add(held.len()).read() });
                    }
                    let done = unsafe { p.realloc_array(to) }.is_ok();
                    if done {
                        size = to;
                    }
                    if p.len() != size {
                        soft(Class::CAP, || format!("length is {}, should be {size}", p.len()));
                        return;
                    }
                    let got = snap(&p[..held.len()], "array");
                    if got != held {
                        soft(Class::CONTENT, || {
                            format!("array is {}, should be {}", show(&got), show(&held))
                        });
                    }
                    if !done {
                        // It is as before.
                        let mut at = held.len();
                        while let Some(e) = rest.pop() {
                            unsafe { p.as_mut_ptr().add(at).write(e) };
                            at += 1;
                        }
                        refused.set(true);
                        break;
                    }
                }
                let full = p.len();
                if refused.get() || held.len() == full && v & 2 == 0 {
                    drop(ManuallyDrop::into_inner(guard.0.take().unwrap()));
                } else {
                    for i in 0..held.len() {
                        drop(unsafe { p.as_ptr().add(i).read() });
                    }
                }
            })
        };
        self.lossy = out != Outcome::Done;
        self.judge(out, refused.get(), Case { fallible: true, ..PLAIN });
        self.again = false;
        self.requests(reqs, Some(m));
        self.accounts();
    }

    fn settle_added(&mut self, i: usize, verdict: Verdict, base: Vec<Id>, added: Vec<Id>, _: &Op) {
        if verdict == Verdict::Ok {
            let mut want = base;
            want.extend(added);
            self.settle(i, Want::Exact(want));
        } else {
            self.settle(i, Want::Prefix(base, added));
        }
    }

    fn feed<'a>(&self, src: Vec<T>, op: &Op, given: &'a Cell<usize>) -> Feed<'a, T> {
        let n = src.len();
        let r = mix(op.c as u64 + 5);
        let lower = match r % 16 {
            0..=3 => 0,
            4..=7 => n / 2,
            // It may lie.
            8 => n + 3,
            _ => n,
        };
        let upper = match r >> 8 & 7 {
            0 | 1 => None,
            2 => Some(3),
            3 => Some(usize::MAX),
            _ => Some(0),
        };
        Feed { items: src.into(), lower, upper, given }
    }

    fn make(&mut self, op: &Op, i: usize, kind: u16, v: u16, reqs: usize) {
        self.vacate(i);
        w().real_ops += 1;
        let size = std::mem::size_of::<T>();
        let reqs = reqs.max(w().heap.reqs.len());
        match op.code {
            NEW => {
                let how = v % 7;
                let m = op.c % 4;
                let mark = if matches!(how, 1 | 3 | 5) { m } else { 0 };
                let cap = match op.b {
                    0..=239 => many(op.b as usize % 20, 0),
                    b => huge(b - 240, size),
                };
                let (out, r) = call(|| construct::<T>(kind, how, cap, marker(m)));
                let uses_cap = (2..6).contains(&how);
                let sized = !uses_cap
                    || cap.checked_mul(size).is_some_and(|t| t <= isize::MAX as usize);
                if !sized {
                    w().stat(St::f_unrepresentable_size);
                }
                let lenient = cap > isize::MAX as usize;
                let case = Case { sized, fallible: how >= 4, lenient, ..PLAIN };
                let failed = matches!(r, Some(Err(_)));
                match (self.judge(out, failed, case), r) {
                    (Verdict::Ok, Some(Ok(c))) => {
                        let n = if uses_cap { cap } else { 0 };
                        self.put(i, c, vec![], Some(mark), n);
                        self.stays(i, n);
                    }
                    // Containers of impossible size are not to be touched.
                    (_, r) => std::mem::forget(r),
                }
                self.requests(reqs, Some(mark));
            }
            FROM_ARRAY => {
                let n = ARRAY_LENS[op.b as usize % 5];
                let (src, ids) = self.items(op.c, n);
                let (out, r) = call(|| from_array::<T>(kind, src));
                if self.judge(out, false, PLAIN) == Verdict::Ok {
                    self.put(i, r.unwrap(), ids, Some(0), 0);
                    self.stays(i, n);
                }
                self.requests(reqs, Some(0));
            }
            FROM_SLICE => {
                let n = many(op.b as usize % 12, 0);
                let (mut src, ids) = self.items(op.c, n);
                self.floor = w().vals.recs.len() as u32;
                let (out, r) = call(|| from_slice::<T>(kind, &mut src, v & 1 == 1));
                let verdict = self.judge(out, false, PLAIN);
                if snap(&src, "source") != ids {
                    soft(Class::CONTENT, || "source of the clones was changed".into());
                }
                drop(src);
                if verdict == Verdict::Ok {
                    let want = ids.iter().map(|e| (0, e.1)).collect();
                    self.put(i, r.unwrap(), want, Some(0), 0);
                    self.stays(i, n);
                }
                self.requests(reqs, Some(0));
            }
            FROM_ITER => {
                let n = many(op.b as usize % 12, 0);
                let (src, ids) = self.items(op.c, n);
                let given = Cell::new(0);
                let mut feed = self.feed(src, op, &given);
                let (out, r) = call(|| from_iter::<T>(kind, &mut feed));
                let verdict = self.judge(out, false, PLAIN);
                drop(feed);
                if verdict == Verdict::Ok {
                    self.put(i, r.unwrap(), ids, Some(0), 0);
                }
                self.requests(reqs, Some(0));
            }
            _ => {
                let (mut e, ids) = self.items(op.c, 1);
                let e = e.pop().unwrap();
                let m = (v & 1 == 1).then_some(op.b % 4);
                let (out, r) = call(|| new_box(e, m.map(marker)));
                if self.judge(out, false, PLAIN) == Verdict::Ok {
                    self.put(i, r.unwrap(), ids, Some(m.unwrap_or(0)), 0);
                }
                self.requests(reqs, Some(m.unwrap_or(0)));
            }
        }
        self.accounts();
    }

    fn append(&mut self, i: usize, j: usize, reqs: usize) {
        if i == j || self.slots[j].is_none() {
            return;
        }
        let mut a = self.slots[i].take().unwrap();
        let mut b = self.slots[j].take().unwrap();
        // Repeated doubling would take all the memory.
        if a.m.len() + b.m.len() <= 1 << 17 && a.c.same_type(b.c.any()) {
            let (pa, pb, mark) = (a.m.clone(), b.m.clone(), a.marker);
            let (out, _) = call(|| a.c.append(b.c.any()));
            self.slots[i] = Some(a);
            self.slots[j] = Some(b);
            if self.judge(out, false, PLAIN) == Verdict::Ok {
                let mut want = pa;
                want.extend(pb);
                self.settle(i, Want::Exact(want));
                self.settle(j, Want::Exact(vec![]));
            } else {
                // May have moved some of them.
                let n = self.slots[i].as_ref().unwrap().c.len();
                let moved = n.saturating_sub(pa.len()).min(pb.len());
                let mut want = pa;
                want.extend_from_slice(&pb[..moved]);
                self.settle(i, Want::Exact(want));
                self.settle(j, Want::Exact(pb[moved..].to_vec()));
            }
            self.requests(reqs, mark);
        } else {
            self.slots[i] = Some(a);
            self.slots[j] = Some(b);
        }
    }

    fn clone_from(&mut self, i: usize, j: usize, reqs: usize) {
        if i == j || self.slots[j].is_none() {
            return;
        }
        let mut a = self.slots[i].take().unwrap();
        let mut b = self.slots[j].take().unwrap();
        if !a.c.same_type(b.c.any()) {
            self.slots[i] = Some(a);
            self.slots[j] = Some(b);
            return;
        }
        let clones: Vec<Id> = b.m.iter().map(|e| (0, e.1)).collect();
        let (old, source) = (a.m.clone(), b.m.clone());
        self.floor = w().vals.recs.len() as u32;
        // Whose marker it has later is not told.
        let mark = a.marker.filter(|&m| m == 0 && b.marker == Some(0));
        let (out, _) = call(|| a.c.clone_from_seq(b.c.any()));
        a.marker = mark;
        a.promise = 0;
        a.alloc = None;
        self.slots[i] = Some(a);
        self.slots[j] = Some(b);
        if self.judge(out, false, PLAIN) == Verdict::Ok {
            self.settle(i, Want::Exact(clones));
        } else {
            self.lossy = true;
            let mut pool = old;
            pool.extend(clones);
            self.settle(i, Want::Some(pool));
        }
        self.settle(j, Want::Exact(source));
        self.requests(reqs, mark);
    }

    /// Returns what remains, in case of a panic too, and whether it was an ordinary one.
    fn script(&self, op: &Op, all: Vec<Id>, phase: &Cell<u8>, it: &mut dyn Walk<T>) -> Finish {
        let mut rest: VecDeque<Id> = all.into();
        let mut r = Rng::new(mix(op.c as u64 + 3));
        let steps = r.below(14);
        let finish = r.below(18);
        // Yielded elements which are dropped later.
        let mut kept: Vec<T> = vec![];
        let got = |this: &Self, v: Option<T>, want: Option<Id>, kept: &mut Vec<T>, keep: bool| {
            if let Some(v) = &v {
                v.check("yielded element");
            }
            let id = v.as_ref().map(|v| v.ident());
            let same = match (id, want) {
                (None, None) => true,
                (Some(g), Some(w)) => this.matches(&[w], &[g]),
                _ => false,
            };
            if !same {
                soft(Class::ITER, || format!("yielded {id:?}, should be {want:?}"));
            }
            if keep {
                kept.extend(v);
            }
        };
        let sizes = |it: &dyn Walk<T>, n: usize| {
            if it.size_hint() != (n, Some(n)) || it.len() != n {
                let h = it.size_hint();
                soft(Class::ITER, || format!("size hint is {h:?}, {n} remain"));
            }
        };
        for _ in 0..steps {
            sizes(it, rest.len());
            let keep = r.chance(1, 2);
            phase.set(0);
            let skip = |r: &mut Rng, rest: usize| match r.below(16) {
                0 => rest,
                1 => rest.saturating_sub(1),
                2 => rest + 1,
                3 => usize::MAX,
                4 => usize::MAX / 2 + 1,
                5 => rest / 2,
                n => n as usize % 3,
            };
            match r.below(14) {
                0..=4 => {
                    let v = it.next();
                    got(self, v, rest.pop_front(), &mut kept, keep);
                }
                5..=8 => {
                    let v = it.next_back();
                    got(self, v, rest.pop_back(), &mut kept, keep);
                }
                9 => {
                    let n = skip(&mut r, rest.len());
                    phase.set(1);
                    let v = it.nth(n);
                    phase.set(0);
                    rest.drain(..n.min(rest.len()));
                    got(self, v, rest.pop_front(), &mut kept, keep);
                }
                10 => {
                    let n = skip(&mut r, rest.len());
                    phase.set(1);
                    let v = it.nth_back(n);
                    phase.set(0);
                    rest.truncate(rest.len().saturating_sub(n));
                    got(self, v, rest.pop_back(), &mut kept, keep);
                }
                11 => {
                    // Some of them, by a closure which may panic.
                    let n = r.below(4) as usize;
                    let back = r.chance(1, 2);
                    let mut given = 0;
                    let mut f = |v: T| {
                        fault_point(P_CALL);
                        given += 1;
                        let want = if back { rest.pop_back() } else { rest.pop_front() };
                        // It is not dropped here.
                        got(self, Some(v), want, &mut kept, true);
                        given <= n
                    };
                    if back {
                        it.back_until(&mut f);
                    } else {
                        it.until(&mut f);
                    }
                    if given <= n && !rest.is_empty() {
                        soft(Class::ITER, || format!("stopped after {given}, not {}", n + 1));
                    }
                }
                _ => {
                    if let Some(s) = it.rest_mut() {
                        if s.len() > 1 && s.len() == rest.len() {
                            let (a, b) = (r.below(s.len() as u32) as usize, s.len() - 1);
                            s.swap(a, b);
                            rest.swap(a, b);
                        }
                    }
                    let now = snap(it.rest(), "remaining element");
                    if rest != now {
                        soft(Class::ITER, || {
                            format!(
                                "{} remain, should be {}",
                                show(&now),
                                show(rest.make_contiguous())
                            )
                        });
                    }
                }
            }
        }
        sizes(it, rest.len());
        let ending = match finish {
            0..=5 => Finish::Drop,
            6 | 7 => Finish::Forget,
            8 | 9 => {
                let back = finish == 9;
                while !rest.is_empty() {
                    let (v, want) = if back {
                        (it.next_back(), rest.pop_back())
                    } else {
                        (it.next(), rest.pop_front())
                    };
                    got(self, v, want, &mut kept, false);
                    sizes(it, rest.len());
                }
                for k in 0..4 {
                    let v = if k % 2 == 0 { it.next() } else { it.next_back() };
                    got(self, v, None, &mut kept, true);
                    sizes(it, 0);
                }
                Finish::Drop
            }
            10 | 11 => {
                phase.set(1);
                let n = it.count();
                phase.set(0);
                if n != rest.len() {
                    let want = rest.len();
                    soft(Class::ITER, || format!("counted {n}, should be {want}"));
                }
                Finish::Drop
            }
            12 | 13 => {
                let mut all = vec![];
                it.fold(&mut |v| {
                    v.check("yielded element");
                    fault_point(P_CALL);
                    all.push(v.ident());
                    kept.push(v);
                });
                if !self.matches(rest.make_contiguous(), &all) {
                    soft(Class::ITER, || format!("folded over {}", show(&all)));
                }
                Finish::Drop
            }
            14 => {
                let mut all = vec![];
                it.rfold(&mut |v| {
                    v.check("yielded element");
                    fault_point(P_CALL);
                    all.push(v.ident());
                    kept.push(v);
                });
                all.reverse();
                if !self.matches(rest.make_contiguous(), &all) {
                    soft(Class::ITER, || format!("folded over {} from the end", show(&all)));
                }
                Finish::Drop
            }
            15 => {
                phase.set(1);
                let v = it.last();
                phase.set(0);
                got(self, v, rest.pop_back(), &mut kept, true);
                Finish::Drop
            }
            _ => {
                let all = it.collect();
                let ids = snap(&all, "yielded element");
                if !self.matches(rest.make_contiguous(), &ids) {
                    soft(Class::ITER, || format!("collected {}", show(&ids)));
                }
                kept.extend(all);
                Finish::Drop
            }
        };
        if ending == Finish::Drop && !it.rest().is_empty() {
            w().stat(St::f_iter_abandoned);
        }
        // Destructors of these are called before the one of the iterator.
        drop(kept);
        phase.set(2);
        if ending == Finish::Forget {
            phase.set(3);
        }
        ending
    }

    fn into_iter(&mut self, i: usize, op: &Op) {
        w().uses_iter();
        self.iter = true;
        let slot = self.slots[i].take().unwrap();
        let pre = slot.m.clone();
        let serial = if std::mem::size_of::<T>() > 0 && slot.c.cap() > 0 {
            w().heap.live_block(slot.c.ptr() as usize)
        } else {
            0
        };
        let phase = Cell::new(0);
        let c = slot.c;
        let (out, _) = {
            let this = &*self;
            let phase = &phase;
            call(move || {
                into_iter(c, &mut |it| {
                    let f = this.script(op, pre.clone(), phase, it);
                    if f == Finish::Forget {
                        if let Some(b) = w().heap.by_serial(serial) {
                            b.leaked = true;
                        }
                    }
                    f
                })
            })
        };
        let verdict = self.judge(out, false, PLAIN);
        // Elements may be lost when it is leaked, or when one of several dropped at once panics.
        self.lossy = phase.get() == 3 || verdict != Verdict::Ok && phase.get() > 0;
        if phase.get() == 3 {
            w().stat(St::f_container_leaked);
        }
    }

    fn drain(&mut self, i: usize, op: &Op, style: u16) {
        w().uses_iter();
        self.iter = true;
        let mut slot = self.slots[i].take().unwrap();
        let pre = slot.m.clone();
        let len = pre.len();
        let a = index(op.b & 255, len + 1);
        let b = if op.b >> 8 < 200 {
            a.saturating_add((op.b >> 8) as usize % (len.saturating_sub(a).max(1) + 1))
        } else {
            index(op.b >> 8, len + 1)
        };
        // Range as given, then as is meant, if it can be.
        let (range, start, end): (Range, Option<usize>, Option<usize>) = match style % 7 {
            0 => ((Bound::Included(a), Bound::Excluded(b)), Some(a), Some(b)),
            1 => ((Bound::Unbounded, Bound::Unbounded), Some(0), Some(len)),
            2 => ((Bound::Included(a), Bound::Unbounded), Some(a), Some(len)),
            3 => ((Bound::Unbounded, Bound::Excluded(b)), Some(0), Some(b)),
            4 => ((Bound::Included(a), Bound::Included(b)), Some(a), b.checked_add(1)),
            5 => ((Bound::Excluded(a), Bound::Included(b)), a.checked_add(1), b.checked_add(1)),
            _ => ((Bound::Excluded(a), Bound::Unbounded), a.checked_add(1), Some(len)),
        };
        let valid = match (start, end) {
            (Some(s), Some(e)) => s <= e && e <= len,
            _ => false,
        };
        if !valid {
            w().stat(St::f_invalid_index);
        }
        let mid = if valid { pre[start.unwrap()..end.unwrap()].to_vec() } else { vec![] };
        let phase = Cell::new(0);
        let started = Cell::new(false);
        let (out, _) = {
            let this = &*self;
            call(|| {
                slot.c.drain(range, &mut |it| {
                    started.set(true);
                    this.script(op, mid.clone(), &phase, it)
                })
            })
        };
        self.slots[i] = Some(slot);
        let verdict = self.judge(out, false, Case { valid, ..PLAIN });
        if !valid && verdict == Verdict::Failed {
            self.settle(i, Want::Exact(pre));
            return;
        }
        let exact = verdict == Verdict::Ok && phase.get() != 3
            || verdict == Verdict::Failed && phase.get() == 0 && started.get();
        if exact && valid {
            let mut want = pre[..start.unwrap()].to_vec();
            want.extend_from_slice(&pre[end.unwrap()..]);
            self.settle(i, Want::Exact(want));
        } else {
            if phase.get() == 3 {
                w().stat(St::f_drain_leaked);
            }
            self.lossy = true;
            self.settle(i, Want::Some(pre));
        }
    }
}

fn engine<T: Elem>() {
    let plan_ops = w().plan.ops.clone();
    let keys = match w().plan.cfg[1] {
        0 => 4,
        1 => 8,
        _ => 200,
    };
    let mut e: Eng<T> = Eng {
        slots: [const { None }; SLOTS],
        floor: 1,
        lossy: false,
        iter: false,
        again: false,
        keys,
    };
    for (n, op) in plan_ops.iter().enumerate() {
        w().arm(n, op.fault);
        e.exec(op);
        w().disarm();
        if e.again && matches!(op.fault, Fault::Alloc { .. }) {
            // There is memory now.
            w().arm(n, Fault::None);
            e.exec(op);
            w().disarm();
            w().stat(St::p_retry_ok);
        }
    }
    w().arm(usize::MAX, Fault::None);
    for i in 0..SLOTS {
        e.lossy = false;
        e.vacate(i);
    }
    w().arm(usize::MAX - 1, Fault::None);
    heap::final_checks();
}

pub fn run() {
    match w().plan.cfg[0] {
        0 => engine::<Plain>(),
        1 => engine::<u8>(),
        2 => engine::<Zst>(),
        3 => engine::<Large>(),
        _ => engine::<Aligned>(),
    }
}

fn op(code: u8, a: u16, b: u16, c: u16) -> Op {
    Op { t: 0, code, a, b, c, fault: Fault::None }
}

pub fn gen(prop: usize, scen: usize, rng: &mut Rng, plan: &mut Plan) {
    plan.cfg[0] = [0, 0, 0, 1, 2, 2, 3, 4][rng.below(8) as usize];
    plan.cfg[1] = rng.weighted(&[3, 1, 3]) as u16;
    plan.cfg[2] = rng.chance(1, 40) as u16;
    if plan.cfg[0] == 1 && rng.chance(1, 150) {
        // Lengths do not fit 16 bits.
        plan.cfg[2] = 2;
    }
    if scen == plan::BOX {
        // Without identity little is to be seen here.
        plan.cfg[0] = [0, 0, 0, 2, 3, 4, 4, 1][rng.below(8) as usize];
    }
    let kinds: &[u16] = match scen {
        VEC => &[K_VEC],
        SMALLVEC => &[K_S0, K_S1, K_S2, K_S3, K_S3, K_S8, K_S20],
        _ => &[K_VEC, K_VEC, K_S1, K_S3],
    };
    let main_kind = match kinds[rng.below(kinds.len() as u32) as usize] {
        // There are enough elements to outgrow it.
        K_S20 if plan.cfg[2] == 1 => K_S300,
        K_S8 if plan.cfg[2] == 1 => K_S300,
        k => k,
    };
    let any = rng.chance(1, 4);

    // Weights of the operations.
    let mut wt = [0u32; 38];
    let base: &[(u8, u32)] = &[
        (NEW, 6), (PUSH, 14), (POP, 5), (INSERT, 7), (REMOVE, 5), (SWAP_REMOVE, 4), (TRUNCATE, 3),
        (CLEAR, 1), (EXTEND_SLICE, 6), (EXTEND_ITER, 6), (APPEND, 5), (RESIZE, 4),
        (RESIZE_WITH, 4), (RETAIN, 4), (DEDUP, 4), (SPLIT_OFF, 5), (RESERVE, 6), (SHRINK, 5),
        (CONVERT, 6), (CLONE, 3), (FROM_ARRAY, 3), (FROM_SLICE, 2), (FROM_ITER, 3), (INTO_ITER, 2),
        (DRAIN, 4), (DROP, 2), (LEAK, 1), (TO_STACK, 6), (TO_HEAP, 5), (INDEX, 3), (SPARE, 2),
        (BOX, 0), (UNBOX, 0), (MUTATE, 2), (RAW, 0), (COMPARE, 1),
        (CLONE_FROM, 3),
    ];
    for &(c, n) in base {
        wt[c as usize] = n;
    }
    if scen == VEC {
        wt[TO_STACK as usize] = 1;
        wt[TO_HEAP as usize] = 1;
    }
    if scen == plan::BOX {
        for c in [POP, INSERT, REMOVE, SWAP_REMOVE, APPEND, RETAIN, DEDUP, SPLIT_OFF, RESIZE_WITH] {
            wt[c as usize] = 1;
        }
        wt[DRAIN as usize] = 0;
        wt[INTO_ITER as usize] = 1;
        wt[BOX as usize] = 14;
        wt[UNBOX as usize] = 8;
        wt[RAW as usize] = 10;
        wt[CONVERT as usize] = 22;
        wt[DROP as usize] = 6;
    }
    // Chances of faults, in 1/100.
    let (mut refuse, mut panic) = (12, 0);
    match prop {
        props::C12 => {
            refuse = 14;
            panic = 10;
        }
        props::C13 => refuse = 45,
        props::C11 => {
            refuse = 16;
            panic = 12;
        }
        props::C17 => {
            refuse = 5;
            panic = 45;
            wt[INDEX as usize] = 1;
            for c in [CLONE, FROM_SLICE, FROM_ITER, EXTEND_SLICE, EXTEND_ITER, RESIZE, RETAIN, DEDUP] {
                wt[c as usize] += 3;
            }
        }
        props::C18 => {
            refuse = 3;
            panic = 14;
            wt[DRAIN as usize] = 40;
            wt[INTO_ITER as usize] = 26;
            wt[FROM_ITER as usize] = 8;
            for c in [RETAIN, DEDUP, SPLIT_OFF, RESERVE, SHRINK, TO_STACK, APPEND, CLONE, INDEX] {
                wt[c as usize] /= 2;
            }
        }
        props::C20 => {
            refuse = 30;
            wt[NEW as usize] = 16;
            wt[LEAK as usize] = 0;
        }
        props::C21 => {
            if scen == plan::BOX {
                wt[BOX_FORWARD as usize] = 12;
            }
            refuse = 4;
            panic = 6;
            wt[COMPARE as usize] = 60;
            wt[UNBOX as usize] /= 4;
        }
        _ => {}
    }
    // Swarm: leave out some of the operations.
    if rng.chance(1, 2) {
        for (c, n) in wt.iter_mut().enumerate() {
            if c != NEW as usize && c != PUSH as usize && rng.chance(1, 3) {
                *n = 0;
            }
        }
        if prop == props::C18 {
            wt[DRAIN as usize] = 40;
        }
        if prop == props::C21 && scen != plan::BOX {
            wt[COMPARE as usize] = 60;
        }
    }
    let faults = !rng.chance(1, 5);
    let n = match rng.below(10) {
        _ if crate::plan::long(rng) => 40 + rng.below(120),
        0 => 2 + rng.below(4),
        1..=7 => 4 + rng.below(14),
        _ => 10 + rng.below(30),
    };
    for k in 0..n {
        let code = if k == 0 { NEW } else { rng.weighted(&wt) as u8 };
        let kind = match code {
            CONVERT => {
                if scen == plan::BOX {
                    [K_VEC, K_SLICE, K_SLICE, K_SLICE, K_RC, K_S1, K_S3, K_S0][rng.below(8) as usize]
                } else if scen == SMALLVEC && rng.chance(2, 3) {
                    main_kind
                } else {
                    [K_VEC, K_SLICE, K_SLICE, K_S0, K_S1, K_S3, K_S8, K_S20, K_S2]
                        [rng.below(9) as usize]
                }
            }
            DRAIN => [0, 0, 0, 0, 1, 2, 3, 4, 5, 6][rng.below(10) as usize],
            SPLIT_OFF => 1 + rng.below(7) as u16,
            COMPARE => rng.below(16) as u16,
            _ if any => kinds[rng.below(kinds.len() as u32) as usize],
            _ => main_kind,
        };
        let i = if rng.chance(2, 3) { 0 } else { rng.below(3) as u16 };
        let j = rng.below(3) as u16;
        let v = rng.below(8) as u16;
        let v = if code == NEW && prop == props::C20 { [1, 3, 5, 1, 0, 2][rng.below(6) as usize] } else { v };
        let a = i | j << 2 | kind << 4 | v << 8;
        let big = matches!(code, NEW | RESERVE | TO_HEAP);
        let b = if big && !rng.chance(1, if prop == props::C13 { 5 } else { 12 }) {
            rng.below(240)
        } else if code == DRAIN {
            let hi = if rng.chance(1, 8) { 200 + rng.below(56) } else { rng.below(200) };
            let lo = if rng.chance(1, 8) { 200 + rng.below(56) } else { rng.below(200) };
            lo | hi << 8
        } else if matches!(code, INDEX | REMOVE | SWAP_REMOVE | INSERT | SPLIT_OFF)
            && !rng.chance(1, 8)
        {
            rng.below(200)
        } else {
            rng.below(256)
        };
        let c = rng.below(1 << 14) as u16;
        let mut o = op(code, a, b as u16, c);
        if faults {
            let r = rng.below(100);
            if r < refuse {
                o.fault = Fault::Alloc {
                    nth: [0, 0, 0, 0, 1, 1, 2, 3][rng.below(8) as usize],
                    sticky: rng.chance(1, 3),
                };
            } else if r < refuse + panic {
                let all = [P_CLONE, P_DROP, P_EQ, P_CALL, P_ITER];
                let kind = match code {
                    PUSH | POP | INSERT | REMOVE | SWAP_REMOVE | TRUNCATE | CLEAR | DRAIN
                    | INTO_ITER | DROP | MUTATE => P_DROP,
                    EXTEND_SLICE | FROM_SLICE | CLONE => P_CLONE,
                    CLONE_FROM => [P_CLONE, P_CLONE, P_DROP][rng.below(3) as usize],
                    RESIZE => [P_CLONE, P_DROP][rng.below(2) as usize],
                    EXTEND_ITER | FROM_ITER => P_ITER,
                    RETAIN => [P_CALL, P_DROP][rng.below(2) as usize],
                    RESIZE_WITH => [P_CALL, P_DROP][rng.below(2) as usize],
                    DEDUP => [P_EQ, P_DROP, P_CALL][rng.below(3) as usize],
                    COMPARE => P_EQ,
                    _ => all[rng.below(5) as usize],
                };
                let nth = match rng.below(3) {
                    0 => 0,
                    1 => rng.below(4),
                    _ => rng.below(10),
                };
                o.fault = Fault::Panic { kind, nth: nth as u8 };
            }
        }
        plan.ops.push(o);
    }
}
