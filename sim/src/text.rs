//! Scenario of `String`: histories of operations on a few strings, each compared with the strings
//! of the standard library after every operation.

use crate::cmp;
use crate::heap::{self, marker, marker_index};
use crate::plan::*;
use crate::props::{self, Class};
use crate::rng::{mix, Rng};
use crate::seq::{judge, Case, Verdict, PLAIN};
use crate::stats::St;
use crate::vals::*;
use crate::world::*;
use lokky::string::String as Str;
use lokky::vec::Vec as LVec;
use std::borrow::{Borrow, BorrowMut};
use std::fmt::Write;

pub const OPS: &[&str] = &[
    "new", "from", "push", "push-str", "pop", "clear", "remove", "insert", "insert-str", "truncate",
    "split-off", "retain", "reserve", "shrink", "extend", "clone", "index", "upper", "drop", "write",
    "compare",
];

macro_rules! codes {
    ($($name:ident)*) => { codes!(@ 0u8; $($name)*); };
    (@ $n:expr; $name:ident $($rest:ident)*) => {
        const $name: u8 = $n;
        codes!(@ $n + 1; $($rest)*);
    };
    (@ $n:expr;) => {};
}
codes!(NEW FROM PUSH PUSH_STR POP CLEAR REMOVE INSERT INSERT_STR TRUNCATE SPLIT_OFF RETAIN RESERVE
    SHRINK EXTEND CLONE INDEX UPPER DROP WRITE COMPARE);

const SLOTS: usize = 3;

const CHARS: [char; 20] = [
    'a', 'b', 'Z', '\0', '\u{7f}', '\u{80}', 'é', 'ß', '\u{7ff}', '\u{800}', '€', '한', '\u{d7ff}',
    '\u{e000}', '\u{ffff}', '\u{10000}', '😀', '𝄞', '\u{10ffff}', '\u{301}',
];

struct Slot {
    s: Str,
    m: String,
    marker: Option<u16>,
    promise: usize,
    alloc: Option<u16>,
}

enum Want {
    Exact(String),
    /// This text and some of the pieces.
    Prefix(String, Vec<String>),
    /// Some of the characters of the first text, in order, then all or none of the second.
    Filtered(String, String),
}

struct Eng {
    slots: [Option<Slot>; SLOTS],
    again: bool,
    /// Of how many characters to choose.
    palette: usize,
}

/// Call without faults, in preparation of operation.
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let w = w();
    let fault = std::mem::replace(&mut w.th().fault, Fault::None);
    let r = f();
    w.th().fault = fault;
    r
}

/// Number of characters, in some runs there are many of them.
fn many(n: usize, len: usize) -> usize {
    match w().plan.cfg[1] {
        1 if len < 4_000 => n * 40 + 1,
        _ => n,
    }
}

/// Gives out the pieces.
struct Feed<T> {
    items: std::collections::VecDeque<T>,
    lower: usize,
    upper: Option<usize>,
}

impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        fault_point(P_ITER);
        self.items.pop_front()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        let lower = self.lower.min(n + 5);
        // It may lie.
        (lower, self.upper.map(|u| if u == usize::MAX { lower } else { n + u }))
    }
}

/// Formats as its parts.
struct Parts<'a>(&'a [String], bool);

impl std::fmt::Display for Parts<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for p in self.0 {
            fault_point(P_CALL);
            f.write_str(p)?;
        }
        if self.1 {
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}

fn is_subsequence(sub: &str, of: &str) -> bool {
    let mut of = of.chars();
    sub.chars().all(|c| of.any(|o| o == c))
}

/// Indices: mostly ones of boundaries.
fn index(b: u16, s: &str) -> usize {
    let bounds: Vec<usize> = s.char_indices().map(|c| c.0).collect();
    match b {
        0..=159 if bounds.is_empty() => 0,
        0..=159 if bounds.len() > 160 => bounds[b as usize * 37 % bounds.len()],
        0..=159 => bounds[b as usize % bounds.len()],
        160..=185 => s.len(),
        // These are within of characters as well.
        186..=239 => (b as usize - 186) % (s.len() + 1),
        240..=250 => s.len() + 1 + (b as usize - 240) / 4,
        _ => usize::MAX - (b as usize - 251) % 4,
    }
}

impl Eng {
    fn char(&self, c: u16, i: usize) -> char {
        let r = mix(c as u64 ^ (i as u64) << 20);
        CHARS[((r % self.palette as u64) as usize * 7 + self.palette) % CHARS.len()]
    }

    fn text(&self, c: u16, from: usize, n: usize) -> String {
        (from..from + n).map(|i| self.char(c, i)).collect()
    }

    fn judge(&mut self, out: Outcome, failed: bool, case: Case) -> Verdict {
        judge(&mut self.again, out, failed, case)
    }

    fn settle(&mut self, i: usize, want: Want) {
        let Some(slot) = self.slots[i].as_mut() else { return };
        let (len, cap, ptr) = (slot.s.len(), slot.s.capacity(), slot.s.as_bytes().as_ptr() as usize);
        let mut alloc = None;
        if len > cap {
            soft(Class::CAP, || format!("length {len} is over capacity {cap}"));
        }
        if cap > 0 {
            let w = w();
            let serial = w.heap.live_block(ptr);
            if serial == 0 {
                violate(Class::UAF, "storage of the string is not a live block".into());
            }
            let b = w.heap.by_serial(serial).unwrap();
            if b.start != ptr || cap > b.size {
                let size = b.size;
                violate(
                    Class::CAP,
                    format!("capacity {cap} does not fit {size} bytes of block {serial}"),
                );
            }
            alloc = Some(b.alloc);
        }
        if len > 255 {
            w().stat(St::p_length_over_255);
        }
        if len > 1 << 22 {
            violate(Class::TEXT, format!("length is {len}"));
        }
        let got = match std::str::from_utf8(slot.s.as_bytes()) {
            Ok(s) => s.to_string(),
            Err(_) => {
                violate(Class::TEXT, format!("not UTF-8: {:x?}", slot.s.as_bytes()));
            }
        };
        let ok = match &want {
            Want::Exact(s) => *s == got,
            Want::Prefix(base, added) => {
                let mut s = base.clone();
                s == got
                    || added.iter().any(|a| {
                        s.push_str(a);
                        s == got
                    })
            }
            Want::Filtered(kept, tail) => {
                is_subsequence(&got, kept)
                    || got
                        .strip_suffix(tail.as_str())
                        .is_some_and(|head| is_subsequence(head, kept))
            }
        };
        if !ok {
            soft(Class::TEXT, || {
                let want = match &want {
                    Want::Exact(s) => format!("should be {s:?}"),
                    Want::Prefix(s, a) => format!("should be {s:?} and some of {a:?}"),
                    Want::Filtered(k, t) => format!("should be of {k:?} and {t:?}"),
                };
                format!("string {i} is {got:?}, {want}")
            });
        }
        if slot.s.as_str() != got || slot.s.is_empty() != got.is_empty() {
            soft(Class::RESULT, || "as_str or is_empty is wrong".into());
        }
        if cap < slot.promise {
            let p = slot.promise;
            soft(Class::CAP, || format!("capacity is {cap} but {p} was reserved"));
            slot.promise = 0;
        }
        let m = slot.s.as_mut_vec().marker();
        if let Some(want) = slot.marker {
            if m != marker(want) {
                let m = marker_index(m);
                soft(Class::MARKER, || format!("marker is {m}, should be {want}"));
                slot.marker = Some(m);
            }
        }
        if let Some(a) = alloc {
            if let Some(m) = slot.marker {
                if a % heap::MARKERS as u16 != m {
                    soft(Class::MARKER, || {
                        format!("string of marker {m} has storage in allocator {a}")
                    });
                }
            }
            if let Some(old) = slot.alloc {
                if old != a {
                    soft(Class::MARKER, || format!("storage went from allocator {old} to {a}"));
                }
            }
        }
        slot.alloc = alloc;
        slot.m = got;
    }

    fn put(&mut self, i: usize, s: Str, m: String, marker: Option<u16>, promise: usize) {
        self.vacate(i);
        self.slots[i] = Some(Slot { s, m: String::new(), marker, promise, alloc: None });
        let slot = self.slots[i].as_mut().unwrap();
        if marker.is_none() {
            slot.marker = Some(marker_index(slot.s.as_mut_vec().marker()));
        }
        self.settle(i, Want::Exact(m));
    }

    fn clone_from(&mut self, i: usize, j: usize, reqs: usize) {
        let mut to = self.slots[i].take().unwrap();
        let from = self.slots[j].as_ref().unwrap();
        let (old, source) = (to.m.clone(), from.m.clone());
        // Whose marker it has later is not told.
        let mark = to.marker.filter(|&m| m == 0 && from.marker == Some(0));
        let (out, _) = call(|| to.s.clone_from(&from.s));
        let unchanged = to.s.as_bytes() == old.as_bytes();
        self.slots[i] = Some(Slot { marker: mark, promise: 0, alloc: None, ..to });
        let want = match self.judge(out, false, PLAIN) {
            Verdict::Ok => Want::Exact(source.clone()),
            _ if unchanged => Want::Exact(old),
            _ => Want::Prefix(String::new(), vec![source.clone()]),
        };
        self.settle(i, want);
        self.settle(j, Want::Exact(source));
        self.requests(reqs, mark);
    }

    fn requests(&mut self, from: usize, want: Option<u16>) {
        let reqs: Vec<heap::Req> = w().heap.reqs[from..].to_vec();
        for r in reqs {
            let m = marker_index(r.marker);
            if want.is_some_and(|w| w != m) {
                soft(Class::MARKER, || {
                    format!("request presents marker {m}, should be {}", want.unwrap())
                });
            }
            heap::check_selector::<u8>(&r);
        }
    }

    fn vacate(&mut self, i: usize) {
        if let Some(slot) = self.slots[i].take() {
            let (out, _) = quiet(|| call(move || drop(slot.s)));
            if out != Outcome::Done {
                soft(Class::PANIC, || "panic while dropping".into());
            }
        }
    }

    fn exec(&mut self, op: &Op) {
        let i = (op.a & 3) as usize % SLOTS;
        let j = (op.a >> 2 & 3) as usize % SLOTS;
        let kind = op.a >> 4 & 15;
        let v = op.a >> 8;
        self.again = false;
        w().stat(St::ops);
        if matches!(op.code, NEW | FROM) {
            return self.make(op, i, kind, v);
        }
        let Some(slot) = self.slots[i].as_mut() else { return };
        w().real_ops += 1;
        let pre = slot.m.clone();
        let len = pre.len();
        let mark = slot.marker;
        let reqs = w().heap.reqs.len();
        let unchanged = Want::Exact(pre.clone());
        macro_rules! s {
            () => {
                self.slots[i].as_mut().unwrap().s
            };
        }
        match op.code {
            PUSH => {
                let c = self.char(op.c, 0);
                let (out, _) = match v % 2 {
                    0 => call(|| s!().push(c)),
                    _ => {
                        let (out, r) = call(|| s!().write_char(c));
                        if r.is_some_and(|r| r.is_err()) {
                            soft(Class::RESULT, || "write_char gave an error".into());
                        }
                        (out, Some(()))
                    }
                };
                let mut want = pre;
                if self.judge(out, false, PLAIN) == Verdict::Ok {
                    want.push(c);
                }
                self.settle(i, Want::Exact(want));
                self.requests(reqs, mark);
            }
            PUSH_STR => {
                let t = self.text(op.c, 0, many(op.b as usize % 14, len));
                let mut want = pre;
                let (out, _) = match v % 4 {
                    0 => call(|| s!().push_str(&t)),
                    1 => call(|| s!() += &t),
                    2 => call(|| s!().write_str(&t).unwrap()),
                    _ => {
                        // The string is given away.
                        let slot = self.slots[i].take().unwrap();
                        let (out, r) = call(|| slot.s + &t);
                        let back = r.is_some();
                        if let Some(s) = r {
                            self.slots[i] = Some(Slot { s, ..slot });
                        }
                        (out, back.then_some(()))
                    }
                };
                if self.judge(out, false, PLAIN) == Verdict::Ok {
                    want.push_str(&t);
                }
                self.settle(i, Want::Exact(want));
                self.requests(reqs, mark);
            }
            WRITE => {
                // Formatted in pieces, with an error or a panic in between.
                let n = op.b as usize % 5;
                let parts: Vec<String> =
                    (0..n).map(|k| self.text(op.c, k * 8, 1 + (op.c as usize >> k) % 5)).collect();
                let fails = op.b >= 200;
                let (out, r) = call(|| {
                    let s = &mut s!();
                    write!(s, "{}", Parts(&parts, fails))
                });
                let mut want = pre.clone();
                want.extend(parts.iter().map(|s| s.as_str()));
                let ok = self.judge(out, false, PLAIN) == Verdict::Ok;
                if ok && r.unwrap().is_err() != fails {
                    soft(Class::RESULT, || "write! gave a wrong result".into());
                }
                if ok {
                    self.settle(i, Want::Exact(want));
                } else {
                    w().stat(St::p_text_prefix_after_fault);
                    self.settle(i, Want::Prefix(pre, parts));
                }
                self.requests(reqs, mark);
            }
            COMPARE => self.compare(op, i, j, kind, v),
            POP => {
                let (out, r) = call(|| s!().pop());
                self.judge(out, false, PLAIN);
                let mut want = pre;
                let c = want.pop();
                if r.is_some_and(|r| r != c) {
                    soft(Class::RESULT, || format!("pop gave {r:?}, should be {c:?}"));
                }
                self.settle(i, Want::Exact(want));
                self.requests(reqs, mark);
            }
            CLEAR => {
                let (out, _) = call(|| s!().clear());
                self.judge(out, false, PLAIN);
                self.settle(i, Want::Exact(String::new()));
                self.requests(reqs, mark);
            }
            REMOVE => {
                let at = index(op.b, &pre);
                let valid = at < len && pre.is_char_boundary(at);
                self.count_index(valid);
                let (out, r) = call(|| s!().remove(at));
                let mut want = pre;
                if self.judge(out, false, Case { valid, ..PLAIN }) == Verdict::Ok {
                    let c = want.remove(at);
                    if r != Some(c) {
                        soft(Class::RESULT, || format!("remove gave {r:?}, should be {c:?}"));
                    }
                }
                self.settle(i, Want::Exact(want));
                self.requests(reqs, mark);
            }
            INSERT | INSERT_STR => {
                let at = index(op.b, &pre);
                let valid = pre.is_char_boundary(at);
                self.count_index(valid);
                let one = op.code == INSERT;
                let t = self.text(op.c, 0, if one { 1 } else { many(op.c as usize % 12, len) });
                let (out, _) = call(|| {
                    if one {
                        s!().insert(at, t.chars().next().unwrap())
                    } else {
                        s!().insert_str(at, &t)
                    }
                });
                let mut want = pre;
                if self.judge(out, false, Case { valid, ..PLAIN }) == Verdict::Ok {
                    want.insert_str(at, &t);
                }
                self.settle(i, Want::Exact(want));
                self.requests(reqs, mark);
            }
            TRUNCATE => {
                let at = index(op.b, &pre);
                let valid = at >= len || pre.is_char_boundary(at);
                self.count_index(valid);
                let (out, _) = call(|| s!().truncate(at));
                let mut want = pre;
                if self.judge(out, false, Case { valid, ..PLAIN }) == Verdict::Ok {
                    want.truncate(at);
                }
                self.settle(i, Want::Exact(want));
                self.requests(reqs, mark);
            }
            SPLIT_OFF => {
                if i == j {
                    return;
                }
                self.vacate(j);
                let at = index(op.b, &pre);
                let valid = pre.is_char_boundary(at);
                self.count_index(valid);
                let (out, r) = call(|| s!().split_off(at));
                let new_mark = mark.filter(|&m| m == 0);
                let mut want = pre;
                if self.judge(out, false, Case { valid, ..PLAIN }) == Verdict::Ok {
                    let tail = want.split_off(at);
                    self.settle(i, Want::Exact(want));
                    self.put(j, r.unwrap(), tail, new_mark, 0);
                } else {
                    self.settle(i, Want::Exact(want));
                }
                self.requests(reqs, new_mark);
            }
            RETAIN => {
                let mut seen = String::new();
                let mut kept = String::new();
                let keep = op.c;
                let (out, _) = call(|| {
                    s!().retain(|c| {
                        fault_point(P_CALL);
                        let k = mix(keep as u64 ^ (seen.chars().count() as u64 * 77)) % 3 != 0;
                        seen.push(c);
                        if k {
                            kept.push(c);
                        }
                        k
                    })
                });
                let ok = self.judge(out, false, PLAIN) == Verdict::Ok;
                if !pre.starts_with(&seen) || ok && seen != pre {
                    soft(Class::RESULT, || format!("retain showed {seen:?} of {pre:?}"));
                }
                if ok {
                    self.settle(i, Want::Exact(kept));
                } else {
                    let tail = pre.get(seen.len()..).unwrap_or("").to_string();
                    w().stat(St::p_text_prefix_after_fault);
                    self.settle(i, Want::Filtered(kept, tail));
                }
                self.requests(reqs, mark);
            }
            RESERVE => {
                let n = match op.b {
                    0..=239 => op.b as usize % 60,
                    240..=247 => usize::MAX - (op.b as usize - 240),
                    _ => isize::MAX as usize - (op.b as usize % 4) * 8 + 8,
                };
                let how = op.c % 4;
                let (out, r) = call(|| match how {
                    0 => {
                        s!().reserve(n);
                        Ok(())
                    }
                    1 => {
                        s!().reserve_exact(n);
                        Ok(())
                    }
                    2 => s!().try_reserve(n),
                    _ => s!().try_reserve_exact(n),
                });
                let sized = len.checked_add(n).is_some_and(|t| t <= isize::MAX as usize);
                if !sized {
                    w().stat(St::f_unrepresentable_size);
                }
                let lenient = n > isize::MAX as usize;
                let case = Case { sized, fallible: how >= 2, lenient, ..PLAIN };
                let failed = r.is_some_and(|r| r.is_err());
                if self.judge(out, failed, case) == Verdict::Ok {
                    let slot = self.slots[i].as_mut().unwrap();
                    slot.promise = slot.promise.max(len + n);
                }
                self.settle(i, unchanged);
                self.requests(reqs, mark);
            }
            SHRINK => {
                let to = (op.b < 128).then_some(op.b as usize % 30);
                let slot = self.slots[i].as_mut().unwrap();
                slot.promise = slot.promise.min(to.unwrap_or(0).max(len));
                let (out, _) = call(|| match to {
                    Some(n) => s!().shrink_to(n),
                    None => s!().shrink_to_fit(),
                });
                self.judge(out, false, PLAIN);
                self.settle(i, unchanged);
                self.requests(reqs, mark);
            }
            EXTEND => {
                let pieces = self.pieces(op, kind);
                let feed = quiet(|| self.prepare(op, kind, v, &pieces));
                let reqs = w().heap.reqs.len();
                let (out, _) = call(|| feed.extend(&mut s!()));
                let mut want = pre.clone();
                want.extend(pieces.iter().map(|s| s.as_str()));
                if self.judge(out, false, PLAIN) == Verdict::Ok {
                    self.settle(i, Want::Exact(want));
                } else {
                    w().stat(St::p_text_prefix_after_fault);
                    self.settle(i, Want::Prefix(pre, pieces));
                }
                self.requests(reqs, mark);
            }
            CLONE => {
                if i == j {
                    return;
                }
                if v % 4 == 3 && self.slots[j].is_some() {
                    self.clone_from(i, j, reqs);
                    return;
                }
                self.vacate(j);
                let how = v % 3;
                let (out, r) = call(|| match how {
                    0 => s!().clone(),
                    1 => Str::from(&s!()),
                    _ => Str::from(s!().as_str()),
                });
                // The marker of a clone is not told.
                let new_mark = match how {
                    0 => mark.filter(|&m| m == 0),
                    _ => Some(0),
                };
                if self.judge(out, false, PLAIN) == Verdict::Ok {
                    self.put(j, r.unwrap(), pre.clone(), new_mark, 0);
                }
                self.settle(i, unchanged);
                self.requests(reqs, new_mark);
            }
            INDEX => {
                let lo = index(op.b & 255, &pre);
                let hi = index(op.b >> 8, &pre);
                let how = op.c % 12;
                let (out, r) = call(|| {
                    let s = &mut s!();
                    match how {
                        0 => s[lo..hi].to_string(),
                        1 => s[..hi].to_string(),
                        2 => s[lo..].to_string(),
                        3 => s[..].to_string(),
                        4 => s[lo..=hi].to_string(),
                        5 => s[..=hi].to_string(),
                        6 => (&mut s[lo..hi]).to_string(),
                        7 => (&mut s[..hi]).to_string(),
                        8 => (&mut s[lo..]).to_string(),
                        9 => (&mut s[..]).to_string(),
                        10 => (&mut s[lo..=hi]).to_string(),
                        _ => (&mut s[..=hi]).to_string(),
                    }
                });
                let want = match how % 6 {
                    0 => pre.get(lo..hi),
                    1 => pre.get(..hi),
                    2 => pre.get(lo..),
                    3 => pre.get(..),
                    4 => pre.get(lo..=hi),
                    _ => pre.get(..=hi),
                };
                self.count_index(want.is_some());
                let case = Case { valid: want.is_some(), ..PLAIN };
                if self.judge(out, false, case) == Verdict::Ok && r.as_deref() != want {
                    soft(Class::RESULT, || format!("indexing gave {r:?}, should be {want:?}"));
                }
                self.settle(i, unchanged);
            }
            UPPER => {
                let (out, _) = call(|| match v % 3 {
                    0 => s!().as_mut_str().make_ascii_uppercase(),
                    1 => std::borrow::BorrowMut::<str>::borrow_mut(&mut s!()).make_ascii_uppercase(),
                    _ => AsMut::<str>::as_mut(&mut s!()).make_ascii_uppercase(),
                });
                self.judge(out, false, PLAIN);
                self.settle(i, Want::Exact(pre.to_ascii_uppercase()));
                self.requests(reqs, mark);
            }
            DROP => {
                let slot = self.slots[i].take().unwrap();
                let (out, _) = call(move || drop(slot.s));
                self.judge(out, false, PLAIN);
            }
            _ => unreachable!(),
        }
    }

    fn count_index(&self, valid: bool) {
        if !valid {
            w().stat(St::f_invalid_index);
        }
    }

    /// What is added by `EXTEND` and the like.
    fn pieces(&self, op: &Op, kind: u16) -> Vec<String> {
        let len = self.slots[(op.a & 3) as usize % SLOTS].as_ref().map_or(0, |s| s.m.len());
        let n = many(op.b as usize % 9, len);
        (0..n)
            .map(|k| match kind % 4 {
                0 | 1 => self.char(op.c, k).to_string(),
                _ => self.text(op.c, k * 8, (mix(op.c as u64 + k as u64) % 5) as usize),
            })
            .collect()
    }

    fn prepare(&self, op: &Op, kind: u16, v: u16, pieces: &[String]) -> Given {
        let lower = match v % 3 {
            0 => pieces.len(),
            1 => 0,
            _ => pieces.len() / 2,
        };
        let upper = match v % 16 {
            7 => Some(usize::MAX),
            k if k % 2 == 0 => Some(v as usize / 2),
            _ => None,
        };
        fn feed<T>(items: impl Iterator<Item = T>, lower: usize, upper: Option<usize>) -> Feed<T> {
            Feed { items: items.collect(), lower, upper }
        }
        match kind % 4 {
            0 => Given::Char(feed(pieces.iter().map(|p| p.chars().next().unwrap()), lower, upper)),
            1 => Given::CharRef(feed(
                pieces.iter().map(|p| {
                    let c = p.chars().next().unwrap();
                    CHARS.iter().find(|x| **x == c).unwrap()
                }),
                lower,
                upper,
            )),
            2 => {
                // Pieces outlive the operation.
                let texts: Vec<&'static str> =
                    pieces.iter().map(|p| unsafe { &*(p.as_str() as *const str) }).collect();
                Given::Text(feed(texts.into_iter(), lower, upper))
            }
            _ => Given::Str(feed(
                pieces.iter().enumerate().map(|(k, p)| {
                    // Of any marker and capacity.
                    let m = mix(op.c as u64 * 31 + k as u64);
                    let mut s = match m % 4 {
                        0 => Str::with_marker(marker((m >> 8) as u16 % 4)),
                        1 => Str::with_capacity_and_marker(20, marker((m >> 8) as u16 % 4)),
                        _ => Str::new(),
                    };
                    s.push_str(p);
                    s
                }),
                lower,
                upper,
            )),
        }
    }

    fn make(&mut self, op: &Op, i: usize, kind: u16, v: u16) {
        self.vacate(i);
        w().real_ops += 1;
        if op.code == NEW {
            let how = v % 7;
            let m = op.c % 4;
            let reqs = w().heap.reqs.len();
            let mark = if matches!(how, 1 | 3 | 5) { m } else { 0 };
            let cap = match op.b {
                0..=239 => op.b as usize % 40,
                240..=247 => usize::MAX - (op.b as usize - 240),
                _ => isize::MAX as usize - (op.b as usize % 4) * 8 + 8,
            };
            let (out, r) = call(|| match how {
                0 => Ok(Str::new()),
                1 => Ok(Str::with_marker(marker(m))),
                2 => Ok(Str::with_capacity(cap)),
                3 => Ok(Str::with_capacity_and_marker(cap, marker(m))),
                4 => Str::try_with_capacity(cap),
                5 => Str::try_with_capacity_and_marker(cap, marker(m)),
                _ => Ok(Str::default()),
            });
            let uses_cap = (2..6).contains(&how);
            let sized = !uses_cap || cap <= isize::MAX as usize;
            if !sized {
                w().stat(St::f_unrepresentable_size);
            }
            let case = Case { sized, fallible: how >= 4, lenient: cap > isize::MAX as usize, ..PLAIN };
            let failed = matches!(r, Some(Err(_)));
            match (self.judge(out, failed, case), r) {
                (Verdict::Ok, Some(Ok(s))) => {
                    self.put(i, s, String::new(), Some(mark), if uses_cap { cap } else { 0 })
                }
                (_, r) => std::mem::forget(r),
            }
            self.requests(reqs, Some(mark));
            return;
        }
        let t = self.text(op.c, 0, many(op.b as usize % 14, 0));
        let pieces = self.pieces(op, v);
        let all: String = pieces.concat();
        let bad = op.b >= 210;
        enum Made {
            Good(Str),
            Bad,
        }
        use Made::*;
        let mut want = t.clone();
        let mut mark = Some(0);
        let mut fails = false;
        let mut reqs = w().heap.reqs.len();
        let (out, r) = match kind % 8 {
            0 => call(|| Good(Str::from(t.as_str()))),
            1 => {
                let c = self.char(op.c, 0);
                want = c.to_string();
                call(|| Good(Str::from(c)))
            }
            2 => call(|| Good(t.parse::<Str>().unwrap())),
            3 | 4 => {
                // Vector becomes the string, or goes.
                let m = op.c % 4;
                mark = Some(m);
                let mut bytes = t.clone().into_bytes();
                if bad {
                    damage(&mut bytes, op.c);
                }
                match String::from_utf8(bytes.clone()) {
                    Ok(s) => want = s,
                    Err(_) => fails = true,
                }
                let vec = quiet(|| {
                    let mut vec = LVec::with_marker(marker(m));
                    vec.extend_from_slice(&bytes);
                    vec
                });
                reqs = w().heap.reqs.len();
                call(|| match Str::from_utf8(vec) {
                    Ok(s) => Good(s),
                    Err(_) => Bad,
                })
            }
            5 => {
                let mut units: Vec<u16> = t.encode_utf16().collect();
                if bad && !units.is_empty() {
                    let at = op.c as usize % units.len();
                    units[at] = [0xd800, 0xdfff, 0xdbff, 0xdc00][op.c as usize >> 4 & 3];
                }
                match String::from_utf16(&units) {
                    Ok(s) => want = s,
                    Err(_) => fails = true,
                }
                call(|| match Str::from_utf16(&units) {
                    Ok(s) => Good(s),
                    Err(_) => Bad,
                })
            }
            _ => {
                want = all;
                let feed = quiet(|| self.prepare(op, v, op.c, &pieces));
                reqs = w().heap.reqs.len();
                if v % 4 == 3 {
                    // Markers are the ones of the pieces or none.
                    mark = None;
                }
                call(|| Good(feed.collect()))
            }
        };
        let failed = matches!(r, Some(Bad));
        let oom = w().th().fired_oom;
        let verdict = self.judge(out, failed, Case { fallible: false, lenient: fails, ..PLAIN });
        match r {
            Some(Good(s)) => {
                if fails {
                    // Being text is looked at then.
                    soft(Class::TEXT, || "made a string of what is not text".into());
                }
                if verdict != Verdict::Ok {
                    std::mem::forget(s);
                } else {
                    self.put(i, s, want, mark, 0);
                }
            }
            Some(Bad) if !fails && !oom => {
                soft(Class::TEXT, || "text was rejected".into());
            }
            _ => {}
        }
        self.requests(reqs, mark);
    }
}

impl Eng {
    /// Ask whether it equals another one, which is first, how it hashes and looks.
    fn compare(&mut self, op: &Op, i: usize, j: usize, kind: u16, v: u16) {
        // Another one, or an altered copy.
        let (other, m) = match &self.slots[j] {
            Some(s) if j != i && v & 1 == 0 => (None, s.m.clone()),
            _ => {
                let mut m = self.slots[i].as_ref().unwrap().m.clone();
                match v >> 1 {
                    0 => drop(m.pop()),
                    1 => m.push(self.char(op.c, 0)),
                    2 if !m.is_empty() => {
                        m.pop();
                        m.push(self.char(op.c, 0));
                    }
                    _ => {}
                }
                (Some(quiet(|| Str::from(m.as_str()))), m)
            }
        };
        let (a, b) = match &other {
            Some(b) => (self.slots[i].as_ref().unwrap(), b),
            None => (self.slots[i].as_ref().unwrap(), &self.slots[j].as_ref().unwrap().s),
        };
        let how = kind % 8;
        let style = op.b % cmp::STYLES;
        let (out, r) = call(|| {
            (
                cmp::ask(&a.s, b, how),
                cmp::digest(&a.s),
                cmp::debug(&a.s, style),
                cmp::display(&a.s, style),
            )
        });
        if out != Outcome::Done {
            let msg = w().last_panic.clone();
            soft(Class::COMPARE, || format!("panic: {msg}"));
        }
        let want = (
            cmp::ask(&a.m, &m, how),
            cmp::digest(&a.m),
            cmp::debug(&a.m, style),
            cmp::display(&a.m, style),
        );
        if let Some(r) = r {
            if r != want {
                soft(Class::COMPARE, || {
                    let name = cmp::HOW_NAMES[how as usize];
                    format!("{:?} and {m:?}: {name}, hash, Debug, Display are {r:x?}, should be {want:x?}", a.m)
                });
            }
        }
        w().disarm();
        quiet(|| drop(other));
        let s = self.slots[i].as_mut().unwrap();
        let span = |s: &str| (s.as_ptr() as usize, s.len());
        let spot = (s.s.as_bytes().as_ptr() as usize, s.m.len());
        let seen = [
            span(AsRef::<str>::as_ref(&s.s)),
            span(Borrow::<str>::borrow(&s.s)),
            span(AsMut::<str>::as_mut(&mut s.s)),
            span(BorrowMut::<str>::borrow_mut(&mut s.s)),
            span(&s.s),
        ];
        if seen.iter().any(|x| *x != spot) {
            soft(Class::COMPARE, || "string is borrowed as something else".into());
        }
        let m = s.m.clone();
        self.settle(i, Want::Exact(m));
    }
}

fn damage(bytes: &mut Vec<u8>, c: u16) {
    if bytes.is_empty() {
        bytes.push(0x80);
        return;
    }
    let at = c as usize % bytes.len();
    match c >> 4 & 3 {
        0 => bytes.truncate(at),
        1 => bytes[at] ^= 0x80,
        2 => bytes.insert(at, 0xff),
        _ => {
            bytes.remove(at);
        }
    }
}

/// The iterators given to the string.
enum Given {
    Char(Feed<char>),
    CharRef(Feed<&'static char>),
    Text(Feed<&'static str>),
    Str(Feed<Str>),
}

impl Given {
    fn extend(self, s: &mut Str) {
        match self {
            Given::Char(f) => s.extend(f),
            Given::CharRef(f) => s.extend(f),
            Given::Text(f) => s.extend(f),
            Given::Str(f) => s.extend(f),
        }
    }

    fn collect(self) -> Str {
        match self {
            Given::Char(f) => f.collect(),
            Given::CharRef(f) => f.collect(),
            Given::Text(f) => f.collect(),
            Given::Str(f) => f.collect(),
        }
    }
}

pub fn run() {
    let plan_ops = w().plan.ops.clone();
    let palette = [1, 3, 20][w().plan.cfg[0] as usize % 3];
    let mut e = Eng { slots: [const { None }; SLOTS], again: false, palette };
    for (n, op) in plan_ops.iter().enumerate() {
        w().arm(n, op.fault);
        e.exec(op);
        w().disarm();
        if e.again && matches!(op.fault, Fault::Alloc { .. }) {
            w().arm(n, Fault::None);
            e.exec(op);
            w().disarm();
            w().stat(St::p_retry_ok);
        }
    }
    w().arm(usize::MAX, Fault::None);
    for i in 0..SLOTS {
        e.vacate(i);
    }
    w().arm(usize::MAX - 1, Fault::None);
    heap::final_checks();
}

pub fn gen(prop: usize, rng: &mut Rng, plan: &mut Plan) {
    plan.cfg[0] = rng.weighted(&[1, 2, 5]) as u16;
    plan.cfg[1] = rng.chance(1, 40) as u16;
    let mut wt = [0u32; 21];
    for (c, n) in [
        (NEW, 5), (FROM, 10), (PUSH, 8), (PUSH_STR, 9), (POP, 5), (CLEAR, 1), (REMOVE, 6),
        (INSERT, 6), (INSERT_STR, 6), (TRUNCATE, 5), (SPLIT_OFF, 5), (RETAIN, 7), (RESERVE, 5),
        (SHRINK, 5), (EXTEND, 9), (CLONE, 3), (INDEX, 5), (UPPER, 2), (DROP, 2), (WRITE, 4), (COMPARE, 1),
    ] {
        wt[c as usize] = n;
    }
    let (mut refuse, mut panic) = (12, 0);
    match prop {
        props::C12 => (refuse, panic) = (14, 8),
        props::C13 => refuse = 45,
        props::C16 => (refuse, panic) = (14, 14),
        props::C20 => {
            refuse = 30;
            wt[NEW as usize] = 14;
        }
        props::C21 => {
            refuse = 4;
            wt[COMPARE as usize] = 60;
        }
        _ => {}
    }
    if rng.chance(1, 2) {
        for (c, n) in wt.iter_mut().enumerate() {
            if c != FROM as usize && c != PUSH as usize && rng.chance(1, 3) {
                *n = 0;
            }
        }
    }
    let faults = !rng.chance(1, 5);
    let n = match rng.below(10) {
        _ if crate::plan::long(rng) => 40 + rng.below(120),
        0 => 1 + rng.below(4),
        1..=7 => 4 + rng.below(14),
        _ => 10 + rng.below(30),
    };
    for k in 0..n {
        let code = if k == 0 && rng.chance(2, 3) {
            [NEW, FROM][rng.below(2) as usize]
        } else {
            rng.weighted(&wt) as u8
        };
        let i = if rng.chance(2, 3) { 0 } else { rng.below(3) as u16 };
        let j = rng.below(3) as u16;
        let kind = rng.below(16) as u16;
        let v = rng.below(8) as u16;
        let v = if code == NEW && prop == props::C20 { [1, 3, 5, 1, 0, 2][rng.below(6) as usize] } else { v };
        let a = i | j << 2 | kind << 4 | v << 8;
        let b = match code {
            NEW | RESERVE if !rng.chance(1, if prop == props::C13 { 5 } else { 12 }) => rng.below(240),
            INDEX => rng.below(256) | rng.below(256) << 8,
            _ => rng.below(256),
        };
        let mut o = Op { t: 0, code, a, b: b as u16, c: rng.below(1 << 14) as u16, fault: Fault::None };
        if faults {
            let r = rng.below(100);
            if r < refuse {
                o.fault = Fault::Alloc {
                    nth: [0, 0, 0, 0, 1, 1, 2, 3][rng.below(8) as usize],
                    sticky: rng.chance(1, 3),
                };
            } else if r < refuse + panic || panic > 0 && matches!(code, RETAIN | WRITE | EXTEND) && rng.chance(1, 4) {
                let kind = match code {
                    RETAIN | WRITE => P_CALL,
                    _ => P_ITER,
                };
                o.fault = Fault::Panic { kind, nth: rng.below(8) as u8 };
            }
        }
        plan.ops.push(o);
    }
}
