//! Properties, which scenarios they are searched in, and which violations are theirs.

use crate::plan::*;

macro_rules! classes {
    ($($name:ident = $text:literal),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum Class { $($name),* }
        pub const CLASS_NAMES: &[&str] = &[$($text),*];
        pub const CLASSES: &[Class] = &[$(Class::$name),*];
    };
}

classes! {
    UAF = "use-after-free",
    DEAD = "dead-value-used",
    DDROP = "dropped-twice",
    DFREE = "freed-twice",
    BADFREE = "wrong-free-or-resize",
    REQUEST = "bad-request",
    BOUNDS = "written-out-of-bounds-or-after-free",
    LEAKB = "storage-leaked",
    LEAKV = "value-lost",
    EDROP = "dropped-early",
    EFREE = "freed-early",
    RACE = "data-race",
    CELLRACE = "counter-race",
    COUNT = "wrong-count",
    EXCL = "wrong-exclusivity",
    COW = "make-mut-not-isolated",
    UPGRADE = "wrong-upgrade",
    HANDOVER = "wrong-handover",
    PANIC = "unexpected-panic",
    OOM = "refusal-mishandled",
    REPR = "impossible-size-accepted",
    CONTENT = "wrong-content",
    RESULT = "wrong-result",
    CAP = "wrong-capacity",
    ITER = "wrong-iteration",
    INDEX = "invalid-index-accepted",
    TEXT = "wrong-text",
    MARKER = "wrong-selector",
    SCOPE = "wrong-scope",
    PROGRESS = "no-progress",
    CRASH = "crash",
    HANG = "hang",
    COMPARE = "wrong-comparison",
}

pub struct Prop {
    pub id: &'static str,
    /// Scenarios with their weights.
    pub scen: &'static [(usize, u32)],
    /// How many runs of the quick check; thorough does many times more.
    pub quick_runs: u64,
}

pub const C01: usize = 0;
pub const C02: usize = 1;
pub const C03: usize = 2;
pub const C04: usize = 3;
pub const C05: usize = 4;
pub const C06: usize = 5;
pub const C07: usize = 6;
pub const C08: usize = 7;
pub const C09: usize = 8;
pub const C10: usize = 9;
pub const C11: usize = 10;
pub const C12: usize = 11;
pub const C13: usize = 12;
pub const C14: usize = 13;
pub const C15: usize = 14;
pub const C16: usize = 15;
pub const C17: usize = 16;
pub const C18: usize = 17;
pub const C19: usize = 18;
pub const C20: usize = 19;
pub const C21: usize = 20;

macro_rules! prop {
    ($id:literal, $n:expr, $($s:expr => $w:expr),*) => {
        Prop { id: $id, scen: &[$(($s, $w)),*], quick_runs: $n }
    };
}

pub const PROPS: &[Prop] = &[
    prop!("C01", 4_000_000, ARC => 1),
    prop!("C02", 4_000_000, ARC => 1),
    prop!("C03", 4_000_000, ARC => 1),
    prop!("C04", 4_000_000, ARC => 1),
    prop!("C05", 4_000_000, URC => 1),
    prop!("C06", 4_000_000, URC => 1),
    prop!("C07", 4_000_000, URC => 1),
    prop!("C08", 4_000_000, ARC => 1, URC => 3),
    prop!("C09", 4_000_000, RC => 1),
    prop!("C10", 4_000_000, RC => 1),
    prop!("C11", 4_000_000, BOX => 1),
    prop!("C12", 4_000_000, ARC => 2, URC => 2, RC => 2, BOX => 2, VEC => 3, SMALLVEC => 3, STRING => 2, SCOPE => 1),
    prop!("C13", 4_000_000, ARC => 1, URC => 1, RC => 1, BOX => 1, VEC => 3, SMALLVEC => 3, STRING => 2, SCOPE => 1),
    prop!("C14", 4_000_000, VEC => 1),
    prop!("C15", 4_000_000, SMALLVEC => 1),
    prop!("C16", 4_000_000, STRING => 1),
    prop!("C17", 4_000_000, VEC => 1, SMALLVEC => 1),
    prop!("C18", 4_000_000, VEC => 1, SMALLVEC => 1),
    prop!("C19", 4_000_000, SCOPE => 1),
    prop!("C20", 4_000_000, VEC => 2, SMALLVEC => 2, STRING => 1, BOX => 1, RC => 1, ARC => 1, URC => 1, SCOPE => 1),
    prop!("C21", 4_000_000, VEC => 2, SMALLVEC => 3, STRING => 2, BOX => 2, RC => 1, ARC => 1, URC => 1),
];

pub fn by_id(id: &str) -> Option<usize> {
    PROPS.iter().position(|p| p.id == id)
}

/// What had happened up to the violation.
#[derive(Clone, Copy, Default)]
pub struct Ctx {
    /// A refusal of memory, or a panic of user code, was injected.
    pub oom: bool,
    pub panic: bool,
    /// An iterator or drain was involved.
    pub iter: bool,
}

/// Whether the violation is one of this property.
pub fn accepts(prop: usize, class: Class, ctx: Ctx) -> bool {
    use Class::*;
    let memory = matches!(class, UAF | DEAD | DDROP | DFREE | BADFREE | REQUEST | BOUNDS | CRASH);
    let leak = matches!(class, LEAKB | LEAKV);
    match prop {
        // What follows from a group in the hands of two threads is up to chance.
        C05 | C06 | C07 | C08 if matches!(class, HANDOVER | CELLRACE) => true,
        C01 | C05 => memory || leak || matches!(class, EDROP | EFREE | RACE | PANIC | OOM),
        C02 | C06 => {
            memory
                || leak
                || matches!(class, EXCL | COW | RACE | EDROP | EFREE | PANIC | OOM)
        }
        C03 => matches!(class, PROGRESS | HANG | CRASH | PANIC),
        // Counts that are wrong show in what is freed, too.
        C04 | C07 => memory || leak || matches!(class, COUNT | EDROP | EFREE),
        C08 => memory || leak || matches!(class, COUNT | EDROP | EFREE | EXCL | PANIC | OOM | RACE),
        C09 => {
            memory || leak || matches!(class, EDROP | EFREE | UPGRADE | COUNT | PANIC | OOM | HANG)
        }
        C10 => {
            memory
                || leak
                || matches!(class, EXCL | COW | EDROP | EFREE | UPGRADE | PANIC | OOM | HANG)
        }
        C11 => {
            memory
                || leak
                || matches!(class, EDROP | EFREE | CONTENT | RESULT | PANIC | OOM | HANG | CAP)
        }
        // Storage may be abandoned when a destructor panics.
        C12 if class == LEAKB => !ctx.panic,
        C12 => {
            matches!(class, UAF | DFREE | BADFREE | REQUEST | BOUNDS | EFREE | CRASH | CAP)
        }
        C13 => {
            class == REPR
                || class == OOM
                || ctx.oom
                    && !ctx.panic
                    && (memory
                        || leak
                        || matches!(
                            class,
                            CONTENT | TEXT | CAP | EXCL | COW | COUNT | PANIC | HANG | MARKER
                                | EDROP | EFREE | UPGRADE
                        ))
        }
        C14 | C15 => {
            !ctx.panic
                && (memory
                    || leak
                    || matches!(class, CONTENT | RESULT | CAP | ITER | INDEX | PANIC | HANG | OOM | REPR))
        }
        C16 => {
            memory
                || leak
                || matches!(class, TEXT | RESULT | CAP | INDEX | PANIC | OOM | HANG | CONTENT | REPR)
        }
        C17 => {
            ctx.panic
                && (memory
                    || leak
                    || matches!(class, CONTENT | TEXT | RESULT | ITER | CAP | PANIC | HANG))
        }
        C18 => {
            ctx.iter
                && (memory
                    || leak
                    || matches!(class, ITER | CONTENT | RESULT | INDEX | PANIC | HANG | CAP))
        }
        C19 => matches!(class, SCOPE | MARKER | BADFREE | CRASH | PANIC | HANG),
        C20 => matches!(class, MARKER | SCOPE | CRASH | BADFREE),
        C21 => memory || matches!(class, COMPARE | HANG),
        _ => false,
    }
}
