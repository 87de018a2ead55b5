//! Comparison, hashing and formatting: how they are asked for, and plain values to compare the
//! answers with.

use std::cmp::Ordering;
use std::fmt::{Debug, Display, Formatter, Result};
use std::hash::{Hash, Hasher};

/// Whether some keys compare with nothing, as NaN does.
static mut UNORDERED: bool = false;

pub fn set_unordered(on: bool) {
    unsafe { UNORDERED = on }
}

fn unordered(key: u32) -> bool {
    unsafe { UNORDERED && key % 4 == 1 }
}

/// What the key of a value is to comparison, hashing and formatting. Values do as their keys.
#[derive(Clone, Copy)]
pub struct Plainly(pub u32);

impl PartialEq for Plainly {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0 && !unordered(self.0)
    }
}

impl Eq for Plainly {}

impl PartialOrd for Plainly {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        if unordered(self.0) || unordered(other.0) {
            return None;
        }
        Some(self.0.cmp(&other.0))
    }
}

impl Ord for Plainly {
    fn cmp(&self, other: &Self) -> Ordering {
        self.0.cmp(&other.0)
    }
}

impl Hash for Plainly {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u32(self.0)
    }
}

impl Debug for Plainly {
    fn fmt(&self, f: &mut Formatter) -> Result {
        Debug::fmt(&self.0, f)
    }
}

impl Display for Plainly {
    fn fmt(&self, f: &mut Formatter) -> Result {
        f.write_str("key ")?;
        Display::fmt(&self.0, f)
    }
}

pub const HOW_NAMES: [&str; 8] = ["eq", "ne", "partial_cmp", "lt", "le", "gt", "ge", "cmp"];
pub const CMP: u16 = 7;

pub fn ask<X: Ord + ?Sized>(a: &X, b: &X, how: u16) -> i32 {
    let order = |o: Ordering| o as i32;
    match how {
        0 => (a == b) as i32,
        1 => (a != b) as i32,
        2 => a.partial_cmp(b).map_or(9, order),
        3 => (a < b) as i32,
        4 => (a <= b) as i32,
        5 => (a > b) as i32,
        6 => (a >= b) as i32,
        _ => order(a.cmp(b)),
    }
}

/// Keeps all that is written.
#[derive(Default, PartialEq, Eq)]
pub struct Bytes(std::vec::Vec<u8>);

impl Hasher for Bytes {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        self.0.iter().fold(7, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3))
    }
}

pub fn digest<X: Hash + ?Sized>(x: &X) -> std::vec::Vec<u8> {
    let mut h = Bytes::default();
    x.hash(&mut h);
    h.0
}

pub const STYLES: u16 = 5;

pub fn debug<X: Debug + ?Sized>(x: &X, style: u16) -> String {
    match style {
        0 | 3 => format!("{x:?}"),
        1 => format!("{x:#?}"),
        2 => format!("{x:05?}"),
        _ => format!("{x:>7x?}"),
    }
}

pub fn display<X: Display + ?Sized>(x: &X, style: u16) -> String {
    match style {
        0 | 3 => format!("{x}"),
        1 => format!("{x:#}"),
        2 => format!("{x:05}"),
        _ => format!("{x:*^9.3}"),
    }
}

/// What is hashed and printed of a container, or of the value behind a handle.
#[derive(PartialEq, Eq)]
pub struct Looks {
    pub hash: std::vec::Vec<u8>,
    pub debug: String,
    pub display: String,
}

impl Looks {
    pub fn show(&self) -> String {
        format!("hash of {:?}, Debug {:?}, Display {:?}", self.hash, self.debug, self.display)
    }
}
