//! Elements of the containers.

use crate::cmp::*;
use crate::plan::*;
use crate::props::Class;
use crate::vals::*;
use crate::world::*;
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};

/// Identity (0 if there is none) and key.
pub type Id = (u32, u32);

pub trait Elem: Clone + Ord + Hash + Debug + Display + 'static {
    /// Whether elements have identity.
    const TRACKED: bool;
    /// Whether live elements can be counted at least.
    const COUNTED: bool;
    fn make(key: u32) -> Self;
    /// What the key would be when read back.
    fn key(key: u32) -> u32 {
        key
    }
    fn ident(&self) -> Id;
    /// What the element is to comparison.
    fn plainly(id: Id) -> Plainly {
        Plainly(id.1)
    }
    /// What hashing a slice of these, or only one, feeds to the hasher.
    fn digest(keys: &[Plainly], single: bool) -> Vec<u8> {
        if single {
            digest(&keys[0])
        } else {
            digest(keys)
        }
    }
    fn plain_display(key: Plainly, style: u16) -> String {
        display(&key, style)
    }
    fn problem(&self, what: &str) -> Option<(Class, String)>;
    fn check(&self, what: &str) {
        if let Some((class, msg)) = self.problem(what) {
            violate(class, msg);
        }
    }
}

macro_rules! tracked {
    ($name:ident, $(#[$attr:meta])* { $($field:ident: $ty:ty = $init:expr, $ok:expr;)* }) => {
        #[repr(C)]
        $(#[$attr])*
        pub struct $name {
            pub tag: Tag,
            $($field: $ty),*
        }

        impl Elem for $name {
            const TRACKED: bool = true;
            const COUNTED: bool = true;
            fn make(key: u32) -> Self {
                let tag = Tag::new(key);
                #[allow(clippy::redundant_closure_call)]
                Self { $($field: ($init)(&tag),)* tag }
            }
            fn ident(&self) -> Id {
                (self.tag.id, self.tag.key)
            }
            fn problem(&self, what: &str) -> Option<(Class, String)> {
                if self as *const Self as usize % std::mem::align_of::<Self>() != 0 {
                    return Some((Class::DEAD, format!("{what}: misaligned element")));
                }
                if let Some(p) = self.tag.problem(what) {
                    return Some(p);
                }
                $(
                    #[allow(clippy::redundant_closure_call)]
                    if !($ok)(&self.tag, &self.$field) {
                        let id = self.tag.id;
                        return Some((Class::DEAD, format!("{what}: element #{id} is damaged")));
                    }
                )*
                None
            }
        }

        impl Clone for $name {
            fn clone(&self) -> Self {
                self.check("clone");
                fault_point(P_CLONE);
                Self::make(self.tag.key)
            }
        }

        impl PartialEq for $name {
            fn eq(&self, other: &Self) -> bool {
                self.check("comparison");
                other.check("comparison");
                fault_point(P_EQ);
                Plainly(self.tag.key) == Plainly(other.tag.key)
            }
        }

        impl Eq for $name {}

        impl PartialOrd for $name {
            fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
                self.check("comparison");
                other.check("comparison");
                fault_point(P_EQ);
                Plainly(self.tag.key).partial_cmp(&Plainly(other.tag.key))
            }
        }

        impl Ord for $name {
            fn cmp(&self, other: &Self) -> Ordering {
                self.check("comparison");
                other.check("comparison");
                fault_point(P_EQ);
                Plainly(self.tag.key).cmp(&Plainly(other.tag.key))
            }
        }

        impl Hash for $name {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.check("hash");
                fault_point(P_EQ);
                Plainly(self.tag.key).hash(h)
            }
        }

        impl Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                self.check("formatting");
                fault_point(P_EQ);
                Debug::fmt(&Plainly(self.tag.key), f)
            }
        }

        impl Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                self.check("formatting");
                fault_point(P_EQ);
                Display::fmt(&Plainly(self.tag.key), f)
            }
        }

        impl Drop for $name {
            fn drop(&mut self) {
                self.tag.dropping();
                if let Some((class, msg)) = {
                    // The tag is of a dropped value now, so look at the rest only.
                    let mut p = None;
                    $(
                        #[allow(clippy::redundant_closure_call)]
                        if !($ok)(&self.tag, &self.$field) {
                            p = Some((Class::DEAD, "dropped element is damaged".to_string()));
                        }
                    )*
                    p = p.take();
                    p
                } {
                    violate(class, msg);
                }
                fault_point(P_DROP);
            }
        }
    };
}

tracked!(Plain, {});
tracked!(Large, {
    pattern: [u64; 128] = |t: &Tag| [t.canary.rotate_left(7); 128],
        |t: &Tag, p: &[u64; 128]| p.iter().all(|&v| v == t.canary.rotate_left(7));
});
tracked!(Aligned, #[repr(align(64))] {});

impl Elem for u8 {
    const TRACKED: bool = false;
    const COUNTED: bool = false;
    fn make(key: u32) -> Self {
        0x40u8.wrapping_add(key as u8)
    }
    fn key(key: u32) -> u32 {
        key & 0xff
    }
    fn ident(&self) -> Id {
        (0, self.wrapping_sub(0x40) as u32)
    }
    fn plainly(id: Id) -> Plainly {
        Plainly(0x40u8.wrapping_add(id.1 as u8) as u32)
    }
    fn digest(keys: &[Plainly], single: bool) -> Vec<u8> {
        let bytes: Vec<u8> = keys.iter().map(|k| k.0 as u8).collect();
        if single {
            digest(&bytes[0])
        } else {
            digest(&bytes[..])
        }
    }
    fn plain_display(key: Plainly, style: u16) -> String {
        display(&key.0, style)
    }
    fn problem(&self, what: &str) -> Option<(Class, String)> {
        let w = w();
        let addr = self as *const _ as usize;
        if w.heap.in_arena(addr) {
            match w.heap.find(addr) {
                Some(b) if !b.freed => {}
                Some(b) => {
                    let n = b.serial;
                    return Some((Class::UAF, format!("{what}: element in freed block {n}")));
                }
                None => return Some((Class::BOUNDS, format!("{what}: element outside of blocks"))),
            }
        }
        None
    }
}

#[repr(align(16))]
pub struct Zst;

impl Elem for Zst {
    const TRACKED: bool = false;
    const COUNTED: bool = true;
    fn make(_: u32) -> Self {
        w().vals.zst_alive += 1;
        Zst
    }
    fn key(_: u32) -> u32 {
        0
    }
    fn ident(&self) -> Id {
        (0, 0)
    }
    fn problem(&self, what: &str) -> Option<(Class, String)> {
        if self as *const Self as usize % 16 != 0 {
            return Some((Class::DEAD, format!("{what}: misaligned element")));
        }
        None
    }
}

impl Clone for Zst {
    fn clone(&self) -> Self {
        fault_point(P_CLONE);
        Zst::make(0)
    }
}

impl PartialEq for Zst {
    fn eq(&self, _: &Self) -> bool {
        fault_point(P_EQ);
        true
    }
}

impl Eq for Zst {}

impl PartialOrd for Zst {
    fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
        fault_point(P_EQ);
        Some(Ordering::Equal)
    }
}

impl Ord for Zst {
    fn cmp(&self, _: &Self) -> Ordering {
        fault_point(P_EQ);
        Ordering::Equal
    }
}

impl Hash for Zst {
    fn hash<H: Hasher>(&self, h: &mut H) {
        fault_point(P_EQ);
        Plainly(0).hash(h)
    }
}

impl Debug for Zst {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fault_point(P_EQ);
        Debug::fmt(&Plainly(0), f)
    }
}

impl Display for Zst {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fault_point(P_EQ);
        Display::fmt(&Plainly(0), f)
    }
}

impl Drop for Zst {
    fn drop(&mut self) {
        self.check("destructor");
        let w = w();
        w.vals.zst_alive -= 1;
        w.log("drop", 0, 0);
        if w.vals.zst_alive < 0 {
            violate(Class::DDROP, "more zero-sized values were dropped than there were".into());
        }
        fault_point(P_DROP);
    }
}

/// Keys for `dedup_by_key`.
pub struct Key(pub u32);

impl PartialEq for Key {
    fn eq(&self, other: &Self) -> bool {
        fault_point(P_EQ);
        self.0 == other.0
    }
}
