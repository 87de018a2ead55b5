//! The containers behind one interface.

use crate::cmp::*;
use crate::elem::*;
use lokky::boxed::Box as LBox;
use lokky::rc::Rc as LRc;
use lokky::scope::AllocMarker;
use lokky::small_vec::{self, SmallVec};
use lokky::vec::{self, Vec as LVec};
use std::any::Any;
use std::borrow::{Borrow, BorrowMut};
use std::ops::Bound;

pub type Range = (Bound<usize>, Bound<usize>);
pub type Dyn<T> = Box<dyn Seq<T>>;

pub const K_VEC: u16 = 0;
pub const K_S0: u16 = 1;
pub const K_S1: u16 = 2;
pub const K_S2: u16 = 3;
pub const K_S3: u16 = 4;
pub const K_S8: u16 = 5;
pub const K_S20: u16 = 6;
pub const K_S300: u16 = 7;
pub const K_SLICE: u16 = 8;
pub const K_BOX: u16 = 9;
pub const K_RC: u16 = 10;
pub const KIND_NAMES: [&str; 11] = [
    "Vec", "SmallVec<0>", "SmallVec<1>", "SmallVec<2>", "SmallVec<3>", "SmallVec<8>", "SmallVec<20>",
    "SmallVec<300>", "Box<[T]>", "Box<T>", "Rc<T>",
];

/// By-value iteration or drain.
pub trait Walk<T> {
    fn next(&mut self) -> Option<T>;
    fn next_back(&mut self) -> Option<T>;
    fn nth(&mut self, n: usize) -> Option<T>;
    fn nth_back(&mut self, n: usize) -> Option<T>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> usize;
    fn rest(&self) -> &[T];
    fn rest_mut(&mut self) -> Option<&mut [T]>;
    fn count(&mut self) -> usize;
    fn fold(&mut self, f: &mut dyn FnMut(T));
    fn rfold(&mut self, f: &mut dyn FnMut(T));
    fn last(&mut self) -> Option<T>;
    fn collect(&mut self) -> Vec<T>;
    /// Give elements away until that answers false.
    fn until(&mut self, f: &mut dyn FnMut(T) -> bool);
    fn back_until(&mut self, f: &mut dyn FnMut(T) -> bool);
}

/// The iterator, until it is consumed.
struct Own<I>(Option<I>);

macro_rules! walk {
    ($ty:ty, [$($gen:tt)*], |$this:ident| $mutable:expr) => {
        impl<$($gen)*> Walk<T> for Own<$ty> {
            fn next(&mut self) -> Option<T> {
                Iterator::next(self.0.as_mut().unwrap())
            }
            fn next_back(&mut self) -> Option<T> {
                DoubleEndedIterator::next_back(self.0.as_mut().unwrap())
            }
            fn nth(&mut self, n: usize) -> Option<T> {
                Iterator::nth(self.0.as_mut().unwrap(), n)
            }
            fn nth_back(&mut self, n: usize) -> Option<T> {
                DoubleEndedIterator::nth_back(self.0.as_mut().unwrap(), n)
            }
            fn until(&mut self, f: &mut dyn FnMut(T) -> bool) {
                let _ = Iterator::try_fold(self.0.as_mut().unwrap(), (), |(), v| f(v).then_some(()));
            }
            fn back_until(&mut self, f: &mut dyn FnMut(T) -> bool) {
                let it = self.0.as_mut().unwrap();
                let _ = DoubleEndedIterator::try_rfold(it, (), |(), v| f(v).then_some(()));
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                Iterator::size_hint(self.0.as_ref().unwrap())
            }
            fn len(&self) -> usize {
                ExactSizeIterator::len(self.0.as_ref().unwrap())
            }
            fn rest(&self) -> &[T] {
                self.0.as_ref().map_or(&[], |it| it.as_slice())
            }
            fn rest_mut(&mut self) -> Option<&mut [T]> {
                let $this = self.0.as_mut().unwrap();
                $mutable
            }
            fn count(&mut self) -> usize {
                Iterator::count(self.0.take().unwrap())
            }
            fn fold(&mut self, f: &mut dyn FnMut(T)) {
                Iterator::fold(self.0.take().unwrap(), (), |(), v| f(v))
            }
            fn rfold(&mut self, f: &mut dyn FnMut(T)) {
                DoubleEndedIterator::rfold(self.0.take().unwrap(), (), |(), v| f(v))
            }
            fn last(&mut self) -> Option<T> {
                Iterator::last(self.0.take().unwrap())
            }
            fn collect(&mut self) -> Vec<T> {
                Iterator::collect(self.0.take().unwrap())
            }
        }
    };
}

walk!(vec::IntoIter<T>, [T: Elem], |this| Some(this.as_slice_mut()));
walk!(vec::Drain<'_, T>, [T: Elem], |_this| None);
walk!(small_vec::Drain<'_, T, N>, [T: Elem, const N: usize], |_this| None);

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Finish {
    Drop,
    Forget,
}

/// Returns what to do with the iterator after that.
pub type Walker<'a, T> = &'a mut dyn FnMut(&mut dyn Walk<T>) -> Finish;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Refused;

pub trait Seq<T: Elem>: Any {
    fn kind(&self) -> u16;
    fn ptr(&self) -> *const T;
    fn len(&self) -> usize;
    fn slice(&self) -> &[T];
    fn slice_mut(&mut self) -> &mut [T];
    fn any(&mut self) -> &mut dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    /// Compare with another one of the same type.
    fn ask(&self, other: &mut dyn Any, how: u16) -> Option<i32>;
    fn looks(&self, style: u16) -> Looks;
    /// Addresses and lengths of what it may be borrowed as.
    fn borrows(&mut self) -> Vec<(usize, usize)>;
    /// Address and size of the handle itself.
    fn place(&self) -> (usize, usize);

    fn growable(&self) -> bool {
        false
    }
    fn cap(&self) -> usize {
        self.len()
    }
    /// Inline capacity.
    fn inline(&self) -> Option<usize> {
        None
    }
    fn is_heap(&self) -> bool {
        true
    }
    fn marker(&self) -> Option<AllocMarker> {
        None
    }
    fn flags(&self) -> (bool, bool) {
        (self.len() == 0, self.len() == self.cap())
    }
    fn push(&mut self, _: T) {
        unreachable!()
    }
    fn pop(&mut self) -> Option<T> {
        unreachable!()
    }
    fn insert(&mut self, _: usize, _: T) {
        unreachable!()
    }
    fn remove(&mut self, _: usize) -> T {
        unreachable!()
    }
    fn swap_remove(&mut self, _: usize) -> T {
        unreachable!()
    }
    fn truncate(&mut self, _: usize) {
        unreachable!()
    }
    fn clear(&mut self) {
        unreachable!()
    }
    fn extend_slice(&mut self, _: &[T]) {
        unreachable!()
    }
    fn extend_iter(&mut self, _: &mut dyn Iterator<Item = T>) {
        unreachable!()
    }
    /// `None` if the other is of other type.
    fn clone_from_seq(&mut self, _: &mut dyn Any) {
        unreachable!()
    }
    fn append(&mut self, _: &mut dyn Any) -> Option<()> {
        None
    }
    fn same_type(&mut self, _: &mut dyn Any) -> bool {
        false
    }
    fn resize(&mut self, _: usize, _: T) {
        unreachable!()
    }
    fn resize_with(&mut self, _: usize, _: &mut dyn FnMut() -> T) {
        unreachable!()
    }
    fn retain(&mut self, _: &mut dyn FnMut(&T) -> bool) {
        unreachable!()
    }
    fn dedup(&mut self) {
        unreachable!()
    }
    fn dedup_by(&mut self, _: &mut dyn FnMut(&mut T, &mut T) -> bool) {
        unreachable!()
    }
    fn dedup_by_key(&mut self, _: &mut dyn FnMut(&mut T) -> Key) {
        unreachable!()
    }
    fn split_off(&mut self, _: usize, _into: u16) -> Dyn<T> {
        unreachable!()
    }
    /// 0 reserve, 1 reserve_exact, 2 try_reserve, 3 try_reserve_exact
    fn reserve(&mut self, _how: u16, _: usize) -> Result<(), Refused> {
        unreachable!()
    }
    fn shrink(&mut self, _: Option<usize>) {
        unreachable!()
    }
    fn clone_seq(&self) -> Dyn<T> {
        unreachable!()
    }
    fn drain(&mut self, _: Range, _: Walker<T>) {
        unreachable!()
    }
    /// Number of spare places by shared and by unique access. These are overwritten.
    fn spare(&mut self) -> (usize, usize, usize) {
        unreachable!()
    }
    fn index(&self, _: usize) -> &T {
        unreachable!()
    }
    fn index_mut(&mut self, _: usize) -> &mut T {
        unreachable!()
    }
    /// Elements of the range.
    fn index_range(&self, _: std::ops::Range<usize>) -> &[T] {
        unreachable!()
    }
    fn to_heap(&mut self, _additional: Option<usize>) -> Result<(), Refused> {
        unreachable!()
    }
    fn to_stack(&mut self) -> Result<(), Refused> {
        unreachable!()
    }
}

fn write_spare<T>(places: &mut [std::mem::MaybeUninit<T>]) -> usize {
    let n = places.len();
    if std::mem::size_of::<T>() > 0 {
        let bytes = std::mem::size_of_val(places);
        unsafe { std::ptr::write_bytes(places.as_mut_ptr() as *mut u8, 0xc3, bytes) };
    }
    n
}

fn span<T>(s: &[T]) -> (usize, usize) {
    (s.as_ptr() as usize, s.len())
}

macro_rules! borrows {
    ($t:ty, $span:expr, mut) => {
        fn borrows(&mut self) -> Vec<(usize, usize)> {
            let span = $span;
            vec![
                span(AsRef::<$t>::as_ref(self)),
                span(AsMut::<$t>::as_mut(self)),
                span(Borrow::<$t>::borrow(self)),
                span(BorrowMut::<$t>::borrow_mut(self)),
                span(&**self),
            ]
        }
    };
    ($t:ty, $span:expr,) => {
        fn borrows(&mut self) -> Vec<(usize, usize)> {
            let span = $span;
            vec![
                span(AsRef::<$t>::as_ref(self)),
                span(Borrow::<$t>::borrow(self)),
                span(&**self),
            ]
        }
    };
}

macro_rules! common {
    ($kind:expr) => {
        common!($kind, |_this, _style| String::new());
    };
    ($kind:expr, $display:expr) => {
        fn ask(&self, other: &mut dyn Any, how: u16) -> Option<i32> {
            Some(ask::<Self>(self, other.downcast_mut::<Self>()?, how))
        }
        fn looks(&self, style: u16) -> Looks {
            let display: fn(&Self, u16) -> String = $display;
            Looks {
                hash: digest(self),
                debug: debug(self, style),
                display: display(self, style),
            }
        }
        fn kind(&self) -> u16 {
            $kind
        }
        fn any(&mut self) -> &mut dyn Any {
            self
        }
        fn into_any(self: Box<Self>) -> Box<dyn Any> {
            self
        }
        fn place(&self) -> (usize, usize) {
            (self as *const Self as usize, std::mem::size_of::<Self>())
        }
    };
}

macro_rules! growable {
    () => {
        fn ptr(&self) -> *const T {
            self.as_ptr()
        }
        fn len(&self) -> usize {
            self.len()
        }
        fn slice(&self) -> &[T] {
            self.as_slice()
        }
        fn slice_mut(&mut self) -> &mut [T] {
            self.as_mut_slice()
        }
        fn growable(&self) -> bool {
            true
        }
        fn cap(&self) -> usize {
            self.capacity()
        }
        fn flags(&self) -> (bool, bool) {
            (self.is_empty(), self.is_full())
        }
        fn push(&mut self, v: T) {
            self.push(v)
        }
        fn pop(&mut self) -> Option<T> {
            self.pop()
        }
        fn insert(&mut self, i: usize, v: T) {
            self.insert(i, v)
        }
        fn remove(&mut self, i: usize) -> T {
            self.remove(i)
        }
        fn swap_remove(&mut self, i: usize) -> T {
            self.swap_remove(i)
        }
        fn truncate(&mut self, n: usize) {
            self.truncate(n)
        }
        fn clear(&mut self) {
            self.clear()
        }
        fn extend_slice(&mut self, s: &[T]) {
            self.extend_from_slice(s)
        }
        fn append(&mut self, other: &mut dyn Any) -> Option<()> {
            let other = other.downcast_mut::<Self>()?;
            Some(self.append(other))
        }
        fn clone_from_seq(&mut self, other: &mut dyn Any) {
            self.clone_from(other.downcast_ref::<Self>().unwrap())
        }
        fn same_type(&mut self, other: &mut dyn Any) -> bool {
            other.is::<Self>()
        }
        fn resize(&mut self, n: usize, v: T) {
            self.resize(n, v)
        }
        fn resize_with(&mut self, n: usize, f: &mut dyn FnMut() -> T) {
            self.resize_with(n, f)
        }
        fn retain(&mut self, f: &mut dyn FnMut(&T) -> bool) {
            self.retain(f)
        }
        fn dedup(&mut self) {
            self.dedup()
        }
        fn dedup_by(&mut self, f: &mut dyn FnMut(&mut T, &mut T) -> bool) {
            self.dedup_by(f)
        }
        fn dedup_by_key(&mut self, f: &mut dyn FnMut(&mut T) -> Key) {
            self.dedup_by_key(f)
        }
        fn reserve(&mut self, how: u16, n: usize) -> Result<(), Refused> {
            match how {
                0 => self.reserve(n),
                1 => self.reserve_exact(n),
                2 => self.try_reserve(n).map_err(|_| Refused)?,
                _ => self.try_reserve_exact(n).map_err(|_| Refused)?,
            }
            Ok(())
        }
        fn shrink(&mut self, n: Option<usize>) {
            match n {
                None => self.shrink_to_fit(),
                Some(n) => self.shrink_to(n),
            }
        }
        fn clone_seq(&self) -> Dyn<T> {
            Box::new(self.clone())
        }
        fn drain(&mut self, r: Range, f: Walker<T>) {
            let mut d = Own(Some(self.drain(r)));
            if f(&mut d) == Finish::Forget {
                std::mem::forget(d);
            }
        }
        fn spare(&mut self) -> (usize, usize, usize) {
            let a = self.spare_len();
            let b = self.spare_capacity().len();
            if std::mem::size_of::<T>() == 0 {
                return (a, b, self.spare_capacity_mut().len());
            }
            (a, b, write_spare(self.spare_capacity_mut()))
        }
        fn index(&self, i: usize) -> &T {
            &self[i]
        }
        fn index_mut(&mut self, i: usize) -> &mut T {
            &mut self[i]
        }
    };
}

impl<T: Elem> Seq<T> for LVec<T> {
    common!(K_VEC);
    borrows!([T], span, mut);
    growable!();
    fn is_heap(&self) -> bool {
        self.capacity() > 0
    }
    fn marker(&self) -> Option<AllocMarker> {
        Some(self.marker())
    }
    fn extend_iter(&mut self, iter: &mut dyn Iterator<Item = T>) {
        self.extend_from_iter(iter)
    }
    fn split_off(&mut self, at: usize, _: u16) -> Dyn<T> {
        Box::new(self.split_off(at))
    }
    fn index_range(&self, r: std::ops::Range<usize>) -> &[T] {
        &self[r]
    }
}

impl<T: Elem, const N: usize> Seq<T> for SmallVec<T, N> {
    common!(match N {
        0 => K_S0,
        1 => K_S1,
        2 => K_S2,
        3 => K_S3,
        8 => K_S8,
        20 => K_S20,
        _ => K_S300,
    });
    borrows!([T], span, mut);
    growable!();
    fn inline(&self) -> Option<usize> {
        Some(N)
    }
    fn is_heap(&self) -> bool {
        if self.is_heap() == self.is_stack() {
            crate::world::violate(
                crate::props::Class::RESULT,
                "is_heap and is_stack contradict".into(),
            );
        }
        self.is_heap()
    }
    fn extend_iter(&mut self, iter: &mut dyn Iterator<Item = T>) {
        self.extend(iter)
    }
    fn split_off(&mut self, at: usize, into: u16) -> Dyn<T> {
        match into {
            K_S0 => Box::new(self.split_off_into::<0>(at)),
            K_S2 => Box::new(self.split_off_into::<2>(at)),
            K_S3 => Box::new(self.split_off_into::<3>(at)),
            K_S8 => Box::new(self.split_off_into::<8>(at)),
            K_S20 => Box::new(self.split_off_into::<20>(at)),
            K_S300 => Box::new(self.split_off_into::<300>(at)),
            _ => Box::new(self.split_off(at)),
        }
    }
    fn index_range(&self, r: std::ops::Range<usize>) -> &[T] {
        &self.as_slice()[r]
    }
    fn to_heap(&mut self, additional: Option<usize>) -> Result<(), Refused> {
        match additional {
            None => {
                self.move_to_heap();
                Ok(())
            }
            Some(n) => self.try_move_to_heap_and_reserve_exact(n).map_err(|_| Refused),
        }
    }
    fn to_stack(&mut self) -> Result<(), Refused> {
        self.try_move_to_stack().map_err(|_| Refused)
    }
}

impl<T: Elem> Seq<T> for LBox<[T]> {
    common!(K_SLICE);
    fn borrows(&mut self) -> Vec<(usize, usize)> {
        vec![
            span(AsRef::<[T]>::as_ref(self)),
            span(AsMut::<[T]>::as_mut(self)),
            span(&**self),
        ]
    }
    fn ptr(&self) -> *const T {
        (**self).as_ptr()
    }
    fn len(&self) -> usize {
        (**self).len()
    }
    fn slice(&self) -> &[T] {
        self
    }
    fn slice_mut(&mut self) -> &mut [T] {
        &mut *self
    }
}

impl<T: Elem> Seq<T> for LBox<T> {
    common!(K_BOX, display);
    borrows!(T, |v: &T| span(std::slice::from_ref(v)), mut);
    fn ptr(&self) -> *const T {
        &**self
    }
    fn len(&self) -> usize {
        1
    }
    fn slice(&self) -> &[T] {
        std::slice::from_ref(self)
    }
    fn slice_mut(&mut self) -> &mut [T] {
        std::slice::from_mut(self)
    }
}

impl<T: Elem> Seq<T> for LRc<T> {
    common!(K_RC, display);
    borrows!(T, |v: &T| span(std::slice::from_ref(v)),);
    fn ptr(&self) -> *const T {
        &**self
    }
    fn len(&self) -> usize {
        1
    }
    fn slice(&self) -> &[T] {
        std::slice::from_ref(self)
    }
    fn slice_mut(&mut self) -> &mut [T] {
        std::slice::from_mut(LRc::get_mut(self).expect("the only Rc"))
    }
}

/// How a new container is made.
/// 0 new, 1 with_marker, 2 with_capacity, 3 with_capacity_and_marker, 4 try_with_capacity,
/// 5 try_with_capacity_and_marker, 6 default
pub fn construct<T: Elem>(
    kind: u16,
    how: u16,
    cap: usize,
    marker: AllocMarker,
) -> Result<Dyn<T>, Refused> {
    macro_rules! make {
        ($t:ty) => {
            Box::new(match how {
                0 => <$t>::new(),
                1 => <$t>::with_marker(marker),
                2 => <$t>::with_capacity(cap),
                3 => <$t>::with_capacity_and_marker(cap, marker),
                4 => <$t>::try_with_capacity(cap).map_err(|_| Refused)?,
                5 => <$t>::try_with_capacity_and_marker(cap, marker).map_err(|_| Refused)?,
                _ => <$t>::default(),
            })
        };
    }
    Ok(match kind {
        K_S0 => make!(SmallVec<T, 0>),
        K_S1 => make!(SmallVec<T, 1>),
        K_S2 => make!(SmallVec<T, 2>),
        K_S3 => make!(SmallVec<T, 3>),
        K_S8 => make!(SmallVec<T, 8>),
        K_S20 => make!(SmallVec<T, 20>),
        K_S300 => make!(SmallVec<T, 300>),
        _ => make!(LVec<T>),
    })
}

pub fn from_slice<T: Elem>(kind: u16, s: &mut [T], unique: bool) -> Dyn<T> {
    macro_rules! make {
        ($t:ty) => {
            Box::new(if unique { <$t>::from(s) } else { <$t>::from(&*s) })
        };
    }
    match kind {
        K_S0 => make!(SmallVec<T, 0>),
        K_S1 => make!(SmallVec<T, 1>),
        K_S2 => make!(SmallVec<T, 2>),
        K_S3 => make!(SmallVec<T, 3>),
        K_S8 => make!(SmallVec<T, 8>),
        K_S20 => make!(SmallVec<T, 20>),
        K_S300 => make!(SmallVec<T, 300>),
        _ => make!(LVec<T>),
    }
}

pub fn from_iter<T: Elem>(kind: u16, iter: &mut dyn Iterator<Item = T>) -> Dyn<T> {
    match kind {
        K_S0 => Box::new(iter.collect::<SmallVec<T, 0>>()),
        K_S1 => Box::new(iter.collect::<SmallVec<T, 1>>()),
        K_S2 => Box::new(iter.collect::<SmallVec<T, 2>>()),
        K_S3 => Box::new(iter.collect::<SmallVec<T, 3>>()),
        K_S8 => Box::new(iter.collect::<SmallVec<T, 8>>()),
        K_S20 => Box::new(iter.collect::<SmallVec<T, 20>>()),
        K_S300 => Box::new(iter.collect::<SmallVec<T, 300>>()),
        _ => Box::new(iter.collect::<LVec<T>>()),
    }
}

fn array<T: Elem, const L: usize>(v: Vec<T>) -> [T; L] {
    v.try_into().ok().expect("length")
}

pub const ARRAY_LENS: [usize; 5] = [0, 1, 3, 4, 9];

pub fn from_array<T: Elem>(kind: u16, v: Vec<T>) -> Dyn<T> {
    macro_rules! make {
        ($t:ty) => {
            Box::new(match v.len() {
                0 => <$t>::from(array::<T, 0>(v)),
                1 => <$t>::from(array::<T, 1>(v)),
                3 => <$t>::from(array::<T, 3>(v)),
                4 => <$t>::from(array::<T, 4>(v)),
                _ => <$t>::from(array::<T, 9>(v)),
            })
        };
    }
    match kind {
        K_S0 => make!(SmallVec<T, 0>),
        K_S1 => make!(SmallVec<T, 1>),
        K_S2 => make!(SmallVec<T, 2>),
        K_S3 => make!(SmallVec<T, 3>),
        K_S8 => make!(SmallVec<T, 8>),
        K_S20 => make!(SmallVec<T, 20>),
        K_S300 => make!(SmallVec<T, 300>),
        _ => make!(LVec<T>),
    }
}

/// Which conversions there are.
pub fn converts(from: u16, to: u16) -> bool {
    match from {
        K_VEC => (K_S0..=K_SLICE).contains(&to),
        K_S0..=K_S300 => to == K_VEC || to == K_SLICE,
        K_SLICE => to <= K_S300,
        K_BOX => to == K_RC,
        _ => false,
    }
}

pub fn convert<T: Elem>(c: Dyn<T>, to: u16) -> Dyn<T> {
    let from = c.kind();
    let any = c.into_any();
    macro_rules! small {
        ($n:expr) => {{
            let v = *any.downcast::<SmallVec<T, $n>>().ok().unwrap();
            match to {
                K_VEC => Box::new(v.into_vec()) as Dyn<T>,
                _ => Box::new(v.into_boxed_slice()),
            }
        }};
    }
    match from {
        K_VEC => {
            let v = *any.downcast::<LVec<T>>().ok().unwrap();
            match to {
                K_S0 => Box::new(SmallVec::<T, 0>::from(v)),
                K_S1 => Box::new(SmallVec::<T, 1>::from(v)),
                K_S2 => Box::new(SmallVec::<T, 2>::from(v)),
                K_S3 => Box::new(SmallVec::<T, 3>::from(v)),
                K_S8 => Box::new(SmallVec::<T, 8>::from(v)),
                K_S20 => Box::new(SmallVec::<T, 20>::from(v)),
                K_S300 => Box::new(SmallVec::<T, 300>::from(v)),
                _ => Box::new(v.into_boxed_slice()),
            }
        }
        K_S0 => small!(0),
        K_S1 => small!(1),
        K_S2 => small!(2),
        K_S3 => small!(3),
        K_S8 => small!(8),
        K_S20 => small!(20),
        K_S300 => small!(300),
        K_SLICE => {
            let b = *any.downcast::<LBox<[T]>>().ok().unwrap();
            match to {
                K_S0 => Box::new(SmallVec::<T, 0>::from(b)),
                K_S1 => Box::new(SmallVec::<T, 1>::from(b)),
                K_S2 => Box::new(SmallVec::<T, 2>::from(b)),
                K_S3 => Box::new(SmallVec::<T, 3>::from(b)),
                K_S8 => Box::new(SmallVec::<T, 8>::from(b)),
                K_S20 => Box::new(SmallVec::<T, 20>::from(b)),
                K_S300 => Box::new(SmallVec::<T, 300>::from(b)),
                _ => Box::new(LVec::from(b)),
            }
        }
        _ => {
            let b = *any.downcast::<LBox<T>>().ok().unwrap();
            Box::new(LRc::from(b))
        }
    }
}

pub fn new_box<T: Elem>(v: T, marker: Option<AllocMarker>) -> Dyn<T> {
    Box::new(match marker {
        None => LBox::new(v),
        Some(m) => LBox::new_with(v, m),
    })
}

/// Move the value out of the box.
pub fn into_inner<T: Elem>(c: Dyn<T>) -> T {
    c.into_any().downcast::<LBox<T>>().ok().unwrap().into_inner()
}

pub fn is_vec<T: Elem>(c: &dyn Seq<T>) -> bool {
    c.kind() == K_VEC
}

pub fn leak<T: Elem>(c: Dyn<T>) -> &'static mut [T] {
    c.into_any().downcast::<LVec<T>>().ok().unwrap().leak()
}

pub fn dealloc<T: Elem>(c: Dyn<T>) {
    c.into_any().downcast::<LVec<T>>().ok().unwrap().dealloc_without_drop()
}

pub fn into_iter<T: Elem>(c: Dyn<T>, f: Walker<T>) {
    let mut it = Own(Some(c.into_any().downcast::<LVec<T>>().ok().unwrap().into_iter()));
    if f(&mut it) == Finish::Forget {
        std::mem::forget(it);
    }
}

/// Extend by references if these are bytes in a `SmallVec`.
pub fn extend_refs(c: &mut dyn Any, s: &'static [u8]) {
    macro_rules! try_it {
        ($($n:literal)*) => {$(
            if let Some(v) = c.downcast_mut::<SmallVec<u8, $n>>() {
                return v.extend(s.iter());
            }
        )*};
    }
    try_it!(0 1 2 3 8 20 300);
    unreachable!()
}

pub fn can_extend_refs(c: &mut dyn Any) -> bool {
    c.is::<SmallVec<u8, 0>>()
        || c.is::<SmallVec<u8, 1>>()
        || c.is::<SmallVec<u8, 2>>()
        || c.is::<SmallVec<u8, 3>>()
        || c.is::<SmallVec<u8, 8>>()
        || c.is::<SmallVec<u8, 20>>()
        || c.is::<SmallVec<u8, 300>>()
}
