//! Arc, Urc and Rc: many handles to one value, held by several simulated threads. Which handles
//! exist is tracked by a reference model as intervals: while an operation that creates or gives up
//! a handle is in progress, that handle possibly exists but not definitely.

use crate::cmp::{self, Looks, Plainly};
use crate::heap;
use crate::plan::*;
use crate::props::{self, Class};
use crate::rng::Rng;
use crate::stats::St;
use crate::vals::*;
use crate::world::*;
use lokky::scope::{Envelop, Envelope, ScopeRecv};
use lokky::{arc, rc, urc};
use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::mem::{self, ManuallyDrop};

// ---------------------------------------------------------------------------------------------
// Model.

#[derive(Clone, Copy, Default)]
pub struct Obj {
    vid: u32,
    addr: usize,
    block: u32,
    key: u32,
    /// Definite and possible strong handles, weak handles, and groups having a strong handle.
    def: [i32; 3],
    pos: [i32; 3],
    /// What happened before all handles given up so far.
    giveup: VC,
    /// Value was moved out.
    out: bool,
    /// An operation that may or may not keep the value is in progress.
    lax: bool,
    made: bool,
}

#[derive(Clone, Copy, Default)]
pub struct Group {
    block: u32,
    def: [i32; 2],
    pos: [i32; 2],
}

/// Bounds of the counts of an object during some operation.
#[derive(Clone, Copy)]
pub struct Watch {
    obj: u32,
    lo: [i32; 3],
    hi: [i32; 3],
}

#[derive(Default)]
pub struct Model {
    pub objs: Vec<Obj>,
    pub grps: Vec<Group>,
}

const S: usize = 0;
const W: usize = 1;
const G: usize = 2;

impl Model {
    pub fn reset(&mut self) {
        self.objs.clear();
        self.grps.clear();
        self.objs.push(Obj::default());
        self.grps.push(Group::default());
    }

    fn new_obj(&mut self) -> u32 {
        self.objs.push(Obj::default());
        self.objs.len() as u32 - 1
    }

    fn new_grp(&mut self) -> u32 {
        self.grps.push(Group::default());
        self.grps.len() as u32 - 1
    }

    /// A block gets freed.
    pub fn freed(&mut self, serial: u32) {
        for (i, o) in self.objs.iter().enumerate() {
            if o.block == serial && (o.def[S] > 0 || o.def[W] > 0) {
                let (s, w) = (o.def[S], o.def[W]);
                violate(
                    Class::EFREE,
                    format!("storage of object {i} is freed while {s} strong and {w} weak handles exist"),
                );
            }
        }
        for g in self.grps.iter() {
            if g.block == serial && (g.def[S] > 0 || g.def[W] > 0) {
                let (s, w) = (g.def[S], g.def[W]);
                violate(
                    Class::EFREE,
                    format!("storage of a group is freed while its {s} strong and {w} weak handles exist"),
                );
            }
        }
    }
}

fn m() -> &'static mut Model {
    &mut w().model
}

fn obj(o: u32) -> &'static mut Obj {
    &mut m().objs[o as usize]
}

fn touch(o: u32) {
    let ob = *obj(o);
    for t in w().threads.iter_mut() {
        if let Some(watch) = &mut t.watch {
            if watch.obj == o {
                for k in 0..3 {
                    watch.lo[k] = watch.lo[k].min(ob.def[k]);
                    watch.hi[k] = watch.hi[k].max(ob.pos[k]);
                }
            }
        }
    }
}

/// Start of an operation that may create a handle.
fn open(k: usize, o: u32, g: u32) {
    obj(o).pos[k] += 1;
    if g != 0 {
        let gr = &mut m().grps[g as usize];
        gr.pos[k] += 1;
        if k == S && gr.pos[S] == 1 {
            obj(o).pos[G] += 1;
        }
    }
    touch(o);
}

/// The handle exists.
fn commit(k: usize, o: u32, g: u32) {
    obj(o).def[k] += 1;
    if g != 0 {
        let gr = &mut m().grps[g as usize];
        gr.def[k] += 1;
        if k == S && gr.def[S] == 1 {
            obj(o).def[G] += 1;
        }
    }
    touch(o);
}

/// Start of an operation that may give up the handle.
fn give(k: usize, o: u32, g: u32) {
    obj(o).def[k] -= 1;
    if g != 0 {
        let gr = &mut m().grps[g as usize];
        gr.def[k] -= 1;
        if k == S && gr.def[S] == 0 {
            obj(o).def[G] -= 1;
        }
    }
    touch(o);
}

/// The handle does not exist.
fn close(k: usize, o: u32, g: u32) {
    let vc = w().th().vc;
    let ob = obj(o);
    ob.giveup.join(&vc);
    ob.pos[k] -= 1;
    if g != 0 {
        let gr = &mut m().grps[g as usize];
        gr.pos[k] -= 1;
        let gr = *gr;
        if k == S && gr.pos[S] == 0 {
            obj(o).pos[G] -= 1;
        }
        if gr.pos == [0, 0] && gr.block != 0 && !block_freed(gr.block) {
            soft(Class::LEAKB, || "storage of a group without handles is not freed".into());
        }
    }
    touch(o);
    let ob = *obj(o);
    if !ob.made {
        return;
    }
    if k == S && ob.pos[S] == 0 && !ob.out {
        if let Some(r) = w().vals.get(ob.vid) {
            if r.state == State::Alive {
                let id = ob.vid;
                soft(Class::LEAKV, || {
                    format!("last strong handle of object {o} is gone but value #{id} is alive")
                });
            }
        }
    }
    if ob.pos[S] == 0 && ob.pos[W] == 0 && !block_freed(ob.block) {
        soft(Class::LEAKB, || {
            format!("last handle of object {o} is gone but its storage is not freed")
        });
    }
}

fn block_freed(serial: u32) -> bool {
    w().heap.by_serial(serial).map_or(true, |b| b.freed)
}

/// The operation that might have given up the handle did not.
fn regain(k: usize, o: u32, g: u32) {
    commit(k, o, g)
}

struct Closing(usize, u32, u32);

impl Drop for Closing {
    fn drop(&mut self) {
        close(self.0, self.1, self.2)
    }
}

/// No other handle exists, nor can it appear; the caller knows that.
fn alone(o: u32, weak_too: bool) -> bool {
    let ob = obj(o);
    ob.pos[S] == 1 && (!weak_too || ob.pos[W] == 0) && w().th().vc.covers(&ob.giveup)
}

fn watch(o: u32) {
    let ob = *obj(o);
    w().th().watch = Some(Watch { obj: o, lo: ob.def, hi: ob.pos });
}

fn unwatch() -> Watch {
    w().th().watch.take().unwrap()
}

// ---------------------------------------------------------------------------------------------
// Kinds of pointers.

fn looks<X: Hash + Debug + Display>(x: &X, style: u16) -> Looks {
    Looks {
        hash: cmp::digest(x),
        debug: cmp::debug(x, style),
        display: cmp::display(x, style),
    }
}

struct SimRecv;
impl ScopeRecv<'static> for SimRecv {}

#[allow(unused_variables)]
pub trait Fam: Sized + 'static {
    const SCEN: usize;
    type S<T: 'static>: 'static;
    type W<T: 'static>: 'static;
    type F<T: 'static>: 'static;
    type E<T: 'static>: 'static;
    const NEW_KINDS: u16;
    fn fallible(kind: u16) -> bool;
    fn make<T: 'static>(v: T, kind: u16) -> Result<Self::S<T>, ()>;
    fn make_uninit<T: 'static>(fallible: bool) -> Result<(), ()>;
    fn clone<T: 'static>(s: &Self::S<T>) -> Self::S<T>;
    fn assign<T: 'static>(a: &mut Self::S<T>, b: &Self::S<T>);
    fn downgrade<T: 'static>(s: &Self::S<T>) -> Self::W<T>;
    fn get<T: 'static>(s: &Self::S<T>) -> &T;
    fn ptr<T: 'static>(s: &Self::S<T>) -> *const T;
    fn get_mut<T: 'static>(s: &mut Self::S<T>) -> Option<&mut T>;
    fn make_mut<T: 'static + Clone>(s: &mut Self::S<T>) -> &mut T;
    fn unwrap<T: 'static>(s: Self::S<T>) -> Result<T, Self::S<T>>;
    fn strong<T: 'static>(s: &Self::S<T>) -> usize;
    fn weak<T: 'static>(s: &Self::S<T>) -> usize;
    fn ptr_eq<T: 'static>(a: &Self::S<T>, b: &Self::S<T>) -> bool;
    fn make_default<T: 'static + Default>() -> Self::S<T> {
        unreachable!()
    }
    fn ask<T: 'static + Ord>(a: &Self::S<T>, b: &Self::S<T>, how: u16) -> i32;
    fn looks<T: 'static + Hash + Debug + Display>(s: &Self::S<T>, style: u16) -> Looks;
    /// Addresses of what it may be borrowed or printed as.
    fn borrows<T: 'static>(s: &Self::S<T>) -> [usize; 4];
    fn envelop<T: 'static>(s: &Self::S<T>) -> Self::E<T> {
        unreachable!()
    }
    fn open<T: 'static>(e: Self::E<T>) -> Self::S<T> {
        unreachable!()
    }
    fn fence_addr<T: 'static>(s: &Self::S<T>) -> usize {
        0
    }
    fn into_fence<T: 'static>(s: Self::S<T>) -> Result<Self::F<T>, Self::S<T>> {
        Err(s)
    }
    fn from_fence<T: 'static>(f: Self::F<T>) -> Self::S<T> {
        unreachable!()
    }
    fn sole<T: 'static>(s: &Self::S<T>) -> bool {
        unreachable!()
    }
    fn upgrade<T: 'static>(s: &Self::W<T>) -> Option<Self::S<T>> {
        unreachable!()
    }
    fn weak_debug<T: 'static + Debug>(s: &Self::W<T>) -> String {
        unreachable!()
    }
    fn weak_clone<T: 'static>(s: &Self::W<T>) -> Self::W<T> {
        unreachable!()
    }
    fn weak_assign<T: 'static>(a: &mut Self::W<T>, b: &Self::W<T>) {
        unreachable!()
    }
    fn weak_counts<T: 'static>(s: &Self::W<T>) -> (usize, usize) {
        unreachable!()
    }
    fn weak_ptr_eq<T: 'static>(a: &Self::W<T>, b: &Self::W<T>) -> bool {
        unreachable!()
    }
    fn weak_ptr<T: 'static>(a: &Self::W<T>) -> *const T {
        unreachable!()
    }
}

pub struct ArcF;
impl Fam for ArcF {
    const SCEN: usize = ARC;
    type S<T: 'static> = arc::Arc<T>;
    type W<T: 'static> = arc::Weak<T>;
    type F<T: 'static> = ();
    type E<T: 'static> = Envelope<'static, arc::Arc<T>>;
    const NEW_KINDS: u16 = 5;
    fn make_default<T: 'static + Default>() -> Self::S<T> {
        Default::default()
    }
    fn ask<T: 'static + Ord>(a: &Self::S<T>, b: &Self::S<T>, how: u16) -> i32 {
        cmp::ask(a, b, how)
    }
    fn looks<T: 'static + Hash + Debug + Display>(s: &Self::S<T>, style: u16) -> Looks {
        looks(s, style)
    }
    fn borrows<T: 'static>(s: &Self::S<T>) -> [usize; 4] {
        let p: &T = s;
        let own = p as *const T;
        let r = AsRef::<T>::as_ref(s) as *const T;
        let b = Borrow::<T>::borrow(s) as *const T;
        let shown = usize::from_str_radix(&format!("{:p}", *s)[2..], 16).unwrap_or(0);
        [own as usize, r as usize, b as usize, shown]
    }
    fn fallible(kind: u16) -> bool {
        kind & 1 == 1 && kind != DEFAULT
    }
    fn make<T: 'static>(v: T, kind: u16) -> Result<arc::Arc<T>, ()> {
        match kind {
            0 => Ok(arc::Arc::new(v)),
            1 => arc::Arc::try_new(v).map_err(|_| ()),
            2 => Ok(unsafe { std::pin::Pin::into_inner_unchecked(arc::Arc::pin(v)) }),
            _ => arc::Arc::try_pin(v)
                .map(|p| unsafe { std::pin::Pin::into_inner_unchecked(p) })
                .map_err(|_| ()),
        }
    }
    fn make_uninit<T: 'static>(fallible: bool) -> Result<(), ()> {
        if fallible {
            arc::Arc::<T>::try_new_uninit().map(|_| ()).map_err(|_| ())
        } else {
            drop(arc::Arc::<T>::new_uninit());
            Ok(())
        }
    }
    fn assign<T: 'static>(a: &mut arc::Arc<T>, b: &arc::Arc<T>) {
        a.clone_from(b)
    }
    fn clone<T: 'static>(s: &arc::Arc<T>) -> arc::Arc<T> {
        s.clone()
    }
    fn downgrade<T: 'static>(s: &arc::Arc<T>) -> arc::Weak<T> {
        arc::Arc::downgrade(s)
    }
    fn get<T: 'static>(s: &arc::Arc<T>) -> &T {
        s
    }
    fn ptr<T: 'static>(s: &arc::Arc<T>) -> *const T {
        arc::Arc::as_ptr(s)
    }
    fn get_mut<T: 'static>(s: &mut arc::Arc<T>) -> Option<&mut T> {
        arc::Arc::get_mut(s)
    }
    fn make_mut<T: 'static + Clone>(s: &mut arc::Arc<T>) -> &mut T {
        arc::Arc::make_mut(s)
    }
    fn unwrap<T: 'static>(s: arc::Arc<T>) -> Result<T, arc::Arc<T>> {
        arc::Arc::try_unwrap(s)
    }
    fn strong<T: 'static>(s: &arc::Arc<T>) -> usize {
        arc::Arc::strong_count(s)
    }
    fn weak<T: 'static>(s: &arc::Arc<T>) -> usize {
        arc::Arc::weak_count(s)
    }
    fn ptr_eq<T: 'static>(a: &arc::Arc<T>, b: &arc::Arc<T>) -> bool {
        arc::Arc::ptr_eq(a, b)
    }
    fn envelop<T: 'static>(s: &arc::Arc<T>) -> Self::E<T> {
        s.envelop(&SimRecv)
    }
    fn open<T: 'static>(e: Self::E<T>) -> arc::Arc<T> {
        SimRecv.recv(e)
    }
}

pub struct UrcF;
impl Fam for UrcF {
    const SCEN: usize = URC;
    type S<T: 'static> = urc::Urc<T>;
    type W<T: 'static> = urc::Weak<T>;
    type F<T: 'static> = urc::Fence<T>;
    type E<T: 'static> = Envelope<'static, urc::Urc<T>>;
    const NEW_KINDS: u16 = 5;
    fn make_default<T: 'static + Default>() -> Self::S<T> {
        Default::default()
    }
    fn ask<T: 'static + Ord>(a: &Self::S<T>, b: &Self::S<T>, how: u16) -> i32 {
        cmp::ask(a, b, how)
    }
    fn looks<T: 'static + Hash + Debug + Display>(s: &Self::S<T>, style: u16) -> Looks {
        looks(s, style)
    }
    fn borrows<T: 'static>(s: &Self::S<T>) -> [usize; 4] {
        let p: &T = s;
        let own = p as *const T;
        let r = AsRef::<T>::as_ref(s) as *const T;
        let b = Borrow::<T>::borrow(s) as *const T;
        let shown = usize::from_str_radix(&format!("{:p}", *s)[2..], 16).unwrap_or(0);
        [own as usize, r as usize, b as usize, shown]
    }
    fn fallible(kind: u16) -> bool {
        kind & 1 == 1 && kind != DEFAULT
    }
    fn make<T: 'static>(v: T, kind: u16) -> Result<urc::Urc<T>, ()> {
        match kind {
            0 => Ok(urc::Urc::new(v)),
            1 => urc::Urc::try_new(v).map_err(|_| ()),
            2 => Ok(unsafe { std::pin::Pin::into_inner_unchecked(urc::Urc::pin(v)) }),
            _ => urc::Urc::try_pin(v)
                .map(|p| unsafe { std::pin::Pin::into_inner_unchecked(p) })
                .map_err(|_| ()),
        }
    }
    fn make_uninit<T: 'static>(fallible: bool) -> Result<(), ()> {
        if fallible {
            urc::Urc::<T>::try_new_uninit().map(|_| ()).map_err(|_| ())
        } else {
            drop(urc::Urc::<T>::new_uninit());
            Ok(())
        }
    }
    fn assign<T: 'static>(a: &mut urc::Urc<T>, b: &urc::Urc<T>) {
        a.clone_from(b)
    }
    fn clone<T: 'static>(s: &urc::Urc<T>) -> urc::Urc<T> {
        s.clone()
    }
    fn downgrade<T: 'static>(s: &urc::Urc<T>) -> urc::Weak<T> {
        urc::Urc::downgrade(s)
    }
    fn get<T: 'static>(s: &urc::Urc<T>) -> &T {
        s
    }
    fn ptr<T: 'static>(s: &urc::Urc<T>) -> *const T {
        urc::Urc::as_ptr(s)
    }
    fn get_mut<T: 'static>(s: &mut urc::Urc<T>) -> Option<&mut T> {
        urc::Urc::get_mut(s)
    }
    fn make_mut<T: 'static + Clone>(s: &mut urc::Urc<T>) -> &mut T {
        urc::Urc::make_mut(s)
    }
    fn unwrap<T: 'static>(s: urc::Urc<T>) -> Result<T, urc::Urc<T>> {
        urc::Urc::try_unwrap(s)
    }
    fn strong<T: 'static>(s: &urc::Urc<T>) -> usize {
        urc::Urc::fence_strong_count(s)
    }
    fn weak<T: 'static>(s: &urc::Urc<T>) -> usize {
        urc::Urc::fence_weak_count(s)
    }
    fn ptr_eq<T: 'static>(a: &urc::Urc<T>, b: &urc::Urc<T>) -> bool {
        urc::Urc::ptr_eq(a, b)
    }
    fn envelop<T: 'static>(s: &urc::Urc<T>) -> Self::E<T> {
        s.envelop(&SimRecv)
    }
    fn open<T: 'static>(e: Self::E<T>) -> urc::Urc<T> {
        SimRecv.recv(e)
    }
    fn fence_addr<T: 'static>(s: &urc::Urc<T>) -> usize {
        urc::Urc::fence_of(s) as *const _ as usize
    }
    fn into_fence<T: 'static>(s: urc::Urc<T>) -> Result<urc::Fence<T>, urc::Urc<T>> {
        urc::Urc::try_into_fence(s).map(|p| p.into_inner())
    }
    fn from_fence<T: 'static>(f: urc::Fence<T>) -> urc::Urc<T> {
        f.into_urc()
    }
    fn sole<T: 'static>(s: &urc::Urc<T>) -> bool {
        urc::Urc::is_sole_strong_fence(s)
    }
}

pub struct RcF;
impl Fam for RcF {
    const SCEN: usize = RC;
    type S<T: 'static> = rc::Rc<T>;
    type W<T: 'static> = rc::Weak<T>;
    type F<T: 'static> = ();
    type E<T: 'static> = ();
    const NEW_KINDS: u16 = 2;
    fn ask<T: 'static + Ord>(a: &Self::S<T>, b: &Self::S<T>, how: u16) -> i32 {
        cmp::ask(a, b, how)
    }
    fn looks<T: 'static + Hash + Debug + Display>(s: &Self::S<T>, style: u16) -> Looks {
        looks(s, style)
    }
    fn borrows<T: 'static>(s: &Self::S<T>) -> [usize; 4] {
        let p: &T = s;
        let own = p as *const T;
        let r = AsRef::<T>::as_ref(s) as *const T;
        let b = Borrow::<T>::borrow(s) as *const T;
        let shown = own as usize;
        [own as usize, r as usize, b as usize, shown]
    }
    fn fallible(_: u16) -> bool {
        false
    }
    fn make<T: 'static>(v: T, kind: u16) -> Result<rc::Rc<T>, ()> {
        match kind {
            0 => Ok(rc::Rc::new(v)),
            _ => Ok(rc::Rc::from(lokky::boxed::Box::new(v))),
        }
    }
    fn make_uninit<T: 'static>(_: bool) -> Result<(), ()> {
        let n = rc::Weak::<T>::new();
        let c = n.clone();
        let ok = n.upgrade().is_none()
            && n.strong_count() == 0
            && n.weak_count() == 0
            && n.ptr_eq(&c)
            && rc::Weak::<T>::default().upgrade().is_none();
        if !ok {
            soft(Class::UPGRADE, || "dangling Weak refers to something".into());
        }
        Ok(())
    }
    fn assign<T: 'static>(a: &mut rc::Rc<T>, b: &rc::Rc<T>) {
        a.clone_from(b)
    }
    fn clone<T: 'static>(s: &rc::Rc<T>) -> rc::Rc<T> {
        s.clone()
    }
    fn downgrade<T: 'static>(s: &rc::Rc<T>) -> rc::Weak<T> {
        rc::Rc::downgrade(s)
    }
    fn get<T: 'static>(s: &rc::Rc<T>) -> &T {
        s
    }
    fn ptr<T: 'static>(s: &rc::Rc<T>) -> *const T {
        rc::Rc::as_ptr(s)
    }
    fn get_mut<T: 'static>(s: &mut rc::Rc<T>) -> Option<&mut T> {
        rc::Rc::get_mut(s)
    }
    fn make_mut<T: 'static + Clone>(s: &mut rc::Rc<T>) -> &mut T {
        rc::Rc::make_mut(s)
    }
    fn unwrap<T: 'static>(s: rc::Rc<T>) -> Result<T, rc::Rc<T>> {
        rc::Rc::try_unwrap(s)
    }
    fn strong<T: 'static>(s: &rc::Rc<T>) -> usize {
        rc::Rc::strong_count(s)
    }
    fn weak<T: 'static>(s: &rc::Rc<T>) -> usize {
        rc::Rc::weak_count(s)
    }
    fn ptr_eq<T: 'static>(a: &rc::Rc<T>, b: &rc::Rc<T>) -> bool {
        rc::Rc::ptr_eq(a, b)
    }
    fn upgrade<T: 'static>(s: &rc::Weak<T>) -> Option<rc::Rc<T>> {
        s.upgrade()
    }
    fn weak_debug<T: 'static + Debug>(s: &rc::Weak<T>) -> String {
        format!("{s:?}")
    }
    fn weak_assign<T: 'static>(a: &mut rc::Weak<T>, b: &rc::Weak<T>) {
        a.clone_from(b)
    }
    fn weak_clone<T: 'static>(s: &rc::Weak<T>) -> rc::Weak<T> {
        s.clone()
    }
    fn weak_counts<T: 'static>(s: &rc::Weak<T>) -> (usize, usize) {
        (s.strong_count(), s.weak_count())
    }
    fn weak_ptr_eq<T: 'static>(a: &rc::Weak<T>, b: &rc::Weak<T>) -> bool {
        a.ptr_eq(b)
    }
    fn weak_ptr<T: 'static>(a: &rc::Weak<T>) -> *const T {
        a.as_ptr()
    }
}

// ---------------------------------------------------------------------------------------------
// Values and handles.

/// What makes values differ in size and alignment.
pub trait Pad: Copy + 'static {
    fn make(key: u32) -> Self;
    fn ok(&self, key: u32) -> bool;
}

impl Pad for () {
    fn make(_: u32) {}
    fn ok(&self, _: u32) -> bool {
        true
    }
}

#[derive(Clone, Copy)]
#[repr(C, align(64))]
pub struct BigPad([u64; 112]);

impl Pad for BigPad {
    fn make(key: u32) -> Self {
        BigPad(std::array::from_fn(|i| key as u64 * 0x1_0001 + i as u64))
    }
    fn ok(&self, key: u32) -> bool {
        self as *const _ as usize % 64 == 0
            && self.0.iter().enumerate().all(|(i, &v)| v == key as u64 * 0x1_0001 + i as u64)
    }
}

enum Stashed<P: Fam, L: Pad> {
    S(H<P, L>),
    W(K<P, L>),
}

#[repr(C)]
pub struct Val<P: Fam, L: Pad> {
    tag: Tag,
    stash: UnsafeCell<Vec<Stashed<P, L>>>,
    pad: L,
}

impl<P: Fam, L: Pad> Val<P, L> {
    fn new(key: u32) -> Self {
        Val { tag: Tag::new(key), stash: UnsafeCell::new(Vec::new()), pad: L::make(key) }
    }

    fn set_key(&mut self, key: u32) {
        self.tag.access(true);
        self.tag.key = key;
        self.pad = L::make(key);
        let id = self.tag.id;
        let rec = w().vals.get(id).unwrap();
        rec.key = key;
        let o = rec.obj;
        if o != 0 {
            obj(o).key = key;
        }
        w().log("write", id as u64, key as u64);
    }
}

/// `new` of this kind is by `Default`.
const DEFAULT: u16 = 4;
/// The values to be given, by simulated thread.
static mut DEFAULT_VALUE: [*mut (); 16] = [std::ptr::null_mut(); 16];

impl<P: Fam, L: Pad> Default for Val<P, L> {
    fn default() -> Self {
        sched();
        let v = unsafe { (DEFAULT_VALUE[w().cur] as *mut Option<Val<P, L>>).as_mut() };
        v.and_then(|v| v.take()).unwrap_or_else(|| Val::new(0))
    }
}

impl<P: Fam, L: Pad> Val<P, L> {
    /// User code that reads the value runs.
    fn callback(&self, kind: u8, what: &str) -> Plainly {
        self.tag.check(what);
        self.tag.access(false);
        sched();
        fault_point(kind);
        reenter::<P, L>();
        self.tag.check(what);
        self.tag.access(false);
        Plainly(self.tag.key)
    }
}

impl<P: Fam, L: Pad> Clone for Val<P, L> {
    fn clone(&self) -> Self {
        let key = self.callback(P_CLONE, "clone").0;
        Val::new(key)
    }
}

impl<P: Fam, L: Pad> PartialEq for Val<P, L> {
    fn eq(&self, other: &Self) -> bool {
        self.callback(P_EQ, "comparison") == other.callback(P_EQ, "comparison")
    }
}

impl<P: Fam, L: Pad> Eq for Val<P, L> {}

impl<P: Fam, L: Pad> PartialOrd for Val<P, L> {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        let a = self.callback(P_EQ, "comparison");
        a.partial_cmp(&other.callback(P_EQ, "comparison"))
    }
}

impl<P: Fam, L: Pad> Ord for Val<P, L> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.callback(P_EQ, "comparison").cmp(&other.callback(P_EQ, "comparison"))
    }
}

impl<P: Fam, L: Pad> Hash for Val<P, L> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.callback(P_EQ, "hash").hash(h)
    }
}

impl<P: Fam, L: Pad> Debug for Val<P, L> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        Debug::fmt(&self.callback(P_EQ, "formatting"), f)
    }
}

impl<P: Fam, L: Pad> Display for Val<P, L> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        Display::fmt(&self.callback(P_EQ, "formatting"), f)
    }
}

/// What the user code that is called next does with the handles of its thread.
#[derive(Clone, Copy)]
struct Reenter {
    act: u16,
    which: u16,
    /// How many calls pass before that.
    skip: u16,
}

static mut REENTER: [Option<Reenter>; NT] = [None; NT];

const ACTS: u16 = 6;

/// The operation's second argument also tells what user code does in it.
fn arm_reenter(op: Option<&Op>) {
    let r = op.filter(|op| op.b >= 8).map(|op| {
        let n = (op.b >> 3) - 1;
        Reenter { act: n % ACTS, which: op.c, skip: n / ACTS % 2 }
    });
    unsafe { REENTER[w().cur] = r }
}

fn reenter<P: Fam, L: Pad>() {
    let t = w().cur;
    let Some(r) = (unsafe { REENTER[t] }) else { return };
    if crate::vals::panicking() {
        return;
    }
    if r.skip > 0 {
        unsafe { REENTER[t] = Some(Reenter { skip: r.skip - 1, ..r }) };
        return;
    }
    unsafe { REENTER[t] = None };
    let sl = slots::<P, L>(t);
    let (ns, nw) = (sl.s.len(), sl.w.len());
    let (i, j) = (r.which as usize % ns.max(1), r.which as usize % nw.max(1));
    w().log("reenter", r.act as u64, r.which as u64);
    let done = match r.act {
        0 if ns > 0 => {
            drop(sl.s.swap_remove(i));
            true
        }
        1 if nw > 0 => {
            drop(sl.w.swap_remove(j));
            true
        }
        2 if ns > 0 && ns < 12 => {
            let h = clone_handle(&sl.s[i]);
            sl.s.push(h);
            true
        }
        3 if ns > 0 && nw < 12 => {
            let k = weak_of(&sl.s[i]);
            sl.w.push(k);
            true
        }
        4 if nw > 0 && ns < 12 && P::SCEN == RC => {
            if let Some(h) = sl.w[j].upgrade() {
                sl.s.push(h);
            }
            true
        }
        5 if ns > 0 => {
            let h = &sl.s[i];
            P::get(&h.s).tag.check("handle");
            P::get(&h.s).tag.access(false);
            true
        }
        _ => false,
    };
    if done {
        w().stat(St::f_reentrant_callback);
    }
}

fn clone_handle<P: Fam, L: Pad>(h: &H<P, L>) -> H<P, L> {
    let (o, g) = (h.obj, h.grp);
    open(S, o, g);
    let s = P::clone(&h.s);
    commit(S, o, g);
    H { s: ManuallyDrop::new(s), obj: o, grp: g }
}

fn weak_of<P: Fam, L: Pad>(h: &H<P, L>) -> K<P, L> {
    let (o, g) = (h.obj, h.grp);
    open(W, o, g);
    let k = P::downgrade(&h.s);
    commit(W, o, g);
    K { w: ManuallyDrop::new(k), obj: o, grp: g }
}

impl<P: Fam, L: Pad> Drop for Val<P, L> {
    fn drop(&mut self) {
        self.tag.access_if_known(true);
        let id = self.tag.id;
        self.tag.dropping();
        let o = w().vals.recs[id as usize].obj;
        if o != 0 {
            let def = obj(o).def[S];
            if def > 0 {
                violate(
                    Class::EDROP,
                    format!("value #{id} is dropped while {def} strong handles exist"),
                );
            }
        }
        if !self.pad.ok(self.tag.key) {
            violate(Class::DEAD, format!("value #{id} is damaged"));
        }
        sched();
        reenter::<P, L>();
        // Handles that are in the value.
        let stash = mem::take(self.stash.get_mut());
        if P::SCEN == RC {
            for s in &stash {
                if let Stashed::W(k) = s {
                    if k.obj == o {
                        w().stat(St::p_upgrade_none_in_destructor);
                    }
                    drop(k.upgrade());
                }
            }
        }
        if !stash.is_empty() {
            w().stat(St::f_reentrant_drop);
        }
        drop(stash);
        fault_point(P_DROP);
    }
}

/// Strong handle.
pub struct H<P: Fam, L: Pad> {
    s: ManuallyDrop<P::S<Val<P, L>>>,
    obj: u32,
    grp: u32,
}

impl<P: Fam, L: Pad> H<P, L> {
    /// Take the pointer out without giving the handle up.
    fn take(self) -> P::S<Val<P, L>> {
        let mut this = ManuallyDrop::new(self);
        unsafe { ManuallyDrop::take(&mut this.s) }
    }

    /// The handle is of the right object and that shows the right value.
    fn check(&self) {
        let ob = *obj(self.obj);
        let p = P::ptr(&self.s);
        let v = P::get(&self.s);
        w().heap_access(p as usize, "handle access");
        if p as usize != ob.addr || v as *const _ as usize != ob.addr {
            violate(Class::DEAD, format!("handle of object {} refers to something else", self.obj));
        }
        v.tag.check("handle");
        if v.tag.id != ob.vid || v.tag.key != ob.key || !v.pad.ok(ob.key) {
            violate(
                Class::COW,
                format!(
                    "handle of object {} shows value #{}:{} instead of #{}:{}",
                    self.obj, v.tag.id, v.tag.key, ob.vid, ob.key
                ),
            );
        }
        v.tag.access(false);
        if P::SCEN == URC {
            let g = m().grps[self.grp as usize];
            let (s, k) = (P::strong(&self.s), P::weak(&self.s));
            if (s, k) != (g.def[S] as usize, g.def[W] as usize) {
                soft(Class::COUNT, || {
                    format!("group counts are {s}, {k} but handles are {}, {}", g.def[S], g.def[W])
                });
            }
        }
        if P::SCEN == RC {
            let (s, k) = (P::strong(&self.s), P::weak(&self.s));
            if (s, k) != (ob.def[S] as usize, ob.def[W] as usize) {
                soft(Class::COUNT, || {
                    format!("counts are {s}, {k} but handles are {}, {}", ob.def[S], ob.def[W])
                });
            }
        }
    }
}

impl<P: Fam, L: Pad> Drop for H<P, L> {
    fn drop(&mut self) {
        give(S, self.obj, self.grp);
        let _closing = Closing(S, self.obj, self.grp);
        unsafe { ManuallyDrop::drop(&mut self.s) }
    }
}

/// Weak handle.
pub struct K<P: Fam, L: Pad> {
    w: ManuallyDrop<P::W<Val<P, L>>>,
    obj: u32,
    grp: u32,
}

impl<P: Fam, L: Pad> K<P, L> {
    fn upgrade(&self) -> Option<H<P, L>> {
        let ob = *obj(self.obj);
        let expect = ob.def[S] > 0;
        // Whether the value is shared right now is not known for sure.
        let lax = ob.lax && !expect && ob.pos[S] > 0;
        open(S, self.obj, self.grp);
        let r = P::upgrade(&self.w);
        if r.is_some() != expect && !lax {
            let o = self.obj;
            soft(Class::UPGRADE, || {
                if expect {
                    format!("upgrade of live object {o} gives None")
                } else {
                    format!("upgrade of object {o} gives a handle after the value is gone")
                }
            });
        }
        match r {
            Some(s) => {
                if !expect && !lax {
                    // This destroys everything.
                    harness_foreign();
                }
                w().stat(St::p_upgrade_some);
                commit(S, self.obj, self.grp);
                let h = H::<P, L> { s: ManuallyDrop::new(s), obj: self.obj, grp: self.grp };
                let ob = *obj(self.obj);
                if P::ptr(&h.s) as usize != ob.addr {
                    violate(Class::UPGRADE, "upgrade gives another object".into());
                }
                Some(h)
            }
            None => {
                w().stat(St::p_upgrade_none);
                close(S, self.obj, self.grp);
                None
            }
        }
    }
}

fn harness_foreign() -> ! {
    violate(Class::UPGRADE, "upgraded after the value is gone".into())
}

impl<P: Fam, L: Pad> Drop for K<P, L> {
    fn drop(&mut self) {
        give(W, self.obj, self.grp);
        let _closing = Closing(W, self.obj, self.grp);
        unsafe { ManuallyDrop::drop(&mut self.w) }
    }
}

/// Envelope on its way.
struct Env<P: Fam, L: Pad> {
    e: ManuallyDrop<P::E<Val<P, L>>>,
    obj: u32,
    grp: u32,
}

impl<P: Fam, L: Pad> Drop for Env<P, L> {
    fn drop(&mut self) {
        w().stat(St::f_envelope_undelivered);
        give(S, self.obj, self.grp);
        let _closing = Closing(S, self.obj, self.grp);
        unsafe { ManuallyDrop::drop(&mut self.e) }
    }
}

struct Fen<P: Fam, L: Pad> {
    f: ManuallyDrop<P::F<Val<P, L>>>,
    obj: u32,
    grp: u32,
}

impl<P: Fam, L: Pad> Drop for Fen<P, L> {
    fn drop(&mut self) {
        give(S, self.obj, self.grp);
        let _closing = Closing(S, self.obj, self.grp);
        unsafe { ManuallyDrop::drop(&mut self.f) }
    }
}

enum Msg<P: Fam, L: Pad> {
    Env(Env<P, L>),
    S(H<P, L>),
    W(K<P, L>),
    Fence(Fen<P, L>),
}

struct Slots<P: Fam, L: Pad> {
    s: Vec<H<P, L>>,
    w: Vec<K<P, L>>,
}

struct State_<P: Fam, L: Pad> {
    slots: [Slots<P, L>; NT],
    mail: [VecDeque<(VC, Msg<P, L>)>; NT],
}

static mut STATE: *mut () = std::ptr::null_mut();

fn slots<P: Fam, L: Pad>(t: usize) -> &'static mut Slots<P, L> {
    unsafe { &mut (*(STATE as *mut State_<P, L>)).slots[t] }
}

fn mail<P: Fam, L: Pad>(t: usize) -> &'static mut VecDeque<(VC, Msg<P, L>)> {
    unsafe { &mut (*(STATE as *mut State_<P, L>)).mail[t] }
}

// ---------------------------------------------------------------------------------------------
// Operations.

pub const OPS: &[&str] = &[
    "new", "clone", "downgrade", "drop", "drop-weak", "read", "get-mut", "make-mut", "try-unwrap",
    "strong-count", "weak-count", "ptr-eq", "send", "send-move", "recv", "discard-message", "sole",
    "upgrade", "weak-ops", "stash-weak", "stash-strong", "new-uninit",
    "compare", "looks", "weak-debug", "forget-many", "assign",
];
const NEW: u8 = 0;
const CLONE: u8 = 1;
const DOWNGRADE: u8 = 2;
const DROP: u8 = 3;
const DROP_WEAK: u8 = 4;
const READ: u8 = 5;
const GET_MUT: u8 = 6;
const MAKE_MUT: u8 = 7;
const UNWRAP: u8 = 8;
const STRONG: u8 = 9;
const WEAK: u8 = 10;
const PTR_EQ: u8 = 11;
const SEND: u8 = 12;
const SEND_MOVE: u8 = 13;
const RECV: u8 = 14;
const DISCARD: u8 = 15;
const SOLE: u8 = 16;
const UPGRADE: u8 = 17;
const WEAK_OPS: u8 = 18;
const STASH_WEAK: u8 = 19;
const STASH_STRONG: u8 = 20;
const UNINIT: u8 = 21;
const COMPARE: u8 = 22;
const LOOKS: u8 = 23;
const WEAK_DEBUG: u8 = 24;
const FORGET_MANY: u8 = 25;
const ASSIGN: u8 = 26;

/// A panic must be injected or be a response to the refusal of memory.
fn check_panic(out: Outcome, what: &str, may_refuse: bool) {
    if out == Outcome::Panicked {
        let w = w();
        let p = w.last_panic.clone();
        if !w.th().fired_oom {
            violate(Class::PANIC, format!("{what} panics: {p}"));
        }
        if !may_refuse {
            violate(Class::OOM, format!("{what} panics instead of returning an error: {p}"));
        }
    }
}

fn grp_for<P: Fam>() -> u32 {
    if P::SCEN == URC {
        m().new_grp()
    } else {
        0
    }
}

/// Register the newly created object.
fn register<P: Fam, L: Pad>(s: &P::S<Val<P, L>>, o: u32, g: u32) {
    let v = P::get(s);
    let addr = P::ptr(s) as usize;
    let (id, key) = (v.tag.id, v.tag.key);
    let block = w().heap.live_block(addr);
    if block == 0 || v as *const _ as usize != addr {
        violate(Class::UAF, "new object is not in allocated memory".into());
    }
    w().vals.get(id).unwrap().obj = o;
    let ob = obj(o);
    ob.vid = id;
    ob.addr = addr;
    ob.block = block;
    ob.key = key;
    ob.made = true;
    set_fence::<P, L>(s, g);
}

fn set_fence<P: Fam, L: Pad>(s: &P::S<Val<P, L>>, g: u32) {
    if g != 0 {
        let b = w().heap.live_block(P::fence_addr(s));
        if b == 0 {
            violate(Class::UAF, "group of the handle is not in allocated memory".into());
        }
        if m().grps.iter().any(|x| x.block == b) {
            soft(Class::COUNT, || "a new group shares its counters with another one".into());
        }
        m().grps[g as usize].block = b;
    }
}

fn op_new<P: Fam, L: Pad>(t: usize, kind: u16, key: u32) {
    let kind = kind % P::NEW_KINDS;
    let o = m().new_obj();
    let g = grp_for::<P>();
    open(S, o, g);
    let v = Val::<P, L>::new(key);
    let id = v.tag.id;
    let (out, r) = if kind == DEFAULT {
        let place = unsafe { &raw mut DEFAULT_VALUE[w().cur] };
        let mut v = Some(v);
        unsafe { *place = &mut v as *mut Option<Val<P, L>> as *mut () };
        let r = call(|| Ok(P::make_default::<Val<P, L>>()));
        unsafe { *place = std::ptr::null_mut() };
        // It need not have been asked for.
        drop(v);
        r
    } else {
        call(|| P::make(v, kind))
    };
    check_panic(out, "new", !P::fallible(kind));
    match r {
        Some(Ok(s)) => {
            let v = P::get(&s);
            v.tag.check("new");
            if v.tag.id != id || v.tag.key != key || !v.pad.ok(key) {
                violate(Class::DEAD, "new object does not hold the given value".into());
            }
            register::<P, L>(&s, o, g);
            commit(S, o, g);
            slots(t).s.push(H::<P, L> { s: ManuallyDrop::new(s), obj: o, grp: g });
        }
        r => {
            if r.is_some() && !w().th().fired_oom {
                violate(Class::OOM, "new fails although memory is available".into());
            }
            close(S, o, g);
            if w().vals.get(id).unwrap().state == State::Alive {
                soft(Class::LEAKV, || format!("new failed but value #{id} is not dropped"));
            }
        }
    }
}

/// Many handles to a new object are made and never given up. To make that many would take ages, so
/// only one is made, and the counter which it has changed is set to what it would be.
fn forget_many<P: Fam, L: Pad>(op: Op, key: u32) {
    enum Dup<P: Fam, L: Pad> {
        S(P::S<Val<P, L>>),
        W(P::W<Val<P, L>>),
        E(P::E<Val<P, L>>),
    }
    // Envelope of Urc takes memory, there cannot be that many.
    let kind = match P::SCEN {
        ARC => op.a % 3,
        RC => [0, 1, 3, 4][op.a as usize % 4],
        _ => op.a % 2,
    };
    let dup = |s: &P::S<Val<P, L>>, w: &Option<P::W<Val<P, L>>>| match (kind, w) {
        (0, _) => Some(Dup::<P, L>::S(P::clone(s))),
        (1, _) => Some(Dup::W(P::downgrade(s))),
        (3, Some(w)) => P::upgrade(w).map(Dup::S),
        (4, Some(w)) => Some(Dup::W(P::weak_clone(w))),
        _ => Some(Dup::E(P::envelop(s))),
    };
    let v = Val::<P, L>::new(key);
    let id = v.tag.id;
    let blocks = heap::block_count();
    let Ok(s) = P::make(v, 0) else { return };
    let block = w().heap.find(P::ptr(&s) as usize).map_or(0, |b| b.serial);
    let weak = (kind > 2).then(|| P::downgrade(&s));
    w().counters = Some(vec![]);
    mem::forget(dup(&s, &weak));
    let mut list = w().counters.take().unwrap();
    list.retain(|c| c.get() == c.old.wrapping_add(1) & c.max());
    let &[counter] = &list[..] else {
        drop(s);
        w().vals.leak(id);
        heap::leak_since(blocks);
        return;
    };
    w().stat(St::f_many_handles_forgotten);
    let spare = op.b as usize % 4;
    let mut dups = vec![];
    let mut refused = false;
    for top in [counter.max() / 2, counter.max()] {
        if refused {
            break;
        }
        counter.set(top - spare);
        for _ in 0..spare + 4 {
            match call(|| dup(&s, &weak)) {
                (_, Some(Some(d))) => dups.push(d),
                _ => {
                    w().stat(St::p_count_limit);
                    refused = true;
                }
            }
        }
    }
    let alive = |strong: bool| {
        let n = block;
        if strong && w().vals.get(id).unwrap().state != State::Alive {
            violate(Class::EDROP, "value is dropped though handles were forgotten: count of these wrapped".into());
        }
        if w().heap.by_serial(n).map_or(true, |b| b.freed) {
            violate(Class::EFREE, "storage is freed though handles were forgotten: count of these wrapped".into());
        }
    };
    alive(true);
    for d in dups {
        let (out, _) = call(|| match d {
            Dup::S(x) => drop(x),
            Dup::W(x) => drop(x),
            Dup::E(x) => drop(x),
        });
        check_panic(out, "drop", false);
        alive(true);
    }
    let (out, _) = call(|| drop(s));
    check_panic(out, "drop", false);
    let weaks = matches!(kind, 1 | 4);
    alive(!weaks);
    let (out, _) = call(|| drop(weak));
    check_panic(out, "drop", false);
    alive(!weaks);
    if weaks && w().vals.get(id).unwrap().state == State::Alive {
        soft(Class::LEAKV, || "last strong handle is gone but the value is alive".into());
    }
    w().vals.leak(id);
    heap::leak_since(blocks);
}

/// One handle is made a copy of another one. Destructor of the value it was of may run.
fn op_assign<P: Fam, L: Pad>(a: &mut H<P, L>, b: &H<P, L>) {
    let (o, g) = (b.obj, b.grp);
    open(S, o, g);
    give(S, a.obj, a.grp);
    let (out, _) = call(|| P::assign(&mut a.s, &b.s));
    commit(S, o, g);
    close(S, a.obj, a.grp);
    (a.obj, a.grp) = (o, g);
    check_panic(out, "clone_from", false);
    a.check();
    b.check();
}

fn op_assign_weak<P: Fam, L: Pad>(a: &mut K<P, L>, b: &K<P, L>) {
    let (o, g) = (b.obj, b.grp);
    open(W, o, g);
    give(W, a.obj, a.grp);
    let (out, _) = call(|| P::weak_assign(&mut a.w, &b.w));
    commit(W, o, g);
    close(W, a.obj, a.grp);
    (a.obj, a.grp) = (o, g);
    check_panic(out, "clone_from of a weak handle", false);
    check_weak(a);
}

fn op_make_mut<P: Fam, L: Pad>(h: &mut H<P, L>, key: u32) {
    h.check();
    let (o, g) = (h.obj, h.grp);
    let before = *obj(o);
    let n = m().new_obj();
    let ng = grp_for::<P>();
    let (only, sole, spurious) = (alone(o, true), alone(o, false), w().spurious_left);
    open(S, n, ng);
    give(S, o, g);
    let (out, r) = call(|| P::make_mut(&mut h.s) as *mut Val<P, L>);
    // No memory is needed if this is the only handle.
    check_panic(out, "make_mut", !only);
    let after = P::ptr(&h.s);
    if only && (r.is_none() || after as usize != before.addr) {
        violate(Class::COW, "make_mut does not give access in place to the only handle".into());
    }
    if after as usize == before.addr {
        close(S, n, ng);
        regain(S, o, g);
        h.check();
        if let Some(p) = r {
            let (ds, pw) = (obj(o).def[S], obj(o).pos[W]);
            if ds != 1 {
                violate(
                    Class::EXCL,
                    format!("make_mut gives access in place while {} other handles exist", ds - 1),
                );
            }
            if P::SCEN == RC && pw != 0 {
                violate(Class::COW, "make_mut does not detach weak handles".into());
            }
            if p as usize != before.addr {
                violate(Class::COW, "make_mut gives access to another value".into());
            }
            w().stat(St::p_make_mut_in_place);
            unsafe { (*p).set_key(key) };
        } else {
            w().stat(St::p_make_mut_failed);
        }
    } else {
        w().heap_access(after as usize, "make_mut result");
        let v = P::get(&h.s);
        v.tag.check("make_mut result");
        let id = v.tag.id;
        let moved = id == before.vid;
        if v.tag.key != before.key || !v.pad.ok(before.key) {
            violate(
                Class::COW,
                format!("make_mut gives value {} instead of {}", v.tag.key, before.key),
            );
        }
        if moved {
            let ds = obj(o).def[S];
            if ds != 0 {
                violate(Class::EXCL, format!("make_mut takes the value of {ds} other handles"));
            }
            obj(o).out = true;
            w().stat(St::p_make_mut_moved);
        } else {
            let other = w().vals.get(id).unwrap().obj;
            if other != 0 {
                violate(Class::COW, "make_mut gives value of another object".into());
            }
            // The exchange that takes the value may fail for no reason.
            if sole && spurious == w().spurious_left {
                violate(Class::COW, "make_mut clones the value of the only strong handle".into());
            }
            w().stat(St::p_make_mut_cloned);
        }
        register::<P, L>(&h.s, n, ng);
        h.obj = n;
        h.grp = ng;
        commit(S, n, ng);
        close(S, o, g);
        h.check();
        if let Some(p) = r {
            if p as *const _ != after {
                violate(Class::COW, "make_mut gives access to another value".into());
            }
            unsafe { (*p).set_key(key) };
        }
    }
}

fn op_get_mut<P: Fam, L: Pad>(h: &mut H<P, L>, key: u32) {
    h.check();
    let o = h.obj;
    let must = alone(o, true);
    let (out, r) = call(|| P::get_mut(&mut h.s).map(|p| p as *mut Val<P, L>));
    check_panic(out, "get_mut", true);
    match r {
        Some(Some(p)) => {
            let d = obj(o).def;
            if d[S] != 1 || d[W] != 0 {
                violate(
                    Class::EXCL,
                    format!("get_mut succeeds while {} other and {} weak handles exist", d[S] - 1, d[W]),
                );
            }
            if p as usize != obj(o).addr {
                violate(Class::EXCL, "get_mut gives access to another value".into());
            }
            w().stat(St::p_get_mut_granted);
            unsafe { (*p).set_key(key) };
        }
        _ => {
            w().stat(St::p_get_mut_refused);
            if must {
                soft(Class::EXCL, || "get_mut is refused although there is no other handle".into());
            }
        }
    }
    h.check();
}

fn op_unwrap<P: Fam, L: Pad>(t: usize, i: usize, rewrap: bool) {
    let h = slots::<P, L>(t).s.swap_remove(i);
    h.check();
    let (o, g) = (h.obj, h.grp);
    let before = *obj(o);
    let must = alone(o, false);
    give(S, o, g);
    let s = h.take();
    let (out, r) = call(|| P::unwrap(s));
    check_panic(out, "try_unwrap", false);
    match r {
        Some(Ok(v)) => {
            let ds = obj(o).def[S];
            if ds != 0 {
                violate(Class::EXCL, format!("try_unwrap succeeds while {ds} other handles exist"));
            }
            let v = ManuallyDrop::new(v);
            v.tag.check("unwrapped value");
            if v.tag.id != before.vid || v.tag.key != before.key || !v.pad.ok(before.key) {
                violate(Class::EXCL, "try_unwrap gives another value".into());
            }
            v.tag.access(true);
            w().stat(St::p_unwrap_granted);
            obj(o).out = true;
            w().vals.get(before.vid).unwrap().obj = 0;
            close(S, o, g);
            w().disarm();
            let v = ManuallyDrop::into_inner(v);
            if rewrap {
                let o = m().new_obj();
                let g = grp_for::<P>();
                open(S, o, g);
                let (out, r) = call(|| P::make(v, 0));
                check_panic(out, "new", true);
                if let Some(Ok(s)) = r {
                    register::<P, L>(&s, o, g);
                    commit(S, o, g);
                    slots(t).s.push(H::<P, L> { s: ManuallyDrop::new(s), obj: o, grp: g });
                }
            } else {
                drop(v);
            }
        }
        Some(Err(s)) => {
            regain(S, o, g);
            if P::ptr(&s) as usize != before.addr {
                violate(Class::EXCL, "refused try_unwrap gives another handle".into());
            }
            let h = H::<P, L> { s: ManuallyDrop::new(s), obj: o, grp: g };
            h.check();
            slots(t).s.push(h);
            w().stat(St::p_unwrap_refused);
            if must {
                soft(Class::EXCL, || "try_unwrap is refused although there is no other handle".into());
            }
        }
        None => {
            // Cannot be as it neither allocates nor calls anything.
            violate(Class::PANIC, "try_unwrap panics".into());
        }
    }
}

fn send<P: Fam, L: Pad>(dest: usize, msg: Msg<P, L>) {
    let w = w();
    let vc = w.threads[w.cur].vc;
    mail(dest).push_back((vc, msg));
    w.log("send", dest as u64, 0);
    let cur = w.cur;
    w.tick(cur);
    w.threads[dest].waiting = false;
}

fn receive<P: Fam, L: Pad>(t: usize, block: bool) -> Option<Msg<P, L>> {
    if mail::<P, L>(t).is_empty() && block && w().concurrent {
        wait();
    }
    let (vc, msg) = mail(t).pop_front()?;
    w().th().vc.join(&vc);
    w().log("receive", 0, 0);
    Some(msg)
}

fn op_send<P: Fam, L: Pad>(h: &H<P, L>, dest: usize) {
    let o = h.obj;
    let g = grp_for::<P>();
    open(S, o, g);
    let (out, r) = call(|| P::envelop(&h.s));
    check_panic(out, "envelop", true);
    match r {
        Some(e) => {
            commit(S, o, g);
            send(dest, Msg::Env(Env::<P, L> { e: ManuallyDrop::new(e), obj: o, grp: g }));
        }
        None => close(S, o, g),
    }
    h.check();
}

fn op_recv<P: Fam, L: Pad>(t: usize, msg: Msg<P, L>) {
    match msg {
        Msg::Env(e) => {
            let mut e = ManuallyDrop::new(e);
            let (o, g) = (e.obj, e.grp);
            let env = unsafe { ManuallyDrop::take(&mut e.e) };
            let s = P::open(env);
            if P::ptr(&s) as usize != obj(o).addr {
                violate(Class::HANDOVER, "received handle is of another object".into());
            }
            w().stat(St::p_envelope_received);
            set_fence::<P, L>(&s, g);
            let h = H::<P, L> { s: ManuallyDrop::new(s), obj: o, grp: g };
            h.check();
            slots(t).s.push(h);
        }
        Msg::S(h) => {
            h.check();
            slots(t).s.push(h)
        }
        Msg::W(k) => slots(t).w.push(k),
        Msg::Fence(f) => {
            let mut f = ManuallyDrop::new(f);
            let (o, g) = (f.obj, f.grp);
            let fence = unsafe { ManuallyDrop::take(&mut f.f) };
            give(S, o, g);
            let (out, r) = call(|| P::from_fence(fence));
            check_panic(out, "into_urc", true);
            match r {
                Some(s) => {
                    regain(S, o, g);
                    if P::ptr(&s) as usize != obj(o).addr {
                        violate(Class::HANDOVER, "received handle is of another object".into());
                    }
                    w().stat(St::p_fence_handed_over);
                    set_fence::<P, L>(&s, g);
                    let h = H::<P, L> { s: ManuallyDrop::new(s), obj: o, grp: g };
                    h.check();
                    slots(t).s.push(h);
                }
                None => close(S, o, g),
            }
        }
    }
}

fn op_send_move<P: Fam, L: Pad>(t: usize, i: usize, dest: usize, weak: bool) {
    if P::SCEN == ARC {
        if weak {
            let n = slots::<P, L>(t).w.len();
            if n > 0 {
                let k = slots::<P, L>(t).w.swap_remove(i % n);
                send(dest, Msg::W(k));
            }
        } else {
            let h = slots::<P, L>(t).s.swap_remove(i);
            send(dest, Msg::S(h));
        }
        return;
    }
    let h = slots::<P, L>(t).s.swap_remove(i);
    let (o, g) = (h.obj, h.grp);
    let sole = m().grps[g as usize].def == [1, 0];
    let ng = grp_for::<P>();
    open(S, o, ng);
    give(S, o, g);
    let s = h.take();
    let (out, r) = call(|| P::into_fence(s));
    check_panic(out, "try_into_fence", false);
    match r {
        Some(Ok(f)) => {
            commit(S, o, ng);
            close(S, o, g);
            if !sole {
                violate(Class::HANDOVER, "fence is taken from under other handles".into());
            }
            send(dest, Msg::Fence(Fen::<P, L> { f: ManuallyDrop::new(f), obj: o, grp: ng }));
        }
        Some(Err(s)) => {
            regain(S, o, g);
            close(S, o, ng);
            let h = H::<P, L> { s: ManuallyDrop::new(s), obj: o, grp: g };
            h.check();
            slots(t).s.push(h);
        }
        None => violate(Class::PANIC, "try_into_fence panics".into()),
    }
}

/// Only a panic of the values may pass.
fn judge_compare(out: Outcome) {
    if out == Outcome::Panicked {
        let msg = w().last_panic.clone();
        soft(Class::COMPARE, || format!("panic: {msg}"));
    }
}

fn op_compare<P: Fam, L: Pad>(a: &H<P, L>, b: &H<P, L>, c: u16) {
    let (ka, kb) = (Plainly(obj(a.obj).key), Plainly(obj(b.obj).key));
    let how = c % 8;
    let odd = c >> 3 & 1 == 0 && how != cmp::CMP;
    // Of whether keys are comparable all threads have to think the same.
    let odd = odd && !w().concurrent;
    cmp::set_unordered(odd);
    let (out, r) = call(|| P::ask(&a.s, &b.s, how));
    cmp::set_unordered(odd);
    let want = cmp::ask(&ka, &kb, how);
    cmp::set_unordered(false);
    judge_compare(out);
    if r.is_some_and(|r| r != want) {
        soft(Class::COMPARE, || {
            let name = cmp::HOW_NAMES[how as usize];
            format!("{name} of handles to {ka} and {kb} is {r:?}, should be {want}")
        });
    }
}

fn op_looks<P: Fam, L: Pad>(a: &H<P, L>, style: u16) {
    let key = Plainly(obj(a.obj).key);
    let (out, r) = call(|| P::looks(&a.s, style));
    judge_compare(out);
    if let Some(r) = r {
        let want = looks(&key, style);
        if r != want {
            soft(Class::COMPARE, || format!("handle: {}, should be {}", r.show(), want.show()));
        }
        let addr = obj(a.obj).addr;
        if P::borrows(&a.s).iter().any(|p| *p != addr) {
            soft(Class::COMPARE, || format!("handle is borrowed or shown as something else: {:x?} for {addr:x}", P::borrows(&a.s)));
        }
    }
}

fn op_weak_debug<P: Fam, L: Pad>(k: &K<P, L>) {
    let o = k.obj;
    // It may hold the value meanwhile.
    obj(o).lax = true;
    open(S, o, k.grp);
    let (out, _) = call(|| P::weak_debug(&k.w));
    close(S, o, k.grp);
    obj(o).lax = false;
    check_panic(out, "formatting", false);
}

/// Whether strong (0) or weak (1) count matches handles that existed during the call.
fn op_count<P: Fam, L: Pad>(h: &H<P, L>, k: usize) {
    if P::SCEN != ARC {
        h.check();
        return;
    }
    watch(h.obj);
    let (out, r) = call(|| if k == S { P::strong(&h.s) } else { P::weak(&h.s) });
    let b = unwatch();
    check_panic(out, "count", false);
    if w().concurrent {
        w().stat(St::p_count_during_concurrency);
    }
    if let Some(v) = r {
        if (v as i128) < b.lo[k] as i128 || v as i128 > b.hi[k] as i128 {
            soft(Class::COUNT, || {
                format!(
                    "{} count is {v:#x} but from {} to {} handles existed meanwhile",
                    ["strong", "weak"][k],
                    b.lo[k],
                    b.hi[k]
                )
            });
        }
    }
}

fn op_sole<P: Fam, L: Pad>(h: &H<P, L>) {
    if P::SCEN != URC {
        return;
    }
    let known = w().th().vc.covers(&obj(h.obj).giveup);
    watch(h.obj);
    let (out, r) = call(|| P::sole(&h.s));
    let b = unwatch();
    check_panic(out, "is_sole_strong_fence", false);
    match r {
        Some(true) => {
            w().stat(St::p_sole_true);
            if b.lo[G] > 1 {
                let n = b.lo[G];
                soft(Class::COUNT, || format!("is_sole_strong_fence is true but {n} groups hold it"));
            }
        }
        _ => {
            w().stat(St::p_sole_false);
            if b.hi[G] <= 1 && known {
                soft(Class::COUNT, || "is_sole_strong_fence is false but there is no other group".into());
            }
        }
    }
}

fn check_own<P: Fam, L: Pad>(t: usize) {
    for h in &slots::<P, L>(t).s {
        h.check();
    }
    if P::SCEN == RC {
        for k in &slots::<P, L>(t).w {
            check_weak(k);
        }
    }
}

fn check_weak<P: Fam, L: Pad>(k: &K<P, L>) {
    let ob = *obj(k.obj);
    let (s, n) = P::weak_counts(&k.w);
    if s as i32 != ob.def[S] || n as i32 != ob.def[W] {
        soft(Class::COUNT, || {
            format!("weak handle: counts are {s}, {n} but handles are {}, {}", ob.def[S], ob.def[W])
        });
    }
}

fn exec<P: Fam, L: Pad>(t: usize, opi: usize, op: Op, nthreads: usize) {
    w().arm(opi, op.fault);
    arm_reenter(Some(&op));
    w().stat(St::ops);
    w().log("op", op.code as u64, opi as u64);
    let sl = slots::<P, L>(t);
    let ns = sl.s.len();
    let nw = sl.w.len();
    let i = op.a as usize % ns.max(1);
    let j = op.b as usize % ns.max(1);
    let key = op.c as u32;
    let dest = if nthreads == 0 { 0 } else { 1 + op.b as usize % nthreads };
    let mt = P::SCEN != RC;
    w().real_ops += 1;
    match op.code {
        NEW => {
            if ns < 12 {
                op_new::<P, L>(t, op.b, key)
            }
        }
        FORGET_MANY => forget_many::<P, L>(op, key),
        UNINIT => {
            let f = op.b & 1 == 1;
            let (out, r) = call(|| P::make_uninit::<Val<P, L>>(f));
            check_panic(out, "new_uninit", !f);
            if r == Some(Err(())) && !w().th().fired_oom {
                violate(Class::OOM, "new_uninit fails although memory is available".into());
            }
        }
        RECV => {
            if mt {
                if let Some(msg) = receive::<P, L>(t, true) {
                    op_recv(t, msg);
                }
            }
        }
        DISCARD => {
            if let Some(msg) = receive::<P, L>(t, false) {
                let (out, _) = call(|| drop(msg));
                check_panic(out, "drop of a message", false);
            }
        }
        DROP_WEAK if nw > 0 => {
            let k = sl.w.swap_remove(op.a as usize % nw);
            let (out, _) = call(|| drop(k));
            check_panic(out, "drop of a weak handle", false);
        }
        UPGRADE if nw > 0 && P::SCEN == RC => {
            let (out, r) = call(|| sl.w[op.a as usize % nw].upgrade());
            check_panic(out, "upgrade", false);
            if let Some(Some(h)) = r {
                if ns < 12 {
                    sl.s.push(h);
                }
            }
        }
        WEAK_DEBUG if nw > 0 && P::SCEN == RC => {
            let k = sl.w.swap_remove(op.a as usize % nw);
            op_weak_debug(&k);
            slots(t).w.push(k);
        }
        WEAK_OPS if nw > 0 && P::SCEN == RC => {
            let k = &sl.w[op.a as usize % nw];
            let k2 = &sl.w[op.b as usize % nw];
            check_weak(k);
            if P::weak_ptr_eq(&k.w, &k2.w) != (k.obj == k2.obj) {
                soft(Class::COUNT, || "ptr_eq of weak handles is wrong".into());
            }
            if obj(k.obj).def[S] > 0 && P::weak_ptr(&k.w) as usize != obj(k.obj).addr {
                soft(Class::UPGRADE, || "as_ptr of a weak handle is wrong".into());
            }
            if nw < 12 {
                let (o, g) = (k.obj, k.grp);
                open(W, o, g);
                let (out, r) = call(|| P::weak_clone(&k.w));
                check_panic(out, "clone of a weak handle", false);
                commit(W, o, g);
                sl.w.push(K { w: ManuallyDrop::new(r.unwrap()), obj: o, grp: g });
            }
        }
        _ if ns == 0 => w().real_ops -= 1,
        CLONE => {
            if ns < 12 {
                let h = &sl.s[i];
                let (o, g) = (h.obj, h.grp);
                open(S, o, g);
                let (out, r) = call(|| P::clone(&h.s));
                check_panic(out, "clone", false);
                commit(S, o, g);
                sl.s.push(H { s: ManuallyDrop::new(r.unwrap()), obj: o, grp: g });
            }
        }
        DOWNGRADE => {
            if nw < 12 {
                let h = &sl.s[i];
                let (o, g) = (h.obj, h.grp);
                open(W, o, g);
                let (out, r) = call(|| P::downgrade(&h.s));
                check_panic(out, "downgrade", false);
                commit(W, o, g);
                sl.w.push(K { w: ManuallyDrop::new(r.unwrap()), obj: o, grp: g });
            }
        }
        DROP => {
            let h = sl.s.swap_remove(i);
            let (out, _) = call(|| drop(h));
            check_panic(out, "drop", false);
        }
        ASSIGN if op.c & 1 == 1 && P::SCEN == RC => {
            if nw > 1 {
                let mut a = sl.w.swap_remove(op.a as usize % nw);
                op_assign_weak(&mut a, &sl.w[op.b as usize % (nw - 1)]);
                slots(t).w.push(a);
            }
        }
        ASSIGN => {
            if ns > 1 {
                let mut a = sl.s.swap_remove(i);
                let b = sl.s.swap_remove(j % (ns - 1));
                op_assign(&mut a, &b);
                slots(t).s.extend([a, b]);
            }
        }
        READ => sl.s[i].check(),
        GET_MUT => op_get_mut(&mut sl.s[i], key),
        MAKE_MUT => {
            // User code called by it may use the other handles.
            let mut h = sl.s.swap_remove(i);
            let o = h.obj;
            obj(o).lax = true;
            op_make_mut(&mut h, key);
            obj(o).lax = false;
            slots(t).s.push(h);
        }
        COMPARE | LOOKS => {
            let a = sl.s.swap_remove(i);
            if op.code == LOOKS {
                op_looks(&a, op.c % cmp::STYLES);
            } else if i == j || ns == 1 {
                op_compare(&a, &a, op.c);
            } else {
                let b = sl.s.swap_remove(j % (ns - 1));
                op_compare(&a, &b, op.c);
                slots(t).s.push(b);
            }
            slots(t).s.push(a);
        }
        UNWRAP => op_unwrap::<P, L>(t, i, op.b & 1 == 1),
        STRONG => op_count(&sl.s[i], S),
        WEAK => op_count(&sl.s[i], W),
        SOLE => op_sole(&sl.s[i]),
        PTR_EQ => {
            let (a, b) = (&sl.s[i], &sl.s[j]);
            if P::ptr_eq(&a.s, &b.s) != (a.obj == b.obj) {
                soft(Class::COUNT, || "ptr_eq is wrong".into());
            }
        }
        SEND => {
            if mt {
                op_send(&sl.s[i], dest)
            }
        }
        SEND_MOVE => {
            if mt {
                op_send_move::<P, L>(t, i, dest, op.c & 1 == 1)
            }
        }
        STASH_WEAK | STASH_STRONG => {
            // Handles are put into values only while the others cannot access these.
            let ok = !w().concurrent && (P::SCEN != URC || nthreads == 0);
            let (a, b) = (&sl.s[i], &sl.s[j]);
            let (oa, ob) = (*obj(a.obj), *obj(b.obj));
            let stash = P::get(&a.s).stash.get();
            let room = unsafe { (*stash).len() < 4 };
            // Strong handles do not make cycles.
            if ok && room && (op.code == STASH_WEAK || ob.vid < oa.vid) {
                let (o, g) = (b.obj, b.grp);
                let k = if op.code == STASH_WEAK { W } else { S };
                open(k, o, g);
                let item = if k == W {
                    let w = P::downgrade(&b.s);
                    Stashed::W(K { w: ManuallyDrop::new(w), obj: o, grp: g })
                } else {
                    Stashed::S(H { s: ManuallyDrop::new(P::clone(&b.s)), obj: o, grp: g })
                };
                commit(k, o, g);
                unsafe { (*stash).push(item) };
            }
        }
        _ => w().real_ops -= 1,
    }
    w().disarm();
    arm_reenter(None);
    check_own::<P, L>(t);
}

fn thread_body<P: Fam, L: Pad>(t: usize) {
    let n = w().plan.ops.len();
    let (nthreads, flags) = (w().plan.cfg[0] as usize, w().plan.cfg[1]);
    for opi in 0..n {
        let op = w().plan.ops[opi];
        if op.t as usize == t {
            exec::<P, L>(t, opi, op, nthreads);
        }
    }
    w().arm(usize::MAX, Fault::None);
    if flags & 1 == 1 {
        drop_all::<P, L>(t, flags & 2 != 0);
    }
}

fn drop_all<P: Fam, L: Pad>(t: usize, weak_first: bool) {
    loop {
        let sl = slots::<P, L>(t);
        let weak = if weak_first { !sl.w.is_empty() } else { sl.s.is_empty() };
        let (out, _) = if weak {
            match sl.w.pop() {
                Some(k) => call(|| drop(k)),
                None => break,
            }
        } else {
            match sl.s.pop() {
                Some(h) => call(|| drop(h)),
                None => break,
            }
        };
        check_panic(out, "drop", false);
    }
}

/// Everything is quiet now so all is known exactly, and every operation must finish.
fn epilogue<P: Fam, L: Pad>(flags: u16) {
    w().arm(usize::MAX - 1, Fault::None);
    let sl = slots::<P, L>(0);
    for t in 1..NT {
        let o = slots::<P, L>(t);
        sl.s.append(&mut o.s);
        sl.w.append(&mut o.w);
        check_own::<P, L>(0);
        while let Some((_, msg)) = mail::<P, L>(t).pop_front() {
            if flags & 4 != 0 {
                op_recv::<P, L>(0, msg);
            } else {
                let (out, _) = call(|| drop(msg));
                check_panic(out, "drop of a message", false);
            }
        }
    }
    while let Some((_, msg)) = mail::<P, L>(0).pop_front() {
        op_recv::<P, L>(0, msg);
    }
    check_own::<P, L>(0);
    for i in 0..sl.s.len() {
        w().arm(usize::MAX - 1, Fault::None);
        op_count(&sl.s[i], S);
        op_count(&sl.s[i], W);
        op_sole(&sl.s[i]);
        op_get_mut(&mut sl.s[i], 7);
    }
    if flags & 8 != 0 && !sl.s.is_empty() {
        // A round of everything.
        for code in [CLONE, DOWNGRADE, GET_MUT, MAKE_MUT, STRONG, WEAK, SEND, RECV, DOWNGRADE] {
            let op = Op { t: 0, code, a: 0, b: 0, c: 9, fault: Fault::None };
            exec::<P, L>(0, usize::MAX - 1, op, 0);
        }
    }
    w().arm(usize::MAX - 1, Fault::None);
    drop_all::<P, L>(0, flags & 2 != 0);
    // Values of the objects.
    heap::final_checks();
    let w = w();
    if w.vals.alive != 0 {
        let n = w.vals.alive;
        soft(Class::LEAKV, || format!("{n} values are neither dropped nor owned by anyone"));
    }
}

fn run_with<P: Fam, L: Pad>() {
    unsafe { REENTER = [None; NT] };
    let mut st = State_::<P, L> {
        slots: std::array::from_fn(|_| Slots { s: vec![], w: vec![] }),
        mail: std::array::from_fn(|_| VecDeque::new()),
    };
    unsafe { STATE = &mut st as *mut _ as *mut () };
    let ops = w().plan.ops.clone();
    let nthreads = w().plan.cfg[0] as usize;
    let flags = w().plan.cfg[1];
    for (opi, op) in ops.iter().enumerate() {
        if op.t == 0 {
            exec::<P, L>(0, opi, *op, nthreads);
        }
    }
    if nthreads > 0 {
        run_threads(nthreads, thread_body::<P, L>);
    }
    for (opi, op) in ops.iter().enumerate() {
        if op.t == AFTER {
            exec::<P, L>(0, opi, *op, nthreads);
        }
    }
    epilogue::<P, L>(flags);
}

pub fn run() {
    let (scen, big) = (w().plan.scen, w().plan.cfg[2] & 1 == 1);
    match (scen, big) {
        (ARC, false) => run_with::<ArcF, ()>(),
        (ARC, true) => run_with::<ArcF, BigPad>(),
        (URC, false) => run_with::<UrcF, ()>(),
        (URC, true) => run_with::<UrcF, BigPad>(),
        (_, false) => run_with::<RcF, ()>(),
        (_, true) => run_with::<RcF, BigPad>(),
    }
}

// ---------------------------------------------------------------------------------------------
// Generation.

struct Gen<'a> {
    rng: &'a mut Rng,
    ops: Vec<Op>,
    weights: [u32; 27],
    p_alloc: u32,
    p_panic: u32,
    p_reenter: u32,
    small_keys: bool,
}

impl Gen<'_> {
    fn op(&mut self, t: u8, code: u8) {
        let r = &mut *self.rng;
        let mut op = Op {
            t,
            code,
            a: r.below(8) as u16,
            b: r.below(8) as u16,
            c: 1 + r.below(9000) as u16,
            fault: Fault::None,
        };
        if self.small_keys && matches!(code, NEW | MAKE_MUT | GET_MUT) {
            op.c = r.below(6) as u16;
        }
        // User code called by it uses handles.
        if matches!(code, MAKE_MUT | DROP | DISCARD | UNWRAP | COMPARE | LOOKS | WEAK_DEBUG | ASSIGN)
            && r.chance(self.p_reenter, 100)
        {
            op.b += (1 + r.below(2 * ACTS as u32) as u16) << 3;
        }
        match code {
            NEW | MAKE_MUT | SEND | RECV | UNINIT if r.chance(self.p_alloc, 100) => {
                op.fault = Fault::Alloc { nth: r.below(2) as u8, sticky: r.chance(1, 3) };
            }
            MAKE_MUT if r.chance(self.p_panic, 100) => {
                op.fault = Fault::Panic { kind: [P_CLONE, P_CLONE, P_DROP][r.below(3) as usize], nth: 0 };
            }
            COMPARE | LOOKS | WEAK_DEBUG if r.chance(self.p_panic, 100) => {
                op.fault = Fault::Panic { kind: P_EQ, nth: r.below(2) as u8 };
            }
            DROP | DISCARD | ASSIGN if r.chance(self.p_panic, 100) => {
                op.fault = Fault::Panic { kind: P_DROP, nth: r.below(2) as u8 };
            }
            _ => {}
        }
        self.ops.push(op);
    }

    fn any(&mut self, t: u8) {
        let code = self.rng.weighted(&self.weights) as u8;
        self.op(t, code);
    }
}

pub fn gen(prop: usize, scen: usize, rng: &mut Rng, plan: &mut Plan) {
    use props::*;
    let mt = scen != RC;
    //            new cl dn dr dw rd gm mm un sc wc pe se sm rc di so up wo sw ss ui co lo wd fm as
    let mut wt = [1, 6, 4, 6, 4, 2, 3, 3, 2, 1, 1, 1, 2, 2, 3, 1, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1];
    if scen == RC {
        wt = [3, 6, 5, 7, 5, 1, 3, 4, 3, 1, 1, 1, 0, 0, 0, 0, 0, 5, 2, 2, 1, 1, 1, 1, 2, 1, 2];
    }
    let (mut p_alloc, mut p_panic) = (4, 4);
    let mut threads: &[u32] = &[2, 8, 5, 1];
    match prop {
        C02 | C06 | C10 => {
            for c in [GET_MUT, MAKE_MUT, UNWRAP] {
                wt[c as usize] += 6;
            }
            p_alloc = 10;
            p_panic = 10;
        }
        C03 => {
            wt = [0, 4, 8, 3, 5, 0, 9, 4, 2, 1, 2, 0, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
            threads = &[0, 6, 6, 3];
            p_alloc = 1;
            p_panic = 1;
        }
        C04 => {
            wt[STRONG as usize] = 8;
            wt[WEAK as usize] = 8;
            wt[PTR_EQ as usize] = 3;
        }
        C07 => {
            wt[CLONE as usize] = 8;
            wt[SEND as usize] = 4;
            wt[SEND_MOVE as usize] = 4;
            wt[RECV as usize] = 5;
            wt[SOLE as usize] = 4;
        }
        C08 => {
            wt[SEND as usize] = 9;
            wt[SEND_MOVE as usize] = 3;
            wt[RECV as usize] = 7;
            wt[DISCARD as usize] = 4;
            p_alloc = 15;
        }
        C13 => {
            wt[NEW as usize] += 4;
            wt[MAKE_MUT as usize] += 8;
            wt[SEND as usize] += if mt { 5 } else { 0 };
            wt[UNINIT as usize] += 2;
            p_alloc = 45;
            p_panic = 0;
            threads = &[6, 5, 2, 0];
        }
        C21 => {
            wt[COMPARE as usize] = 12;
            wt[LOOKS as usize] = 8;
            wt[NEW as usize] += 3;
        }
        C20 => {
            wt[NEW as usize] += 5;
            wt[MAKE_MUT as usize] += 5;
            threads = &[9, 1, 0, 0];
        }
        _ => {}
    }
    let nthreads = if mt {
        let i = rng.weighted(threads);
        if i == 0 {
            0
        } else {
            1 + i
        }
    } else {
        0
    };
    plan.cfg[0] = nthreads as u16;
    plan.cfg[1] = rng.below(16) as u16;
    plan.cfg[2] = rng.chance(1, 8) as u16;
    if nthreads == 0 && scen == URC || scen == ARC {
        wt[STASH_WEAK as usize] = 1;
        wt[STASH_STRONG as usize] = 1;
    }
    if nthreads == 0 {
        wt[FORGET_MANY as usize] = 1;
    }
    let small_keys = prop == C21;
    let p_reenter = [0, 15, 50][rng.below(3) as usize];
    let mut g = Gen { rng, ops: vec![], weights: wt, p_alloc, p_panic, p_reenter, small_keys };
    if nthreads == 0 {
        // One thread. It can send to itself.
        g.op(0, NEW);
        let n = if crate::plan::long(g.rng) { 20 + g.rng.below(80) } else { 3 + g.rng.below(18) };
        for _ in 0..n {
            g.any(0);
        }
    } else {
        let long = crate::plan::long(g.rng);
        let nobj = 1 + (g.rng.chance(1, 6) as u32);
        for _ in 0..nobj {
            g.op(0, NEW);
            if prop != C13 {
                g.ops.last_mut().unwrap().fault = Fault::None;
            }
        }
        for _ in 0..g.rng.below(3) {
            let code = [CLONE, DOWNGRADE, STASH_WEAK, STASH_STRONG][g.rng.weighted(&[3, 3, 1, 1])];
            g.op(0, code);
        }
        // Give handles to the threads.
        let (scen_arc, multi) = (scen == ARC, nthreads);
        for t in 1..=multi {
            let n = 1 + (g.rng.chance(1, 4) as u32);
            for _ in 0..n {
                let k = g.rng.below(10);
                if scen_arc && k < 6 {
                    let weak = g.rng.chance(1, 5) as u16;
                    g.op(0, if weak == 1 { DOWNGRADE } else { CLONE });
                    g.op(0, SEND_MOVE);
                    let o = g.ops.last_mut().unwrap();
                    o.b = (t - 1) as u16;
                    o.c = weak;
                } else {
                    g.op(0, SEND);
                    let o = g.ops.last_mut().unwrap();
                    o.b = (t - 1) as u16;
                    if prop != C13 && prop != C08 {
                        o.fault = Fault::None;
                    }
                }
            }
        }
        // Main thread may keep some.
        if g.rng.chance(1, 2) {
            g.op(0, DROP);
            if g.rng.chance(1, 2) {
                g.op(0, DROP);
            }
        }
        for t in 1..=multi as u8 {
            g.op(t, RECV);
            let n = if long { 6 + g.rng.below(20) } else { 1 + g.rng.below(6) };
            for _ in 0..n {
                g.any(t);
            }
        }
        if g.rng.chance(1, 3) {
            for _ in 0..1 + g.rng.below(4) {
                g.any(AFTER);
            }
        }
        if g.rng.chance(1, 30) {
            g.op(AFTER, FORGET_MANY);
        }
    }
    plan.ops = g.ops;
}
