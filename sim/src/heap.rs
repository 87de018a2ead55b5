//! Simulated allocators. Memory is never reused within a run. In some of the runs blocks end or
//! begin at a page that cannot be accessed, so that reading past them is found as well.

use crate::plan::P_SCOPE;
use crate::props::Class;
use crate::stats::St;
use crate::world::*;
use core::alloc::{GlobalAlloc, Layout};
use lokky::scope::{AllocMarker, AllocSelector, Env, Scope};

pub const BASE: usize = 0x1000_0000_0000;
const SIZE: usize = 1 << 30;
const ZONE: usize = 32;
const ZONE_BYTE: u8 = 0xfb;
const FREED_BYTE: u8 = 0xdd;
/// Slots of the guarded arena: memory and a page that cannot be accessed.
const GUARDED: usize = 0x1100_0000_0000;
const PAGE: usize = 4096;
const SLOT_MEM: usize = 32 * PAGE;
const SLOT: usize = SLOT_MEM + PAGE;
const SLOTS: usize = 1024;
/// Larger requests are refused: there is no such memory.
pub const HUGE: usize = 1 << 20;

pub struct Block {
    pub start: usize,
    pub size: usize,
    pub align: usize,
    /// Bytes available for growing in place.
    pub cap: usize,
    /// Bytes before the block and after its capacity that are not to be written.
    zones: (usize, usize),
    pub freed: bool,
    pub alloc: u16,
    pub serial: u32,
    /// Abandoned by the user on purpose.
    pub leaked: bool,
    pub access: VC,
}

#[derive(Clone, Copy, Debug)]
pub struct Req {
    pub alloc: u16,
    pub scope: u8,
    pub thread: usize,
    pub marker: AllocMarker,
    pub ty: &'static str,
    pub sel: AllocSelector,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Guard {
    No,
    Before,
    After,
}

pub struct Heap {
    blocks: Vec<Block>,
    /// Blocks in the unguarded arena by their addresses.
    order: Vec<u32>,
    /// Blocks in the guarded one.
    slots: Vec<u32>,
    guard: Guard,
    top: usize,
    fill: u8,
    pub live: usize,
    pub reqs: Vec<Req>,
    /// Blocks allocated in this operation.
    pub allocated: u32,
}

fn bytes(addr: usize, len: usize) -> &'static mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(addr as *mut u8, len) }
}

impl Heap {
    pub fn new() -> Self {
        let p = unsafe {
            libc::mmap(
                BASE as _,
                SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            )
        };
        assert!(p as usize == BASE, "arena");
        let p = unsafe {
            libc::mmap(
                (GUARDED - PAGE) as _,
                PAGE + SLOT * SLOTS,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            )
        };
        assert!(p as usize == GUARDED - PAGE, "guarded arena");
        for i in 0..SLOTS {
            let r = unsafe {
                libc::mprotect(
                    (GUARDED + i * SLOT) as _,
                    SLOT_MEM,
                    libc::PROT_READ | libc::PROT_WRITE,
                )
            };
            assert!(r == 0, "guarded arena");
        }
        Heap {
            blocks: vec![],
            order: vec![],
            slots: vec![],
            guard: Guard::No,
            top: BASE,
            fill: 0,
            live: 0,
            reqs: vec![],
            allocated: 0,
        }
    }

    pub fn reset(&mut self, cfg: u16) {
        self.blocks.clear();
        self.order.clear();
        self.slots.clear();
        self.guard = match cfg {
            5 | 6 => Guard::After,
            7 => Guard::Before,
            _ => Guard::No,
        };
        self.top = BASE + 64;
        self.fill = [0xa5, 0x00, 0x01, 0xff, 0x7f][cfg as usize % 5];
        self.live = 0;
        self.reqs.clear();
        self.allocated = 0;
    }

    pub fn in_arena(&self, addr: usize) -> bool {
        (BASE..BASE + SIZE).contains(&addr) || Self::in_slots(addr)
    }

    fn in_slots(addr: usize) -> bool {
        (GUARDED..GUARDED + SLOT * SLOTS).contains(&addr)
    }

    /// Address independent of the placement of the arena.
    pub fn norm(&self, addr: usize) -> u64 {
        if Self::in_slots(addr) {
            1 << 40 | (addr - GUARDED) as u64
        } else if self.in_arena(addr) {
            (addr - BASE) as u64
        } else {
            0
        }
    }

    fn index(&self, addr: usize) -> Option<usize> {
        let i = if Self::in_slots(addr) {
            *self.slots.get((addr - GUARDED) / SLOT)? as usize
        } else {
            let i = self.order.partition_point(|&b| self.blocks[b as usize].start <= addr);
            self.order[i.checked_sub(1)?] as usize
        };
        let b = &self.blocks[i];
        (addr >= b.start && addr < b.start + b.size).then_some(i)
    }

    pub fn find(&mut self, addr: usize) -> Option<&mut Block> {
        let i = self.index(addr)?;
        Some(&mut self.blocks[i])
    }

    /// Serial number of the live block at this address. 0 if there is none.
    pub fn live_block(&self, addr: usize) -> u32 {
        match self.index(addr) {
            Some(i) if !self.blocks[i].freed => self.blocks[i].serial,
            _ => 0,
        }
    }

    pub fn by_serial(&mut self, serial: u32) -> Option<&mut Block> {
        self.blocks.get_mut((serial as usize).wrapping_sub(1))
    }

    fn place(&mut self, layout: Layout, mut slack: usize, alloc: u16) -> usize {
        let (size, align) = (layout.size(), layout.align());
        let at = self.blocks.len() as u32;
        let slot = GUARDED + self.slots.len() * SLOT;
        let mut zones = (ZONE, ZONE);
        let fits = self.slots.len() < SLOTS && size + slack + 2 * ZONE + align <= SLOT_MEM;
        let start = match self.guard {
            Guard::After if fits => {
                let start = (slot + SLOT_MEM - size) & !(align - 1);
                slack = 0;
                zones.1 = slot + SLOT_MEM - (start + size);
                self.slots.push(at);
                start
            }
            Guard::Before if fits => {
                zones.0 = 0;
                self.slots.push(at);
                slot
            }
            _ => {
                let start = (self.top + ZONE + align - 1) & !(align - 1);
                let end = start + size + slack + ZONE;
                if end >= BASE + SIZE {
                    harness_error("arena is exhausted");
                }
                self.top = (end + 15) & !15;
                self.order.push(at);
                start
            }
        };
        let cap = size + slack;
        bytes(start - zones.0, zones.0).fill(ZONE_BYTE);
        bytes(start, size).fill(self.fill);
        bytes(start + size, slack + zones.1).fill(ZONE_BYTE);
        self.blocks.push(Block {
            start,
            size,
            align,
            cap,
            zones,
            freed: false,
            alloc,
            serial: at + 1,
            leaked: false,
            access: VC::default(),
        });
        self.live += 1;
        self.allocated += 1;
        start
    }

    fn zones_ok(b: &Block) -> bool {
        bytes(b.start - b.zones.0, b.zones.0).iter().all(|&v| v == ZONE_BYTE)
            && bytes(b.start + b.size, b.cap - b.size + b.zones.1).iter().all(|&v| v == ZONE_BYTE)
    }

    fn free(b: &mut Block) {
        b.freed = true;
        bytes(b.start, b.size).fill(FREED_BYTE);
    }
}

fn check_request(size: usize, align: usize) {
    if size == 0 {
        violate(Class::REQUEST, "zero-sized request to an allocator".into());
    }
    if size > isize::MAX as usize - (align - 1) {
        violate(Class::REQUEST, format!("request of overflowing size {size:#x}"));
    }
}

/// Check that the block may be resized or freed with these parameters.
fn check_owned(ptr: usize, layout: Layout, alloc: u16, what: &str) -> usize {
    let w = w();
    let cur = w.cur;
    let vc = w.threads[cur].vc;
    let i = match w.heap.index(ptr) {
        Some(i) if w.heap.blocks[i].start == ptr => i,
        Some(i) => {
            let n = w.heap.blocks[i].serial;
            violate(Class::BADFREE, format!("{what} of an address inside of block {n}"))
        }
        None => violate(Class::BADFREE, format!("{what} of memory that was never allocated")),
    };
    let b = &w.heap.blocks[i];
    let n = b.serial;
    if b.freed {
        violate(Class::DFREE, format!("{what} of block {n} that was already freed"));
    }
    if b.alloc != alloc {
        let own = b.alloc;
        violate(
            Class::BADFREE,
            format!("{what} of block {n} by allocator {alloc}, it was issued by {own}"),
        );
    }
    if b.size != layout.size() || b.align != layout.align() {
        let (s, a) = (b.size, b.align);
        violate(
            Class::BADFREE,
            format!(
                "{what} of block {n} with size {} and alignment {}, these are {s} and {a}",
                layout.size(),
                layout.align()
            ),
        );
    }
    if !Heap::zones_ok(b) {
        violate(Class::BOUNDS, format!("memory around block {n} was written"));
    }
    if !vc.covers(&b.access) {
        violate(
            Class::RACE,
            format!("{what} of block {n} is not ordered with accesses by other threads"),
        );
    }
    i
}

pub struct SimAlloc(pub u16);

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        check_request(layout.size(), layout.align());
        sched();
        let w = w();
        if layout.size() > HUGE {
            w.run_ctx.oom = true;
            w.th().fired_oom = true;
            w.stat(St::f_unrepresentable_size);
            return core::ptr::null_mut();
        }
        if w.refuse(false) {
            w.log("refuse", layout.size() as u64, 0);
            return core::ptr::null_mut();
        }
        let slack = layout.size().min(4096) + 16;
        let p = w.heap.place(layout, slack, self.0);
        let cur = w.cur;
        let clk = w.tick(cur);
        w.heap.blocks.last_mut().unwrap().access.0[cur] = clk;
        w.log("alloc", w.heap.norm(p), (layout.size() as u64) << 16 | layout.align() as u64);
        p as *mut u8
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        sched();
        let i = check_owned(ptr as usize, layout, self.0, "free");
        let w = w();
        let serial = w.heap.blocks[i].serial;
        w.log("free", w.heap.norm(ptr as usize), serial as u64);
        w.model.freed(serial);
        Heap::free(&mut w.heap.blocks[i]);
        w.heap.live -= 1;
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        check_request(new_size, layout.align());
        sched();
        let i = check_owned(ptr as usize, layout, self.0, "resize");
        let w = w();
        if new_size > HUGE {
            w.run_ctx.oom = true;
            w.th().fired_oom = true;
            w.stat(St::f_unrepresentable_size);
            return core::ptr::null_mut();
        }
        if w.refuse(true) {
            w.log("refuse", new_size as u64, 1);
            return core::ptr::null_mut();
        }
        let b = &mut w.heap.blocks[i];
        let fits = new_size <= b.cap;
        let (old_size, leaked) = (b.size, b.leaked);
        // Move is the default as it is what finds stale pointers.
        if fits && w.choose(2, |r| r.below(2)) == 1 {
            let b = &mut w.heap.blocks[i];
            let fill = w.heap.fill;
            if new_size > old_size {
                bytes(b.start + old_size, new_size - old_size).fill(fill);
            } else {
                bytes(b.start + new_size, old_size - new_size).fill(ZONE_BYTE);
            }
            b.size = new_size;
            w.stat(St::f_realloc_in_place);
            w.log("resize", w.heap.norm(ptr as usize), new_size as u64);
            return ptr;
        }
        let new_layout = Layout::from_size_align_unchecked(new_size, layout.align());
        let p = w.heap.place(new_layout, new_size.min(4096) + 16, self.0);
        let n = old_size.min(new_size);
        bytes(p, n).copy_from_slice(bytes(ptr as usize, n));
        w.heap.blocks.last_mut().unwrap().leaked = leaked;
        Heap::free(&mut w.heap.blocks[i]);
        w.heap.live -= 1;
        w.stat(St::f_realloc_moved);
        w.log("move", w.heap.norm(p), new_size as u64);
        p as *mut u8
    }
}

/// The user abandoned all that was allocated since there were so many blocks.
pub fn leak_since(n: usize) {
    for b in &mut w().heap.blocks[n..] {
        b.leaked = true;
    }
}

pub fn block_count() -> usize {
    w().heap.blocks.len()
}

/// Checks of the whole memory at the end of a run.
pub fn final_checks() {
    let w = w();
    for b in &w.heap.blocks {
        let n = b.serial;
        if !b.freed && !b.leaked {
            let (s, a) = (b.size, b.alloc);
            soft(Class::LEAKB, || {
                format!("block {n} of {s} bytes of allocator {a} was never freed")
            });
        }
        if !Heap::zones_ok(b) {
            violate(Class::BOUNDS, format!("memory around block {n} was written"));
        }
        if b.freed && !bytes(b.start, b.size).iter().all(|&v| v == FREED_BYTE) {
            violate(Class::BOUNDS, format!("block {n} was written after it was freed"));
        }
    }
}

// Scopes.

pub const MARKERS: usize = 4;
pub struct MarkerA;
pub struct MarkerB;
pub struct MarkerC;

// One copy, as markers are compared by address.
#[inline(never)]
pub fn marker(i: u16) -> AllocMarker {
    match i as usize % MARKERS {
        0 => AllocMarker::None,
        1 => AllocMarker::new::<MarkerA>(),
        2 => AllocMarker::new::<MarkerB>(),
        _ => AllocMarker::new::<MarkerC>(),
    }
}

pub fn marker_index(m: AllocMarker) -> u16 {
    (0..MARKERS as u16).find(|&i| marker(i) == m).unwrap_or(99)
}

pub const SCOPES: usize = 128;
static ALLOCS: [SimAlloc; SCOPES * MARKERS] = {
    let mut a = [const { SimAlloc(0) }; SCOPES * MARKERS];
    let mut i = 0;
    while i < SCOPES * MARKERS {
        a[i] = SimAlloc(i as u16);
        i += 1;
    }
    a
};

/// Scopes tell requests apart by comparing selectors, so these must be equal for the same type.
#[inline(never)]
pub fn check_selector<T>(r: &Req) {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let ty = std::any::type_name::<T>();
    if r.ty != ty {
        soft(Class::MARKER, || format!("request presents type {}, should be {ty}", r.ty));
        return;
    }
    let want = AllocSelector::with_marker::<T>(r.marker);
    let hash = |s: &AllocSelector| {
        let mut h = DefaultHasher::new();
        s.hash(&mut h);
        h.finish()
    };
    if want != r.sel || hash(&want) != hash(&r.sel) {
        soft(Class::MARKER, || format!("request for {ty} presents a selector not equal to that of {ty}"));
    }
}

/// Scope with an allocator for each marker.
pub struct SimScope(pub u8);

impl Scope for SimScope {
    fn alloc_for(&self, selector: AllocSelector) -> &dyn GlobalAlloc {
        let m = marker_index(selector.marker());
        let alloc = self.0 as u16 * MARKERS as u16 + (m % MARKERS as u16);
        let w = w();
        w.heap.reqs.push(Req {
            alloc,
            scope: self.0,
            thread: w.cur,
            marker: selector.marker(),
            ty: selector.ty(),
            sel: selector,
        });
        w.log("select", alloc as u64, 0);
        crate::vals::fault_point(P_SCOPE);
        &ALLOCS[alloc as usize]
    }
}

// One environment per simulated thread, each starts in a root scope of its own.
static mut ROOTS: [SimScope; NT] = {
    let mut a = [const { SimScope(0) }; NT];
    let mut i = 0;
    while i < NT {
        a[i] = SimScope([0, 120, 121, 122, 123, 124][i]);
        i += 1;
    }
    a
};
static mut ENVS: Vec<Env> = Vec::new();

fn env() -> &'static mut Env {
    unsafe {
        let envs: &mut Vec<Env> = &mut *(&raw mut ENVS);
        &mut envs[w().cur]
    }
}

pub fn root_id(t: usize) -> u8 {
    unsafe { (*(&raw const ROOTS))[t].0 }
}

pub fn root_addr(t: usize) -> usize {
    unsafe { &raw const (*(&raw const ROOTS))[t] as usize }
}

pub fn reset_envs() {
    unsafe {
        let envs = &mut *(&raw mut ENVS);
        envs.clear();
        for i in 0..NT {
            envs.push(Env::new(&mut (*(&raw mut ROOTS))[i]));
        }
        lokky::scope::ENV = Some(env);
    }
}
