//! The allocator seam: a simulated heap.
//!
//! Every heap request of the code under test ends up here. In `Sut` and `Quiet`
//! mode, requests are served from an arena at a fixed address, never reusing an
//! address within a run, at the least alignment asked for, surrounded by
//! canaries and filled with poison; `Sut` requests can be refused. In `Off` mode
//! (the simulator's own bookkeeping) and while a panic is unwinding (the
//! panic machinery's own requests), requests go to the system allocator.

use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub const BASE: usize = 0x6000_0000_0000;
pub const ARENA: usize = 192 << 20;
/// Per-run budget; a run that gets there ends early.
pub const RUN_BUDGET: usize = 24 << 20;
/// The budget after the machine has been given more memory.
const BIG_BUDGET: usize = 110 << 20;
/// Bigger blocks are refused: the simulated machine has no more memory.
const NATURAL: usize = 1 << 20;
/// Unless it has been given more.
const BIG: usize = 32 << 20;
pub const NATURAL_ALIGN: usize = 1 << 16;
const MAX_BLOCKS: usize = 1 << 17;
const FRONT: usize = 16;
const REAR: usize = 16;
const CANARY: u8 = 0xC5;
const FRESH: u8 = 0xA7;
const FREED: u8 = 0xF5;
pub const LOG: usize = 64;

#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum Mode {
    Off,
    Quiet,
    Sut,
}

#[derive(Clone, Copy)]
pub struct Block {
    pub addr: usize,
    pub size: usize,
    pub align: usize,
    cap: usize,
    pub live: bool,
    pub harness: bool,
    pub excused: bool,
    pub op: u32,
    pub owner: u32,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Req {
    pub size: usize,
    pub align: usize,
    pub refused: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
    ZeroSize,
    DoubleFree,
    BadFree,
    WrongLayout,
    Canary,
    UseAfterFree,
    TooMany,
}

#[derive(Clone, Copy)]
pub struct Fault {
    pub nth: u32,
    pub cnt: u32,
    pub all: bool,
    pub limit: usize,
}

pub const NO_FAULT: Fault = Fault {
    nth: 0,
    cnt: 0,
    all: false,
    limit: usize::MAX,
};

struct Heap {
    mode: Cell<Mode>,
    ready: Cell<bool>,
    next: Cell<usize>,
    nblocks: Cell<usize>,
    rng: Cell<u64>,
    fault: Cell<Fault>,
    op: Cell<u32>,
    owner: Cell<u32>,
    reqs: Cell<u32>,
    frees: Cell<u32>,
    refused: Cell<u32>,
    injected: Cell<u32>,
    bad: Cell<Option<(Bad, usize, usize, usize)>>,
    freed_bytes: Cell<usize>,
    hash: Cell<u64>,
    // lifetime statistics
    roomy: Cell<bool>,
    s_reqs: Cell<u64>,
    s_refused_nth: Cell<u64>,
    s_refused_all: Cell<u64>,
    s_refused_limit: Cell<u64>,
    s_refused_natural: Cell<u64>,
    s_moved: Cell<u64>,
    s_inplace: Cell<u64>,
    s_skewed: Cell<u64>,
}

struct Sh<T>(T);
unsafe impl<T> Sync for Sh<T> {}

static H: Sh<Heap> = Sh(Heap {
    mode: Cell::new(Mode::Off),
    ready: Cell::new(false),
    next: Cell::new(BASE),
    nblocks: Cell::new(0),
    rng: Cell::new(1),
    fault: Cell::new(NO_FAULT),
    op: Cell::new(0),
    owner: Cell::new(0),
    reqs: Cell::new(0),
    frees: Cell::new(0),
    refused: Cell::new(0),
    injected: Cell::new(0),
    bad: Cell::new(None),
    roomy: Cell::new(false),
    freed_bytes: Cell::new(0),
    hash: Cell::new(0),
    s_reqs: Cell::new(0),
    s_refused_nth: Cell::new(0),
    s_refused_all: Cell::new(0),
    s_refused_limit: Cell::new(0),
    s_refused_natural: Cell::new(0),
    s_moved: Cell::new(0),
    s_inplace: Cell::new(0),
    s_skewed: Cell::new(0),
});

const EMPTY: Block = Block {
    addr: 0,
    size: 0,
    align: 0,
    cap: 0,
    live: false,
    harness: false,
    excused: false,
    op: 0,
    owner: 0,
};

static BLOCKS: Sh<[Cell<Block>; MAX_BLOCKS]> = Sh([const { Cell::new(EMPTY) }; MAX_BLOCKS]);
static REQLOG: Sh<[Cell<Req>; LOG]> = Sh([const {
    Cell::new(Req {
        size: 0,
        align: 0,
        refused: false,
    })
}; LOG]);

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Maps the arena. Only worker and replay processes do this.
pub fn init() {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
    let p = unsafe {
        mmap(
            BASE as *mut u8,
            ARENA,
            3,
            0x2 | 0x20 | 0x4000 | 0x100000,
            -1,
            0,
        )
    };
    assert_eq!(p as usize, BASE, "cannot map the simulated heap");
    H.0.ready.set(true);
}

#[inline]
fn in_arena(p: usize) -> bool {
    (BASE..BASE + ARENA).contains(&p)
}

fn inc(c: &Cell<u64>) {
    c.set(c.get() + 1);
}

fn bad(b: Bad, x: usize, y: usize, z: usize) {
    if H.0.bad.get().is_none() {
        H.0.bad.set(Some((b, x, y, z)));
    }
}

fn rand() -> u64 {
    let mut r = Rng(H.0.rng.get());
    let x = r.next();
    H.0.rng.set(r.0);
    x
}

fn find(addr: usize) -> Option<usize> {
    // Blocks are sorted by address: the arena only grows.
    let n = H.0.nblocks.get();
    let (mut lo, mut hi) = (0, n);
    while lo < hi {
        let mid = (lo + hi) / 2;
        if BLOCKS.0[mid].get().addr <= addr {
            lo = mid + 1;
        } else {
            hi = mid;
        }
    }
    lo.checked_sub(1)
}

unsafe fn fill(addr: usize, len: usize, byte: u8) {
    unsafe { std::ptr::write_bytes(addr as *mut u8, byte, len) }
}

fn all_are(addr: usize, len: usize, byte: u8) -> bool {
    let s = unsafe { std::slice::from_raw_parts(addr as *const u8, len) };
    let word = u64::from_ne_bytes([byte; 8]);
    let (a, b, c) = unsafe { s.align_to::<u64>() };
    a.iter().all(|&x| x == byte) && b.iter().all(|&x| x == word) && c.iter().all(|&x| x == byte)
}

fn natural() -> usize {
    if H.0.roomy.get() {
        BIG
    } else {
        NATURAL
    }
}

/// Gives the machine more memory for the rest of the run.
pub fn roomy() {
    H.0.roomy.set(true);
}

/// True if this request is to be refused.
fn refuse(size: usize, align: usize) -> bool {
    let h = &H.0;
    if h.mode.get() != Mode::Sut {
        return size > natural() || align > NATURAL_ALIGN;
    }
    let n = h.reqs.get() + 1;
    h.reqs.set(n);
    inc(&h.s_reqs);
    let f = h.fault.get();
    let natural = size > natural() || align > NATURAL_ALIGN;
    let refused = if natural {
        inc(&h.s_refused_natural);
        true
    } else if f.all {
        inc(&h.s_refused_all);
        h.injected.set(h.injected.get() + 1);
        true
    } else if size > f.limit {
        inc(&h.s_refused_limit);
        h.injected.set(h.injected.get() + 1);
        true
    } else if f.nth > 0 && n >= f.nth && n - f.nth < f.cnt {
        inc(&h.s_refused_nth);
        h.injected.set(h.injected.get() + 1);
        true
    } else {
        false
    };
    if refused {
        h.refused.set(h.refused.get() + 1);
    }
    if (n as usize) <= LOG {
        REQLOG.0[n as usize - 1].set(Req {
            size,
            align,
            refused,
        });
    }
    h.hash.set(crate::rng::fnv(
        h.hash.get(),
        (size as u64) << 20 ^ (align as u64) << 1 ^ refused as u64,
    ));
    refused
}

unsafe fn sim_alloc(size: usize, align: usize) -> *mut u8 {
    let h = &H.0;
    let n = h.nblocks.get();
    if n >= MAX_BLOCKS {
        bad(Bad::TooMany, 0, 0, 0);
        return std::ptr::null_mut();
    }
    let r = rand();
    // Slack behind the block, so that some requests to grow can be met in place.
    let slack = match r % 4 {
        0 => 0,
        1 => (r >> 8) as usize % 64,
        _ => (r >> 8) as usize % (size.min(4096) + 32),
    };
    let mut addr = (h.next.get() + FRONT + align - 1) & !(align - 1);
    // Mostly, no more alignment than asked for.
    if (r >> 40) % 4 != 0 && addr & align == 0 {
        addr += align;
        inc(&h.s_skewed);
    }
    let cap = size + slack;
    let end = addr + cap + REAR;
    if end > BASE + ARENA {
        bad(Bad::TooMany, 0, 0, 0);
        return std::ptr::null_mut();
    }
    unsafe {
        fill(h.next.get(), addr - h.next.get(), CANARY);
        fill(addr, size, FRESH);
        fill(addr + size, slack + REAR, CANARY);
    }
    // The gap in front is checked as the front canary.
    BLOCKS.0[n].set(Block {
        addr,
        size,
        align,
        cap,
        live: true,
        harness: h.mode.get() != Mode::Sut,
        excused: false,
        op: h.op.get(),
        owner: h.owner.get(),
    });
    h.nblocks.set(n + 1);
    h.next.set(end);
    addr as *mut u8
}

fn canaries_ok(b: &Block) -> bool {
    all_are(b.addr - FRONT, FRONT, CANARY)
        && all_are(b.addr + b.size, b.cap - b.size + REAR, CANARY)
}

/// Looks up the block being freed or resized, reporting misuse.
fn checked_find(addr: usize, layout: Layout) -> Option<usize> {
    let Some(i) = find(addr).filter(|&i| BLOCKS.0[i].get().addr == addr) else {
        bad(Bad::BadFree, addr - BASE, layout.size(), layout.align());
        return None;
    };
    let b = BLOCKS.0[i].get();
    if !b.live {
        bad(Bad::DoubleFree, i, layout.size(), layout.align());
        return None;
    }
    if b.size != layout.size() || b.align != layout.align() {
        bad(Bad::WrongLayout, i, layout.size(), layout.align());
        return None;
    }
    if !canaries_ok(&b) {
        bad(Bad::Canary, i, b.size, b.align);
    }
    Some(i)
}

unsafe fn release(i: usize) {
    let mut b = BLOCKS.0[i].get();
    b.live = false;
    BLOCKS.0[i].set(b);
    H.0.freed_bytes.set(H.0.freed_bytes.get() + b.cap);
    unsafe { fill(b.addr, b.cap, FREED) }
}

pub struct SimAlloc;

fn simulated() -> bool {
    H.0.mode.get() != Mode::Off && !std::thread::panicking()
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if H.0.mode.get() != Mode::Off {
            if l.size() == 0 {
                bad(Bad::ZeroSize, l.align(), 0, 0);
                return std::ptr::null_mut();
            }
            if simulated() {
                if refuse(l.size(), l.align()) {
                    return std::ptr::null_mut();
                }
                return unsafe { sim_alloc(l.size(), l.align()) };
            }
        }
        unsafe { System.alloc(l) }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let addr = p as usize;
        if !in_arena(addr) {
            if H.0.ready.get() && addr < 4096 * 16 {
                bad(Bad::BadFree, addr, l.size(), l.align());
                return;
            }
            return unsafe { System.dealloc(p, l) };
        }
        H.0.frees.set(H.0.frees.get() + 1);
        if let Some(i) = checked_find(addr, l) {
            unsafe { release(i) }
        }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let addr = p as usize;
        if !in_arena(addr) {
            return unsafe { System.realloc(p, l, new) };
        }
        let Some(i) = checked_find(addr, l) else {
            return std::ptr::null_mut();
        };
        if new == 0 {
            bad(Bad::ZeroSize, l.align(), 0, 0);
            return std::ptr::null_mut();
        }
        if simulated() && refuse(new, l.align()) {
            return std::ptr::null_mut();
        }
        let mut b = BLOCKS.0[i].get();
        if new <= b.cap && rand() % 2 == 0 {
            inc(&H.0.s_inplace);
            unsafe {
                if new > b.size {
                    fill(b.addr + b.size, new - b.size, FRESH);
                } else {
                    fill(b.addr + new, b.size - new, CANARY);
                }
            }
            b.size = new;
            b.op = H.0.op.get();
            BLOCKS.0[i].set(b);
            return p;
        }
        inc(&H.0.s_moved);
        unsafe {
            let q = sim_alloc(new, l.align());
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                let j = H.0.nblocks.get() - 1;
                let mut nb = BLOCKS.0[j].get();
                nb.owner = b.owner;
                nb.harness = b.harness;
                nb.excused = b.excused;
                BLOCKS.0[j].set(nb);
                release(i);
            }
            q
        }
    }
}

// ---- control, from the simulator ----

pub fn mode() -> Mode {
    H.0.mode.get()
}

/// Sets the mode until the guard is dropped (also by unwinding).
pub struct ModeGuard(Mode);

pub fn enter(m: Mode) -> ModeGuard {
    let old = H.0.mode.get();
    H.0.mode.set(m);
    ModeGuard(old)
}

impl Drop for ModeGuard {
    fn drop(&mut self) {
        H.0.mode.set(self.0);
    }
}

/// Harness code that prepares values in the simulated heap, without faults.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let _g = enter(Mode::Quiet);
    f()
}

/// Harness bookkeeping, outside the simulated heap.
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    let _g = enter(Mode::Off);
    f()
}

/// Forgets everything of the previous run.
pub fn reset() {
    H.0.next.set(BASE + 4096);
    H.0.nblocks.set(0);
    H.0.bad.set(None);
    H.0.roomy.set(false);
    H.0.freed_bytes.set(0);
    H.0.hash.set(0);
    H.0.owner.set(0);
    H.0.op.set(0);
    H.0.fault.set(NO_FAULT);
}

/// How many blocks are held on behalf of this vector.
pub fn owned(uid: u32) -> usize {
    (0..nblocks())
        .map(block)
        .filter(|b| b.live && !b.excused && !b.harness && b.owner == uid)
        .count()
}

pub fn exhausted() -> bool {
    let budget = if H.0.roomy.get() {
        BIG_BUDGET
    } else {
        RUN_BUDGET
    };
    H.0.next.get() > BASE + budget || H.0.nblocks.get() > MAX_BLOCKS / 2
}

/// Starts an operation: its place in the run and its heap stream.
pub fn begin_op(op: u32, stream: u64) {
    H.0.op.set(op);
    H.0.rng.set(stream);
}

/// Arms the faults for the next stretch of code under test, and zeroes the counters.
pub fn arm(f: Fault) {
    H.0.fault.set(f);
    H.0.reqs.set(0);
    H.0.frees.set(0);
    H.0.refused.set(0);
    H.0.injected.set(0);
}

pub fn set_owner(uid: u32) {
    H.0.owner.set(uid);
}

pub fn reqs() -> u32 {
    H.0.reqs.get()
}
pub fn refused() -> u32 {
    H.0.refused.get()
}
pub fn injected() -> u32 {
    H.0.injected.get()
}
pub fn run_hash() -> u64 {
    H.0.hash.get()
}

pub fn req(i: usize) -> Req {
    REQLOG.0[i].get()
}

pub fn take_bad() -> Option<(Bad, usize, usize, usize)> {
    H.0.bad.take()
}

pub fn is_bad() -> bool {
    H.0.bad.get().is_some()
}

/// Looks for writes outside live blocks or into released ones.
pub fn scan(thorough: bool) {
    let n = H.0.nblocks.get();
    let mut budget = if thorough { usize::MAX } else { 256 << 10 };
    for i in (0..n).rev() {
        let b = BLOCKS.0[i].get();
        if b.live {
            if !canaries_ok(&b) {
                bad(Bad::Canary, i, b.size, b.align);
                return;
            }
        } else if b.cap <= budget {
            budget -= b.cap;
            if !all_are(b.addr, b.cap, FREED)
                || !all_are(b.addr - FRONT, FRONT, CANARY)
                || !all_are(b.addr + b.cap, REAR, CANARY)
            {
                bad(Bad::UseAfterFree, i, b.size, b.align);
                return;
            }
        }
    }
}

pub fn nblocks() -> usize {
    H.0.nblocks.get()
}

pub fn block(i: usize) -> Block {
    BLOCKS.0[i].get()
}

pub fn update(i: usize, f: impl FnOnce(&mut Block)) {
    let mut b = BLOCKS.0[i].get();
    f(&mut b);
    BLOCKS.0[i].set(b);
}

/// The live block containing `addr .. addr + len`.
pub fn containing(addr: usize, len: usize) -> Option<Block> {
    let b = BLOCKS.0[find(addr)?].get();
    (b.live && addr + len <= b.addr + b.size).then_some(b)
}

pub fn describe(b: (Bad, usize, usize, usize)) -> String {
    let (kind, x, y, z) = b;
    match kind {
        Bad::ZeroSize => format!("zero-sized heap request (align {x})"),
        Bad::DoubleFree => format!(
            "block #{x} ({} bytes) released twice (second time as {y} bytes, align {z})",
            block(x).size
        ),
        Bad::BadFree => format!("released something that is no block ({y} bytes, align {z})"),
        Bad::WrongLayout => {
            let b = block(x);
            format!(
                "block #{x} obtained as {} bytes align {} but released or resized as {y} bytes align {z}",
                b.size, b.align
            )
        }
        Bad::Canary => format!("write outside block #{x} ({y} bytes, align {z})"),
        Bad::UseAfterFree => format!("write into released block #{x} ({y} bytes, align {z})"),
        Bad::TooMany => "simulated heap exhausted".to_string(),
    }
}

pub struct HeapStats {
    pub reqs: u64,
    pub nth: u64,
    pub all: u64,
    pub limit: u64,
    pub natural: u64,
    pub moved: u64,
    pub inplace: u64,
    pub skewed: u64,
}

pub fn stats() -> HeapStats {
    let h = &H.0;
    HeapStats {
        reqs: h.s_reqs.get(),
        nth: h.s_refused_nth.get(),
        all: h.s_refused_all.get(),
        limit: h.s_refused_limit.get(),
        natural: h.s_refused_natural.get(),
        moved: h.s_moved.get(),
        inplace: h.s_inplace.get(),
        skewed: h.s_skewed.get(),
    }
}
