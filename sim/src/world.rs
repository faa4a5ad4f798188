//! A simulated program: a few vectors of one kind, the lists they should equal,
//! and the oracles that compare them.

use crate::heap::{self, Fault, Mode, NO_FAULT};
use crate::kinds::Kind;
use crate::reg::{self, alarm, alarmed, p, Cb, Class, Inj, Obs};
use crate::rng::mix2;
use std::cell::{Cell, RefCell};
use std::mem::{align_of_val, size_of_val, ManuallyDrop};
use std::panic::{catch_unwind, AssertUnwindSafe};
use unsized_vec::UnsizedVec;

// ---- operations, as data ----

macro_rules! op_kinds {
    ($($v:ident $n:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum OpK { $($v),* }
        pub const OPKS: &[(OpK, &str)] = &[$((OpK::$v, $n)),*];
    };
}
op_kinds! {
    New "new", Drop "drop", Push "push", Insert "insert", PushWith "push_with",
    InsertWith "insert_with", Special "special", Pop "pop", Remove "remove", Move "move",
    Reserve "reserve", Shrink "shrink", Mutate "mutate", Iter "iter", Ser "serialize",
    Debug "debug", Clone "clone", ThroughStd "through_std", Unsize "unsize",
    Extend "extend", Collect "collect", StdExtend "std_extend", Deliver "deliver",
    ByValue "by_value", FromIter "from_iter", OutOfRange "out_of_range", Swap "swap",
    Macro "macro", Compare "compare", Burst "burst",
}
pub const NOPK: usize = 30;

impl OpK {
    pub fn name(self) -> &'static str {
        OPKS[self as usize].1
    }
    /// The properties whose particular territory the operation is.
    pub fn domain(self) -> u32 {
        use OpK::*;
        match self {
            New => p(5) | p(22) | p(23),
            Drop | Mutate | Swap => p(24),
            Push | Insert | Special => 0,
            PushWith | InsertWith => p(10) | p(25),
            Pop | Remove => p(9) | p(10) | p(24) | p(25),
            Move => p(9) | p(10) | p(25),
            Reserve => p(4) | p(5),
            Shrink => p(6),
            Iter => p(12) | p(24),
            Ser | Debug => p(13) | p(24),
            Clone => p(14),
            ThroughStd | Unsize => p(15),
            Extend | Collect | StdExtend => p(17) | p(25),
            Deliver | ByValue => p(10) | p(25),
            FromIter => p(11) | p(10) | p(25),
            OutOfRange => p(21),
            Macro => p(1) | p(17),
            Compare => p(18) | p(24),
            Burst => p(19),
        }
    }
}

/// Faults armed for one operation.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Flt {
    /// Refuse `cnt` requests from the `nth` on.
    pub nth: u32,
    pub cnt: u32,
    /// Refuse everything.
    pub all: bool,
    /// Refuse requests bigger than the strict need plus this.
    pub limit: Option<i32>,
    /// Unwind (or report an error) at this callback event.
    pub cb: u32,
}

pub const NARG: usize = 7;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    pub id: u32,
    pub k: OpK,
    pub a: [u32; NARG],
    pub f: Flt,
}

// ---- running code under test ----

#[derive(Debug)]
pub enum Unw {
    Inj,
    Alloc,
    Panic(String),
}

pub struct AllocErr;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    /// Size and alignment in the last allocation error.
    static REPORTED: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()));
        if VERBOSE_PANICS.load(std::sync::atomic::Ordering::Relaxed) {
            eprintln!("panic: {msg} at {loc:?}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {}", loc.unwrap_or_default()));
    }));
    std::alloc::set_alloc_error_hook(|l| {
        REPORTED.with(|r| r.set((l.size(), l.align())));
        std::panic::resume_unwind(Box::new(AllocErr))
    });
}

pub static VERBOSE_PANICS: std::sync::atomic::AtomicBool =
    std::sync::atomic::AtomicBool::new(false);

fn caught(e: Box<dyn std::any::Any + Send>) -> Unw {
    if e.is::<Inj>() {
        Unw::Inj
    } else if e.is::<AllocErr>() {
        Unw::Alloc
    } else {
        heap::off(|| Unw::Panic(LAST_PANIC.with(|p| p.borrow().clone())))
    }
}

#[inline(never)]
fn caught_in(mode: Mode, f: &mut dyn FnMut()) -> Result<(), Unw> {
    catch_unwind(AssertUnwindSafe(|| {
        let _g = heap::enter(mode);
        f()
    }))
    .map_err(caught)
}

#[inline]
fn in_mode<R>(mode: Mode, f: impl FnOnce() -> R) -> Result<R, Unw> {
    let (mut f, mut out) = (Some(f), None);
    caught_in(mode, &mut || out = Some((f.take().unwrap())())).map(|()| out.unwrap())
}

/// Runs code under test: its heap requests and callbacks are events.
#[inline]
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Unw> {
    in_mode(Mode::Sut, f)
}

/// Runs observers, free of faults.
#[inline]
pub fn calm<R>(f: impl FnOnce() -> R) -> Result<R, Unw> {
    in_mode(Mode::Off, f)
}

/// What happened while code under test ran.
#[derive(Clone, Default, Debug)]
pub struct Ran {
    pub reqs: u32,
    pub refused: u32,
    pub injected: u32,
    pub fired: Option<Cb>,
    /// The smallest refused request.
    pub least_refused: Option<usize>,
    /// The first refused requests, with size and alignment.
    some_refused: [(usize, usize); 4],
}

impl Ran {
    /// Whether a request that was refused had this size and alignment.
    pub fn was_refused(&self, what: (usize, usize)) -> bool {
        self.reqs as usize > heap::LOG
            || self.refused as usize > self.some_refused.len()
            || self.some_refused.contains(&what)
    }
    pub fn reported(&self) -> (usize, usize) {
        REPORTED.with(|r| r.get())
    }
}

/// Arms the faults and runs code under test.
#[inline]
pub fn run<R>(f: &Flt, limit: usize, owner: u32, go: impl FnOnce() -> R) -> (Result<R, Unw>, Ran) {
    before(f, limit, owner);
    let r = sut(go);
    (r, after())
}

fn before(f: &Flt, limit: usize, owner: u32) {
    heap::set_owner(owner);
    heap::arm(Fault {
        nth: f.nth,
        cnt: f.cnt,
        all: f.all,
        limit,
    });
    reg::arm_cb(f.cb);
}

fn after() -> Ran {
    let n = heap::reqs().min(heap::LOG as u32) as usize;
    let mut some_refused = [(0, 0); 4];
    let refused = (0..n).map(heap::req).filter(|q| q.refused);
    for (s, q) in some_refused.iter_mut().zip(refused) {
        *s = (q.size, q.align);
    }
    let ran = Ran {
        some_refused,
        reqs: heap::reqs(),
        refused: heap::refused(),
        injected: heap::injected(),
        fired: reg::cb_fired(),
        least_refused: (0..n)
            .map(heap::req)
            .filter(|q| q.refused)
            .map(|q| q.size)
            .min(),
    };
    heap::arm(NO_FAULT);
    reg::arm_cb(0);
    ran
}

// ---- slots ----

pub struct Slot<K: Kind> {
    pub v: ManuallyDrop<UnsizedVec<K::T>>,
    pub m: Vec<Obs>,
    /// Where its elements were after the last operation.
    pub at: Vec<usize>,
    pub uid: u32,
    /// Alignment promised so far.
    pub floor: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Caps {
    pub len: usize,
    pub cap: usize,
    pub blen: usize,
    pub bcap: usize,
    pub align: usize,
}

pub fn pad(n: usize, align: usize) -> usize {
    n.checked_next_multiple_of(align).unwrap_or(usize::MAX)
}

impl<K: Kind> Slot<K> {
    pub fn caps(&self) -> Caps {
        Caps {
            len: self.v.len(),
            cap: self.v.capacity(),
            blen: self.v.byte_len(),
            bcap: self.v.byte_capacity(),
            align: self.v.align(),
        }
    }

    /// Storing such a value is covered by reserved capacity.
    pub fn fits(&self, size: usize, align: usize) -> bool {
        let c = self.caps();
        c.len < c.cap
            && (K::SIZED
                || (K::ALIGN.is_some() || align <= c.align)
                    && pad(size, if K::ALIGN.is_some() { 1 } else { c.align }) <= c.bcap - c.blen)
    }

    /// The block size that storing or reserving this strictly needs.
    pub fn strict(&self, bytes: usize, align: usize) -> usize {
        let c = self.caps();
        let needed = bytes.saturating_sub(c.bcap - c.blen);
        if K::ALIGN.is_some() {
            return pad(c.bcap.saturating_add(needed), c.align);
        }
        let al = align.max(c.align);
        let mut re = 0usize;
        for o in &self.m {
            re = pad(re.saturating_add(o.size), al);
        }
        let cost = if al > c.align { re - c.blen.min(re) } else { 0 };
        pad(
            pad(c.bcap.saturating_add(cost), al).saturating_add(needed),
            al,
        )
    }
}

/// An element that is expected.
#[derive(Clone)]
pub struct Want {
    pub o: Obs,
    pub cloned: bool,
}

pub fn wants(m: &[Obs]) -> Vec<Want> {
    m.iter()
        .map(|o| Want {
            o: o.clone(),
            cloned: false,
        })
        .collect()
}

pub fn matches(now: &[Obs], want: &[Want], t0: u32) -> bool {
    now.len() == want.len() && now.iter().zip(want).all(|(n, w)| same(n, w, t0))
}

pub fn same(n: &Obs, w: &Want, t0: u32) -> bool {
    n.same_value(&w.o)
        && if w.cloned {
            n.toks.iter().all(|&t| t > t0 && !w.o.toks.contains(&t))
        } else {
            n.toks == w.o.toks
        }
}

/// What an operation may leave behind.
pub struct Ctx {
    /// Values up to here existed before.
    pub t0: u32,
    pub z_made0: i64,
    pub nb0: usize,
    pub lose: Vec<u32>,
    /// All values made in this operation may be lost.
    pub lose_fresh: bool,
    pub z_lose: i64,
    pub excuse_harness: bool,
    pub excuse_sut: bool,
    pub domain: u32,
    pub note: String,
    /// The vectors as they were: capacities, and where the elements lay.
    pub was: Vec<(u32, Caps, Vec<usize>)>,
}

pub struct World<K: Kind> {
    pub slots: Vec<Slot<K>>,
    pub seed: u64,
}

pub trait AnyWorld {
    fn exec(&mut self, op: &Op) -> Option<Box<dyn AnyWorld>>;
    fn adopt_model(&mut self, m: Vec<Obs>, uid: u32, floor: usize, seed: u64);
    /// Drops everything and settles the accounts.
    fn finish(&mut self);
}

pub static TRACE: reg::Sh<RefCell<Option<Vec<String>>>> = reg::Sh(RefCell::new(None));
pub static NEXT_UID: reg::Sh<Cell<u32>> = reg::Sh(Cell::new(1));
pub static STATES: reg::Sh<RefCell<Option<std::collections::HashSet<u64>>>> =
    reg::Sh(RefCell::new(None));
pub static RUN_HASH: reg::Sh<Cell<u64>> = reg::Sh(Cell::new(0));
/// The properties in whose territory the run has been.
pub static RUN_DOMAIN: reg::Sh<Cell<u32>> = reg::Sh(Cell::new(0));
pub static RUN_FAULTS: reg::Sh<Cell<u32>> = reg::Sh(Cell::new(0));
pub static STEPS: reg::Sh<Cell<u64>> = reg::Sh(Cell::new(0));
/// Rare situations reached, by name.
pub static PROBES: reg::Sh<RefCell<std::collections::BTreeMap<&'static str, u64>>> =
    reg::Sh(RefCell::new(std::collections::BTreeMap::new()));

pub fn probe(name: &'static str) {
    heap::off(|| *PROBES.0.borrow_mut().entry(name).or_insert(0) += 1);
}

pub fn new_uid() -> u32 {
    let u = NEXT_UID.0.get();
    NEXT_UID.0.set(u + 1);
    u
}

/// Takes over a vector that code under test converted; called from within it.
pub fn adopt<K: Kind>(v: UnsizedVec<K::T>) -> Box<dyn AnyWorld> {
    heap::off(|| {
        let w: Box<World<K>> = Box::new(World {
            slots: vec![Slot {
                v: ManuallyDrop::new(v),
                m: Vec::new(),
                at: Vec::new(),
                uid: 0,
                floor: 1,
            }],
            seed: 0,
        });
        w as Box<dyn AnyWorld>
    })
}

pub fn alarm_bad() {
    if let Some(b) = heap::take_bad() {
        if b.0 != heap::Bad::TooMany {
            alarm(Class::Heap, 0, || heap::describe(b));
        }
    }
}

impl<K: Kind> World<K> {
    pub fn new(seed: u64) -> World<K> {
        World {
            slots: Vec::new(),
            seed,
        }
    }

    pub fn fresh_slot(v: UnsizedVec<K::T>, m: Vec<Obs>, uid: u32) -> Slot<K> {
        Slot {
            floor: v.align().min(1),
            v: ManuallyDrop::new(v),
            m,
            at: Vec::new(),
            uid,
        }
    }

    /// Looks at everything a vector shows.
    fn observe(&self, i: usize) -> (Vec<Obs>, Vec<usize>) {
        let s = &self.slots[i];
        match calm(|| observe::<K>(&s.v, s.floor, s.uid)) {
            Ok(o) => o,
            Err(e) => {
                alarm(Class::Panic, 0, || {
                    format!("looking at vector {i} panicked: {e:?}")
                });
                Default::default()
            }
        }
    }

    /// The vector must equal one of the candidates; it becomes the model.
    pub fn judge(&mut self, i: usize, cands: &[Vec<Want>], cx: &Ctx) -> Option<usize> {
        if alarmed() || heap::is_bad() {
            return None;
        }
        let (now, at) = self.observe(i);
        if alarmed() {
            return None;
        }
        match cands.iter().position(|c| matches(&now, c, cx.t0)) {
            Some(n) => {
                self.slots[i].m = now;
                self.slots[i].at = at;
                Some(n)
            }
            None => {
                alarm(Class::Content, 0, || {
                    let show = |v: &[Obs]| v.iter().map(Obs::brief).collect::<Vec<_>>().join(" ");
                    let c: Vec<String> = cands
                        .iter()
                        .map(|c| {
                            let o: Vec<Obs> = c.iter().map(|w| w.o.clone()).collect();
                            format!("[{}]", show(&o))
                        })
                        .collect();
                    format!(
                        "after {}: vector {i} shows [{}] instead of {}",
                        cx.note,
                        show(&now),
                        c.join(" or ")
                    )
                });
                None
            }
        }
    }

    pub fn unchanged(&mut self, i: usize, cx: &Ctx) {
        let w = wants(&self.slots[i].m);
        self.judge(i, &[w], cx);
    }

    pub fn begin(&self, op: &Op) -> Ctx {
        reg::CUR_OP.0.set(op.id);
        heap::begin_op(op.id, mix2(self.seed, op.id as u64));
        reg::nest(mix2(!self.seed, op.id as u64));
        reg::take_expected();
        crate::emp::NO_ROOM.0.set(false);
        STEPS.0.set(STEPS.0.get() + 1);
        Ctx {
            t0: reg::ntoks(),
            z_made0: reg::z_made(),
            nb0: heap::nblocks(),
            lose: Vec::new(),
            lose_fresh: false,
            z_lose: 0,
            excuse_harness: false,
            excuse_sut: false,
            domain: op.k.domain(),
            note: op.k.name().to_string(),
            was: self
                .slots
                .iter()
                .map(|s| (s.uid, s.caps(), s.at.clone()))
                .collect(),
        }
    }

    /// Settles the accounts of values and blocks after an operation.
    pub fn settle(&mut self, cx: &mut Ctx) {
        alarm_bad();
        if alarmed() {
            return;
        }
        heap::scan(false);
        alarm_bad();
        let mut owned = Vec::new();
        let mut z = 0;
        for s in &self.slots {
            for o in &s.m {
                owned.extend_from_slice(&o.toks);
                z += o.z;
            }
        }
        if cx.lose_fresh {
            cx.z_lose += reg::z_made() - cx.z_made0;
        }
        let (t0, fresh, lose) = (cx.t0, cx.lose_fresh, &cx.lose);
        reg::account(
            &owned,
            z,
            &|id| (fresh && id > t0) || lose.contains(&id),
            cx.z_lose,
        );
        for b in cx.nb0..heap::nblocks() {
            let blk = heap::block(b);
            if !blk.live || blk.excused {
                continue;
            }
            if blk.harness {
                if cx.excuse_harness {
                    heap::update(b, |b| b.excused = true);
                } else if !self.slots.iter().any(|s| s.uid == blk.owner) {
                    alarm(Class::Heap, p(2), || {
                        format!("after {}: the block of a value handed over ({} bytes) was not released", cx.note, blk.size)
                    });
                }
            } else if cx.excuse_sut {
                heap::update(b, |b| b.excused = true);
            } else if !self.slots.iter().any(|s| s.uid == blk.owner) {
                alarm(Class::Heap, 0, || {
                    format!(
                        "after {}: a block of {} bytes has no owner any more",
                        cx.note, blk.size
                    )
                });
            }
        }
    }

    /// No block of this vector may be left.
    pub fn no_blocks_of(&self, uid: u32, what: &str) {
        for b in 0..heap::nblocks() {
            let blk = heap::block(b);
            if blk.live && !blk.excused && !blk.harness && blk.owner == uid {
                alarm(Class::Heap, 0, || {
                    format!("{what}: its block of {} bytes was not released", blk.size)
                });
                return;
            }
        }
    }

    /// Drops vector `i` under faults `f`.
    pub fn drop_slot(&mut self, i: usize, f: &Flt) -> Ran {
        let s = self.slots.remove(i);
        let v = ManuallyDrop::into_inner(s.v);
        let (r, ran) = run(f, usize::MAX, s.uid, move || drop(v));
        match r {
            Ok(()) => self.no_blocks_of(s.uid, "a vector was dropped"),
            Err(Unw::Inj) => {
                // The other elements are dropped all the same.
                probe("vector drop unwound");
                for &t in s.m.iter().flat_map(|o| &o.toks) {
                    if reg::tok_state(t) == reg::St::Live {
                        alarm(Class::Drop, 0, || {
                            format!("dropping a vector unwound: value {t} was not dropped")
                        });
                    }
                }
                self.no_blocks_of(s.uid, "dropping a vector unwound");
            }
            Err(e) => alarm(Class::Panic, 0, || format!("dropping a vector: {e:?}")),
        }
        ran
    }
}

/// Reads everything a vector shows, checking that it is consistent.
fn observe<K: Kind>(v: &UnsizedVec<K::T>, floor: usize, uid: u32) -> (Vec<Obs>, Vec<usize>) {
    let len = v.len();
    let bad = |m: String| alarm(Class::Content, 0, || m);
    let (cap, blen, bcap, align) = (v.capacity(), v.byte_len(), v.byte_capacity(), v.align());
    if len > 1 << 16 {
        bad(format!("length is {len}"));
        return Default::default();
    }
    if v.is_empty() != (len == 0) {
        bad("is_empty disagrees with len".into());
    }
    if cap < len {
        alarm(Class::Content, p(5) | p(6), || {
            format!("capacity {cap} is below length {len}")
        });
    }
    if bcap < blen {
        alarm(Class::Content, p(5) | p(6), || {
            format!("byte capacity {bcap} is below byte length {blen}")
        });
    }
    if !align.is_power_of_two() || align < floor {
        alarm(Class::Align, p(7) | p(5), || {
            format!("alignment is {align}, but {floor} was reserved and not given back")
        });
    }
    if v.get(len).is_some() || v.get(usize::MAX).is_some() {
        bad("get past the end shows something".into());
    }
    let it = v.iter();
    if it.len() != len || it.size_hint() != (len, Some(len)) {
        bad(format!("iterator announces {} of {len} elements", it.len()));
    }
    let refs: Vec<*const K::T> = it.map(|x| x as *const K::T).collect();
    if refs.len() != len {
        bad(format!("iteration shows {} of {len} elements", refs.len()));
        return Default::default();
    }
    let back: Vec<*const K::T> = v.iter().rev().map(|x| x as *const K::T).collect();
    let mut out = Vec::with_capacity(len);
    let mut end = 0usize;
    let mut block = 0usize;
    let mut total = 0usize;
    for (i, &r) in refs.iter().enumerate() {
        let x = unsafe { v.get_unchecked(i) };
        let y = v.get(i);
        let z = &v[i];
        let (px, py, pz) = (
            x as *const K::T,
            y.map(|y| y as *const K::T),
            z as *const K::T,
        );
        let same = |a: *const K::T, b: *const K::T| {
            a.cast::<u8>() == b.cast::<u8>()
                && unsafe {
                    size_of_val(&*a) == size_of_val(&*b) && align_of_val(&*a) == align_of_val(&*b)
                }
        };
        if !same(px, r) || !py.is_some_and(|p| same(p, r)) || !same(pz, r) {
            bad(format!(
                "element {i} differs between indexing and iteration"
            ));
            return Default::default();
        }
        if back.len() != len || !same(back[len - 1 - i], r) {
            alarm(Class::Content, p(12), || {
                format!("element {i} differs between forward and backward iteration")
            });
            return Default::default();
        }
        let (size, al) = (size_of_val(x), align_of_val(x));
        let addr = r.cast::<u8>() as usize;
        total = total.saturating_add(size);
        if addr % al != 0 {
            alarm(Class::Align, 0, || {
                format!("element {i} needs alignment {al} but is at {addr:#x}")
            });
            return Default::default();
        }
        if al > align {
            alarm(Class::Align, p(7), || {
                format!("element {i} has alignment {al} but the vector reports {align}")
            });
        }
        if size > 0 {
            match heap::containing(addr, size) {
                None => {
                    alarm(Class::Heap, p(1), || {
                        format!("element {i} ({size} bytes) is not inside a live block")
                    });
                    return Default::default();
                }
                Some(b) => {
                    if block == 0 {
                        block = b.addr;
                        if b.owner != uid {
                            alarm(Class::Heap, p(14), || {
                                "the elements are in a block that belongs to something else".into()
                            });
                        }
                        if b.size > bcap {
                            // More room than announced is fine.
                        } else if b.size < bcap {
                            alarm(Class::Heap, p(5), || {
                                format!(
                                    "byte capacity is {bcap} but the block has {} bytes",
                                    b.size
                                )
                            });
                        }
                    } else if b.addr != block {
                        bad(format!("element {i} is in another block"));
                    }
                }
            }
            if addr < end {
                alarm(Class::Content, p(7), || {
                    format!("element {i} overlaps the one before")
                });
                return Default::default();
            }
            end = addr + size;
        }
        let o = K::obs(x);
        if reg::alarmed() {
            return Default::default();
        }
        out.push(o);
    }
    if total > blen && !(K::SIZED && total == 0) {
        alarm(Class::Content, p(5), || {
            format!("byte length is {blen} but the elements have {total} bytes")
        });
    }
    occupancy::<K>(v, &refs, uid);
    (out, refs.iter().map(|r| r.cast::<u8>() as usize).collect())
}

/// The elements lie end to end, and the vector takes up what it says.
fn occupancy<K: Kind>(v: &UnsizedVec<K::T>, refs: &[*const K::T], uid: u32) {
    let (cap, blen, bcap, align) = (v.capacity(), v.byte_len(), v.byte_capacity(), v.align());
    let rule = |m: &dyn Fn() -> String| alarm(Class::Rule, p(23), m);
    if K::ALIGN.is_some_and(|a| a != align) {
        rule(&|| {
            format!(
                "alignment is reported as {align}, that of the elements is {:?}",
                K::ALIGN
            )
        });
    }
    let room = |r: *const K::T| {
        let size = unsafe { size_of_val(&*r) };
        if K::ALIGN.is_some() {
            size
        } else {
            pad(size, align)
        }
    };
    let total: usize = refs.iter().map(|&r| room(r)).sum();
    if blen != total {
        rule(&|| format!("byte length is {blen}, but the elements take up {total} bytes"));
    }
    for (i, w) in refs.windows(2).enumerate() {
        let (a, b) = (w[0].cast::<u8>() as usize, w[1].cast::<u8>() as usize);
        if b.wrapping_sub(a) != room(w[0]) {
            rule(&|| {
                format!(
                    "element {} is {} bytes behind element {i}, which takes up {}",
                    i + 1,
                    b.wrapping_sub(a),
                    room(w[0])
                )
            });
        }
    }
    if uid != 0 {
        let most = if K::SIZED {
            (bcap > 0) as usize
        } else {
            (cap > 0) as usize + (bcap > 0) as usize
        };
        let have = heap::owned(uid);
        if have > most {
            rule(&|| {
                format!("the vector has {have} blocks for capacities of {cap} elements and {bcap} bytes")
            });
        }
    }
}

/// Hash of one situation, for the coverage measure.
pub fn note_state(h: u64) {
    heap::off(|| {
        if let Some(s) = STATES.0.borrow_mut().as_mut() {
            s.insert(h);
        }
    });
}
