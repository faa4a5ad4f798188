//! What each operation does to the vectors, the lists, and the accounts.

use crate::emp::{by_value, lend, producer, AnyDest, Dest, Held, Way, WAYS};
use crate::heap::{self, quiet};
use crate::kinds::Kind;
use crate::reg::{
    self, alarm, alarmed, cb, expect, p, take_expected, tok_state, Cb, Class, Expected, Obs, St,
};
use crate::rng::{mix2, Rng};
use crate::script;
use crate::sink;
use crate::world::*;
use emplacable::Emplacable;
use std::mem::{align_of_val, size_of_val, ManuallyDrop};
use unsized_vec::UnsizedVec;

mod bulk;
mod burst;
mod clone;
mod compare;
mod deliver;
mod from_iter;
mod insert;
mod iter;
mod move_;
mod mutate;
mod new;
mod output;
mod range_;
mod remove;
mod reserve;
mod shrink;
mod std_;
mod std_extend;
mod unsize;

pub const MAX_SLOTS: usize = 3;
pub const MAX_LEN: usize = 40;

/// No more is stored one by one, except in vectors that bulk operations made long.
fn too_long(len: usize) -> bool {
    (MAX_LEN..MAX_LEN + 8).contains(&len) || len >= 3000
}

/// How many values a bulk operation handles: usually few, rarely hundreds.
fn bulk_len(x: u32, few: u32) -> usize {
    if x % 97 == 3 {
        50 + (x >> 8) as usize % 250
    } else {
        (x % few) as usize
    }
}

// ---- an iterator whose announcements may be wrong ----

pub struct Yield<K: Kind> {
    spec: u32,
    claim: usize,
    left: usize,
    n: u32,
    _k: std::marker::PhantomData<K>,
}

impl<K: Kind> Yield<K> {
    pub fn new(spec: u32, claim: usize, actual: usize) -> Self {
        Yield {
            spec,
            claim,
            left: actual,
            n: 0,
            _k: std::marker::PhantomData,
        }
    }
}

impl<K: Kind> Iterator for Yield<K> {
    type Item = Box<K::T>;
    fn next(&mut self) -> Option<Box<K::T>> {
        cb(Cb::IterNext);
        self.left = self.left.checked_sub(1)?;
        self.n += 1;
        let x = quiet(|| K::make(self.spec.wrapping_add(self.n.wrapping_mul(0x9e37_79b9))));
        expect(K::obs(&x), false);
        Some(x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let c = self.claim.saturating_sub(self.n as usize);
        (c, Some(c))
    }
}

impl<K: Kind> ExactSizeIterator for Yield<K> {
    fn len(&self) -> usize {
        self.claim.saturating_sub(self.n as usize)
    }
}

// ---- sources ----

pub const NFEED: u32 = 3;

/// Makes an emplacable in the `src`-th way and gives it to `d`.
pub fn feed<K: Kind, D: Dest<K::T>>(src: u32, spec: u32, d: D) -> D::Out {
    if src >= NFEED {
        return K::source(src - NFEED, spec, d);
    }
    let b = quiet(|| K::make(spec));
    expect(K::obs(&b), false);
    match src {
        0 => d.take(producer(b)),
        1 => d.take(Emplacable::from(b)),
        _ => lend(b, d),
    }
}

fn src_name<K: Kind>(src: u32) -> String {
    match src {
        0 => "custom producer".into(),
        1 => "Box".into(),
        2 => "with_emplacable_for".into(),
        n => format!("source {}", n - NFEED),
    }
}

fn one(e: &[Expected]) -> Option<Want> {
    e.first().map(|e| Want {
        o: e.obs.clone(),
        cloned: e.cloned,
    })
}

fn with_ins(m: &[Obs], at: usize, w: &Want) -> Vec<Want> {
    let mut x = wants(m);
    x.insert(at, w.clone());
    x
}

fn without(m: &[Obs], at: usize) -> Vec<Want> {
    let mut x = wants(m);
    x.remove(at);
    x
}

/// A panic on purpose, however it is worded.
fn is_refusal(m: &str) -> bool {
    ![
        "attempt to",
        "unsafe precondition",
        "unreachable",
        "misaligned",
        "null pointer",
    ]
    .iter()
    .any(|w| m.contains(w))
}

fn is_capacity_panic(m: &str) -> bool {
    is_refusal(m) && !m.contains("assertion")
}

pub fn outcome<R>(r: &Result<R, Unw>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(Unw::Inj) => "unwound (callback)",
        Err(Unw::Alloc) => "unwound (allocation)",
        Err(Unw::Panic(_)) => "panicked",
    }
}

/// Judges how code under test ended.
fn check_end<R>(r: &Result<R, Unw>, ran: &Ran, panics: &dyn Fn(&str) -> bool, what: &str) {
    match r {
        Ok(_) => {
            if let Some(c) = ran.fired {
                if c != Cb::Sink {
                    alarm(Class::Rule, 0, || {
                        format!("{what} swallowed an unwinding {c:?} callback")
                    });
                }
            }
        }
        Err(Unw::Inj) => {}
        Err(Unw::Alloc) => {
            if ran.refused == 0 {
                alarm(Class::Panic, p(4), || {
                    format!("{what} reported an allocation error though no request was refused")
                });
            } else if !ran.was_refused(ran.reported()) {
                alarm(Class::Rule, p(4), || {
                    format!(
                        "{what} reported that {:?} was refused, which was not asked for: {ran:?}",
                        ran.reported()
                    )
                });
            }
        }
        Err(Unw::Panic(m)) => {
            if !panics(m) {
                alarm(Class::Panic, 0, || format!("{what} panicked: {m}"));
            }
        }
    }
}

fn no_panics(_: &str) -> bool {
    false
}

impl<K: Kind> AnyWorld for World<K> {
    fn adopt_model(&mut self, m: Vec<Obs>, uid: u32, floor: usize, seed: u64) {
        self.seed = seed;
        let s = &mut self.slots[0];
        s.m = m;
        s.uid = uid;
        s.floor = floor;
    }

    fn finish(&mut self) {
        let op = Op {
            id: u32::MAX,
            k: OpK::Drop,
            a: [0; NARG],
            f: Flt::default(),
        };
        let mut cx = self.begin(&op);
        cx.note = "the end".into();
        while !self.slots.is_empty() && !alarmed() && !heap::is_bad() {
            self.drop_slot(0, &Flt::default());
        }
        if alarmed() || heap::is_bad() {
            alarm_bad();
            return;
        }
        self.settle(&mut cx);
        if alarmed() {
            return;
        }
        heap::scan(true);
        alarm_bad();
        for b in 0..heap::nblocks() {
            let blk = heap::block(b);
            if blk.live && !blk.excused {
                alarm(Class::Heap, 0, || {
                    format!(
                        "at the end, a block of {} bytes made by operation {} was never released",
                        blk.size, blk.op
                    )
                });
                break;
            }
        }
    }

    fn exec(&mut self, op: &Op) -> Option<Box<dyn AnyWorld>> {
        let mut cx = self.begin(op);
        let before = self
            .slots
            .get(op.a[0] as usize % self.slots.len().max(1))
            .map(|s| s.caps());
        let mut next = None;
        let mut ran = Ran::default();
        let mut how = "ok";
        if self.slots.is_empty() && !matches!(op.k, OpK::Deliver | OpK::ByValue | OpK::StdExtend) {
            let uid = new_uid();
            self.slots
                .push(Self::fresh_slot(UnsizedVec::new(), Vec::new(), uid));
        }
        let n = self.slots.len().max(1);
        let touched = match op.k {
            OpK::Iter | OpK::Ser | OpK::Debug | OpK::Compare | OpK::Mutate | OpK::Clone => {
                [None, None]
            }
            OpK::Deliver | OpK::ByValue | OpK::Collect | OpK::Macro | OpK::New | OpK::Swap => {
                [None, None]
            }
            k => {
                let i = op.a[0] as usize % n;
                let j = (i + 1 + op.a[3] as usize % (n - 1).max(1)) % n;
                [i, j].map(|x| {
                    (x == i || k == OpK::Move)
                        .then(|| self.slots.get(x).map(|s| s.uid))
                        .flatten()
                })
            }
        };
        let full = |w: &Self| {
            let i = op.a[0] as usize % w.slots.len().max(1);
            w.slots.get(i).is_some_and(|s| too_long(s.m.len()))
        };
        use OpK::*;
        match op.k {
            New => new::go(self, op, &mut cx, &mut ran, &mut how),
            Drop => {
                let i = op.a[0] as usize % self.slots.len();
                ran = self.drop_slot(i, &op.f);
                if ran.fired.is_some() {
                    how = "unwound (callback)";
                }
            }
            Push | Insert | PushWith | InsertWith | Special | Extend if full(self) => {
                how = "skipped"
            }
            Push | Insert | PushWith | InsertWith | Special => {
                insert::go(self, op, &mut cx, &mut ran, &mut how)
            }
            Pop | Remove => remove::go(self, op, &mut cx, &mut ran, &mut how),
            Move => move_::go(self, op, &mut cx, &mut ran, &mut how),
            Reserve => reserve::go(self, op, &mut cx, &mut ran, &mut how),
            Shrink => shrink::go(self, op, &mut cx, &mut ran, &mut how),
            Mutate => mutate::go(self, op, &mut cx),
            Iter => iter::go(self, op, &mut cx, &mut ran),
            Ser | Debug => output::go(self, op, &mut cx, &mut ran, &mut how),
            Clone => clone::go(self, op, &mut cx, &mut ran, &mut how),
            ThroughStd => std_::go(self, op, &mut cx, &mut ran),
            Unsize => next = unsize::go(self, op, &mut cx, &mut ran, &mut how),
            Extend | Collect | Macro => bulk::go(self, op, &mut cx, &mut ran, &mut how),
            StdExtend => std_extend::go(self, op, &mut cx, &mut ran, &mut how),
            Deliver | ByValue => deliver::go(self, op, &mut cx, &mut ran, &mut how),
            FromIter => from_iter::go(self, op, &mut cx, &mut ran, &mut how),
            OutOfRange => range_::go(self, op, &mut cx, &mut ran),
            Compare => compare::go(self, op, &mut cx, &mut ran, &mut how),
            Burst => burst::go(self, op, &mut cx, &mut ran, &mut how),
            Swap => {
                let (i, j) = (
                    op.a[0] as usize % self.slots.len(),
                    op.a[1] as usize % self.slots.len(),
                );
                self.slots.swap(i, j);
            }
        }
        if ran.refused > 0 {
            cx.domain |= match op.k {
                Push | Insert | Special => p(4),
                PushWith | InsertWith | Move => p(4) | p(8),
                _ => 0,
            };
            if op.f.limit.is_some() {
                cx.domain |= p(16);
            }
        }
        if ran.fired.is_some() && matches!(op.k, PushWith | InsertWith | Move) {
            cx.domain |= p(8);
        }
        if alarmed() || heap::is_bad() {
            alarm_bad();
        } else if next.is_none() {
            for i in 0..self.slots.len() {
                self.unchanged(i, &cx);
            }
            self.settle(&mut cx);
            if !alarmed() {
                self.stay_put(op, touched, &ran, &cx);
            }
        }
        let after = self
            .slots
            .get(op.a[0] as usize % self.slots.len().max(1))
            .map(|s| s.caps());
        if let (Some(b), Some(a)) = (before, after) {
            if a.align > b.align && b.len > 0 {
                cx.domain |= p(7);
                if b.len > 1 {
                    probe("re-padded two or more elements upwards");
                }
            }
            if a.align < b.align && op.k == Shrink && b.len > 1 {
                cx.domain |= p(7);
                probe("re-padded two or more elements downwards");
            }
        }
        RUN_DOMAIN.0.set(RUN_DOMAIN.0.get() | cx.domain);
        if alarmed() {
            heap::off(|| {
                if let Some(a) = reg::ALARM.0.borrow_mut().as_mut() {
                    a.props |= cx.domain;
                }
            });
        }
        // Coverage and determinism measures.
        let lv = |n: usize| (usize::BITS - n.leading_zeros()) as u64;
        let bucket = before.map_or(0, |c| {
            let room = if c.cap > c.len {
                1 + (c.bcap > c.blen) as u64
            } else {
                0
            };
            lv(c.len.min(8))
                | room << 4
                | lv(c.align) << 8
                | ((op.a[1] as usize % (c.len + 1) == c.len) as u64) << 16
        });
        let ev = ran.fired.map_or(0, |c| c as u64 + 1) << 8
            | (ran.refused > 0) as u64
            | (ran.refused > 1) as u64 * 2;
        let h = mix2(
            mix2(
                name_hash(std::any::type_name::<K>()),
                op.k as u64 | (op.a[3] as u64 % 16) << 8,
            ),
            mix2(bucket, mix2(ev, how.len() as u64)),
        );
        note_state(h);
        if ran.injected > 0 || ran.fired.is_some() {
            RUN_FAULTS.0.set(RUN_FAULTS.0.get() + 1);
        }
        RUN_HASH.0.set(mix2(
            RUN_HASH.0.get(),
            mix2(
                h,
                mix2(
                    ran.reqs as u64,
                    after.map_or(0, |c| c.bcap as u64 ^ (c.len as u64) << 32),
                ),
            ),
        ));
        heap::off(|| {
            if let Some(t) = TRACE.0.borrow_mut().as_mut() {
                let mut s = format!("{} [{}]", cx.note, how);
                if ran.injected > 0 {
                    s += &format!(" {} requests refused", ran.injected);
                }
                if let Some(c) = ran.fired {
                    s += &format!(" fault at {}", reg::CB_NAMES[c as usize]);
                }
                if let Some(c) = after {
                    s += &format!(
                        " -> len {} cap {} bytes {}/{} align {}",
                        c.len, c.cap, c.blen, c.bcap, c.align
                    );
                }
                t.push(s);
            }
        });
        next
    }
}

fn name_hash(s: &str) -> u64 {
    s.bytes().fold(0, |h, b| mix2(h, b as u64))
}

const ALIGNS: [usize; 20] = [
    1,
    1,
    2,
    4,
    8,
    8,
    16,
    16,
    32,
    64,
    64,
    128,
    128,
    4096,
    65536,
    1 << 20,
    1 << 40,
    0,
    3,
    1 << 63,
];

fn amount(x: u32, len: usize, spare: usize) -> usize {
    let v = (x >> 8) as usize;
    match x % 40 {
        0..=3 => 0,
        4..=11 => 1 + v % 4,
        12..=19 => 1 + v % 24,
        20..=24 => spare,
        25..=27 => spare.saturating_add(1 + v % 8),
        28..=30 => spare.saturating_sub(v % 4),
        31..=34 => 40 + v % 160,
        35 => usize::MAX - len,
        36 => usize::MAX - v % 64,
        37 => isize::MAX as usize - v % 70,
        38 => isize::MAX as usize / (1 + v % 33),
        _ => 1 << (20 + v % 40),
    }
}

const SMALL: usize = 1 << 14;

impl<K: Kind> World<K> {
    fn slot_of(&self, op: &Op) -> usize {
        op.a[0] as usize % self.slots.len()
    }

    /// Checks that hold after any operation that doesn't shrink on purpose.
    fn no_smaller(&self, i: usize, b: &Caps, props: u32, cx: &Ctx) {
        let a = self.slots[i].caps();
        if a.cap < b.cap || a.bcap < b.bcap || a.align < b.align {
            alarm(Class::Rule, props, || {
                format!("{} gave up capacity: {b:?} became {a:?}", cx.note)
            });
        }
    }

    /// Vector `i` is still where it was, up to element `upto`, and as big.
    fn still(&self, i: usize, upto: usize, cx: &Ctx) {
        let s = &self.slots[i];
        let Some((_, b, at)) = cx.was.iter().find(|w| w.0 == s.uid) else {
            return;
        };
        if alarmed() || heap::is_bad() || at.len() != b.len {
            return;
        }
        let a = s.caps();
        if (a.cap, a.bcap, a.align) != (b.cap, b.bcap, b.align) {
            alarm(Class::Rule, p(24), || {
                format!("{}: {b:?} of vector {i} became {a:?}", cx.note)
            });
        }
        let n = upto.min(at.len()).min(s.at.len());
        if let Some(k) = (0..n).find(|&k| s.at[k] != at[k]) {
            alarm(Class::Rule, p(24), || {
                format!(
                    "{}: element {k} of vector {i} moved from {:#x} to {:#x}",
                    cx.note, at[k], s.at[k]
                )
            });
        }
    }

    /// What needs no memory asks for none, and moves nothing.
    fn stay_put(&self, op: &Op, touched: [Option<u32>; 2], ran: &Ran, cx: &Ctx) {
        use OpK::*;
        if matches!(op.k, Drop | Iter | Ser | Debug | Compare) && ran.reqs > 0 {
            alarm(Class::Rule, p(24), || {
                format!("{}: made {} heap requests", cx.note, ran.reqs)
            });
        }
        for i in 0..self.slots.len() {
            if !touched.contains(&Some(self.slots[i].uid)) {
                self.still(i, usize::MAX, cx);
            }
        }
    }

    /// Checks what a destination received, and drops it.
    fn receive(&mut self, held: Held<K::T>, want: Option<&Want>, props: u32, cx: &Ctx) {
        if alarmed() || heap::is_bad() {
            std::mem::forget(held);
            return;
        }
        match (held.get(), want) {
            (None, None) => {}
            (None, Some(_)) if crate::emp::NO_ROOM.0.get() => {}
            (None, Some(_)) => alarm(Class::Content, props, || {
                format!("{}: nothing arrived", cx.note)
            }),
            (Some(_), None) => alarm(Class::Content, props, || {
                format!("{}: something arrived", cx.note)
            }),
            (Some(x), Some(w)) => {
                if held.others() > 0 {
                    alarm(Class::Rule, props, || {
                        format!("{}: delivered to a shared pointer", cx.note)
                    });
                }
                let (size, al) = (size_of_val(x), align_of_val(x));
                let addr = x as *const K::T as *const u8 as usize;
                if addr % al != 0 {
                    alarm(Class::Align, props, || {
                        format!("{}: delivered to {addr:#x}, alignment {al}", cx.note)
                    });
                }
                if size > 0 {
                    match heap::containing(addr, size) {
                        None => alarm(Class::Heap, props, || {
                            format!("{}: {size} bytes delivered outside any live block", cx.note)
                        }),
                        Some(b) => {
                            if held.exact_block() && (b.addr != addr || b.size != size) {
                                alarm(Class::Heap, props, || {
                                    format!(
                                        "{}: {size} bytes delivered to a block of {}",
                                        cx.note, b.size
                                    )
                                });
                            }
                        }
                    }
                }
                if !alarmed() {
                    match calm(|| K::obs(x)) {
                        Ok(o) if same(&o, w, cx.t0) => {}
                        Ok(o) => alarm(Class::Content, props, || {
                            format!(
                                "{}: {} arrived instead of {}",
                                cx.note,
                                o.brief(),
                                w.o.brief()
                            )
                        }),
                        Err(e) => alarm(Class::Panic, props, || format!("{}: {e:?}", cx.note)),
                    }
                }
            }
        }
        if alarmed() {
            std::mem::forget(held);
        } else {
            let _ = calm(move || drop(held));
        }
    }

    /// Blocks that values or buffers were prepared in now belong to a vector.
    fn retag(&self, cx: &Ctx, uid: u32) {
        for b in cx.nb0..heap::nblocks() {
            heap::update(b, |b| {
                if b.live {
                    b.owner = uid;
                    b.harness = false;
                }
            });
        }
    }
}

fn discard<K: Kind>(b: Box<K::T>) {
    let _ = calm(move || drop(b));
}

/// The slice made of elements announced one by one.
fn slice_obs(exp: &[Expected], align: usize) -> Obs {
    let mut o = Obs {
        align,
        val: exp.len() as u64,
        ..Obs::default()
    };
    for e in exp {
        o.size += e.obs.size;
        o.val = mix2(o.val, e.obs.val);
        o.toks.extend_from_slice(&e.obs.toks);
        o.z += e.obs.z;
    }
    o
}
