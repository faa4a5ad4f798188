//! The registry of every value the simulator hands to the code under test, and
//! the seam for its callbacks: each call back into "caller code" is an event, and
//! the scheduler may make any of them unwind.

use crate::heap::{self, Mode};
use crate::rng::mix2;
use std::cell::{Cell, RefCell};

pub struct Sh<T>(pub T);
// The workers are single-threaded.
unsafe impl<T> Sync for Sh<T> {}

// ---- alarms ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Content,
    Panic,
    Drop,
    Leak,
    Heap,
    Align,
    Rule,
}

#[derive(Clone, Debug)]
pub struct Alarm {
    pub class: Class,
    /// Properties this alarm is direct evidence against (bit i: C<i>).
    pub props: u32,
    pub msg: String,
    pub op: u32,
}

pub static ALARM: Sh<RefCell<Option<Alarm>>> = Sh(RefCell::new(None));
pub static CUR_OP: Sh<Cell<u32>> = Sh(Cell::new(0));

pub const fn p(n: u32) -> u32 {
    1 << n
}

/// Records a violation; the first one of a run counts.
#[inline(always)]
pub fn alarm(class: Class, props: u32, msg: impl FnOnce() -> String) {
    let mut msg = Some(msg);
    alarm_dyn(class, props, &mut || (msg.take().unwrap())())
}

#[cold]
#[inline(never)]
fn alarm_dyn(class: Class, props: u32, msg: &mut dyn FnMut() -> String) {
    heap::off(|| {
        let mut a = ALARM.0.borrow_mut();
        if a.is_none() {
            *a = Some(Alarm {
                class,
                props,
                msg: msg(),
                op: CUR_OP.0.get(),
            });
        }
    });
}

pub fn alarmed() -> bool {
    ALARM.0.borrow().is_some()
}

// ---- callback events ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Cb {
    Clone,
    Drop,
    /// Producer: before asking for space.
    P0,
    /// Producer: has space, nothing written.
    P1,
    /// Producer: partly written.
    P2,
    /// Producer: all written, the destination not told yet.
    P3,
    /// Producer: the destination is done, but may not own the value yet.
    P4,
    /// Receiver: before taking the value.
    R0,
    /// Receiver: after taking the value.
    R1,
    IterNext,
    Closure,
    Sink,
    Lend,
    Cmp,
    Hash,
}

pub const NCB: usize = 15;
pub const CB_NAMES: [&str; NCB] = [
    "clone",
    "drop",
    "producer_before_space",
    "producer_before_write",
    "producer_mid_write",
    "producer_after_write",
    "producer_after_handover",
    "receiver_before_take",
    "receiver_after_take",
    "iterator_next",
    "caller_closure",
    "sink_write",
    "lend_callback",
    "compare",
    "hash",
];

pub struct Inj;

struct CbState {
    target: Cell<u32>,
    count: Cell<u32>,
    fired: Cell<Option<Cb>>,
    /// The event at which caller code uses vectors of its own.
    nest: Cell<u32>,
    nest_seed: Cell<u64>,
    s_fired: [Cell<u64>; NCB],
    s_seen: [Cell<u64>; NCB],
}

static CB: Sh<CbState> = Sh(CbState {
    target: Cell::new(0),
    count: Cell::new(0),
    fired: Cell::new(None),
    nest: Cell::new(0),
    nest_seed: Cell::new(0),
    s_fired: [const { Cell::new(0) }; NCB],
    s_seen: [const { Cell::new(0) }; NCB],
});

/// Decides whether caller code uses vectors of its own during an operation.
pub fn nest(seed: u64) {
    let at = if seed % 7 == 0 {
        1 + (seed >> 8) as u32 % 5
    } else {
        0
    };
    CB.0.nest.set(at);
    CB.0.nest_seed.set(seed);
}

pub fn arm_cb(target: u32) {
    CB.0.target.set(target);
    CB.0.count.set(0);
    CB.0.fired.set(None);
}

pub fn cb_fired() -> Option<Cb> {
    CB.0.fired.get()
}

pub fn cb_stats() -> Vec<(&'static str, u64, u64)> {
    (0..NCB)
        .map(|i| (CB_NAMES[i], CB.0.s_seen[i].get(), CB.0.s_fired[i].get()))
        .collect()
}

/// An event: control is in caller code. May unwind.
pub fn cb(kind: Cb) {
    if heap::mode() != Mode::Sut || std::thread::panicking() {
        return;
    }
    let s = &CB.0;
    let n = s.count.get() + 1;
    s.count.set(n);
    let k = kind as usize;
    s.s_seen[k].set(s.s_seen[k].get() + 1);
    if n == s.nest.get() {
        s.nest.set(0);
        crate::world::probe("vectors used within callbacks");
        crate::nest::go(s.nest_seed.get());
    }
    if n == s.target.get() {
        s.fired.set(Some(kind));
        s.s_fired[k].set(s.s_fired[k].get() + 1);
        std::panic::resume_unwind(Box::new(Inj));
    }
}

/// Like `cb`, for callers that report an error instead of unwinding.
pub fn cb_err(kind: Cb) -> bool {
    if heap::mode() != Mode::Sut || std::thread::panicking() {
        return false;
    }
    let s = &CB.0;
    let n = s.count.get() + 1;
    s.count.set(n);
    let k = kind as usize;
    s.s_seen[k].set(s.s_seen[k].get() + 1);
    if n == s.target.get() {
        s.fired.set(Some(kind));
        s.s_fired[k].set(s.s_fired[k].get() + 1);
        return true;
    }
    false
}

// ---- tokens ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    None,
    Live,
    Dropped,
    /// The simulator gave up tracking it: leaked on purpose or in transit.
    Lost,
}

#[derive(Clone, Copy)]
struct TokState {
    label: u32,
    st: St,
    mark: u32,
}

const MAX_TOKS: usize = 1 << 15;

struct Toks {
    n: Cell<u32>,
    t: [Cell<TokState>; MAX_TOKS],
    z_live: Cell<i64>,
    z_lost: Cell<i64>,
    z_made: Cell<i64>,
    epoch: Cell<u32>,
}

static T: Sh<Toks> = Sh(Toks {
    n: Cell::new(0),
    t: [const {
        Cell::new(TokState {
            label: 0,
            st: St::None,
            mark: 0,
        })
    }; MAX_TOKS],
    z_live: Cell::new(0),
    z_lost: Cell::new(0),
    z_made: Cell::new(0),
    epoch: Cell::new(0),
});

pub fn reset() {
    for i in 0..=T.0.n.get() as usize {
        T.0.t[i.min(MAX_TOKS - 1)].set(TokState {
            label: 0,
            st: St::None,
            mark: 0,
        });
    }
    T.0.n.set(0);
    T.0.z_live.set(0);
    T.0.z_lost.set(0);
    T.0.z_made.set(0);
    T.0.epoch.set(0);
    arm_cb(0);
    *ALARM.0.borrow_mut() = None;
    EXPECT.0.borrow_mut().clear();
}

pub fn exhausted() -> bool {
    T.0.n.get() as usize > MAX_TOKS * 3 / 4
}

/// A tracked value with a destructor: 16 bytes, align 8.
#[repr(C)]
pub struct Tok {
    pub id: u32,
    label: u32,
    chk: u64,
}

fn chk(id: u32, label: u32) -> u64 {
    mix2(id as u64 ^ 0xdead_beef, label as u64)
}

impl Tok {
    pub fn new(label: u32) -> Tok {
        let id = T.0.n.get() + 1;
        T.0.n.set(id);
        T.0.t[id as usize].set(TokState {
            label,
            st: St::Live,
            mark: 0,
        });
        Tok {
            id,
            label,
            chk: chk(id, label),
        }
    }

    /// Checks that this is a live value as created, and returns its label.
    pub fn read(&self) -> u32 {
        if self.state("read") == Some(St::Live) {
            let want = T.0.t[self.id as usize].get().label;
            if want != self.label {
                alarm(Class::Content, 0, || {
                    format!("value {} holds {} instead of {want}", self.id, self.label)
                });
            }
        }
        self.label
    }

    fn state(&self, what: &str) -> Option<St> {
        let known = self.id >= 1 && self.id <= T.0.n.get();
        if !known || self.chk != chk(self.id, self.label) {
            alarm(
                if what == "drop" {
                    Class::Drop
                } else {
                    Class::Content
                },
                0,
                || {
                    format!(
                        "{what} of something that was never created (bytes {:08x} {:08x} {:016x})",
                        self.id, self.label, self.chk
                    )
                },
            );
            return None;
        }
        let s = T.0.t[self.id as usize].get();
        match s.st {
            St::Live => {}
            St::Dropped => alarm(Class::Drop, 0, || {
                format!("{what} of value {} after it was dropped", self.id)
            }),
            St::Lost => alarm(Class::Drop, 0, || {
                format!("{what} of value {} after it was given up", self.id)
            }),
            St::None => unreachable!(),
        }
        Some(s.st)
    }

    pub fn relabel(&mut self, label: u32) {
        if self.state("write") == Some(St::Live) {
            let c = &T.0.t[self.id as usize];
            let mut s = c.get();
            s.label = label;
            c.set(s);
            self.label = label;
            self.chk = chk(self.id, label);
        }
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.read();
        cb(Cb::Clone);
        Tok::new(self.label)
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        if self.state("drop") == Some(St::Live) {
            let c = &T.0.t[self.id as usize];
            let mut s = c.get();
            s.st = St::Dropped;
            c.set(s);
        }
        cb(Cb::Drop);
    }
}

/// A zero-sized tracked value; only the number of live ones is known.
pub struct ZTok(());

impl ZTok {
    pub fn new() -> ZTok {
        T.0.z_live.set(T.0.z_live.get() + 1);
        T.0.z_made.set(T.0.z_made.get() + 1);
        ZTok(())
    }
}

impl Clone for ZTok {
    fn clone(&self) -> ZTok {
        cb(Cb::Clone);
        ZTok::new()
    }
}

impl Drop for ZTok {
    fn drop(&mut self) {
        T.0.z_live.set(T.0.z_live.get() - 1);
        if T.0.z_live.get() < 0 {
            alarm(Class::Drop, 0, || {
                "a zero-sized value was dropped twice".into()
            });
        }
        cb(Cb::Drop);
    }
}

pub fn tok_state(id: u32) -> St {
    T.0.t[id as usize].get().st
}

pub fn ntoks() -> u32 {
    T.0.n.get()
}

pub fn z_made() -> i64 {
    T.0.z_made.get()
}

pub fn z_live() -> i64 {
    T.0.z_live.get()
}

/// Gives up tracking a live value (it was leaked legitimately).
pub fn lose(id: u32) {
    let c = &T.0.t[id as usize];
    let mut s = c.get();
    if s.st == St::Live {
        s.st = St::Lost;
        c.set(s);
    }
}

/// Settles the accounts after an operation. `owned` are the values that owners
/// hold; any other live value must have been dropped, or may be lost.
pub fn account(owned: &[u32], z_owned: i64, may_lose: &dyn Fn(u32) -> bool, z_may_lose: i64) {
    let e = T.0.epoch.get() + 1;
    T.0.epoch.set(e);
    for &id in owned {
        let c = &T.0.t[id as usize];
        let mut s = c.get();
        if s.mark == e {
            alarm(Class::Content, 0, || format!("value {id} is in two places"));
        }
        s.mark = e;
        c.set(s);
        if s.st != St::Live {
            alarm(Class::Drop, 0, || {
                format!("value {id} is still held but was dropped")
            });
        }
    }
    for id in 1..=T.0.n.get() {
        let s = T.0.t[id as usize].get();
        if s.st == St::Live && s.mark != e {
            if may_lose(id) {
                lose(id);
            } else {
                alarm(Class::Leak, 0, || {
                    format!(
                        "value {id} (label {}) is gone but was never dropped",
                        s.label
                    )
                });
            }
        }
    }
    let lost = T.0.z_live.get() - T.0.z_lost.get() - z_owned;
    if lost < 0 {
        alarm(Class::Drop, 0, || {
            format!(
                "{} zero-sized values were dropped but are still held",
                -lost
            )
        });
    } else if lost > z_may_lose {
        alarm(Class::Leak, 0, || {
            format!("{lost} zero-sized values are gone but were never dropped")
        });
    } else {
        T.0.z_lost.set(T.0.z_lost.get() + lost);
    }
}

// ---- observations ----

/// What can be seen of one element.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Obs {
    pub size: usize,
    pub align: usize,
    /// Digest of the content, labels included, identities excluded.
    pub val: u64,
    /// Identities of the tracked values inside.
    pub toks: Vec<u32>,
    pub z: i64,
}

impl Obs {
    pub fn same_value(&self, o: &Obs) -> bool {
        self.size == o.size
            && self.align == o.align
            && self.val == o.val
            && self.z == o.z
            && self.toks.len() == o.toks.len()
    }
    pub fn brief(&self) -> String {
        format!(
            "{{{}B a{} #{:04x} {:?}}}",
            self.size,
            self.align,
            self.val & 0xffff,
            self.toks
        )
    }
}

/// Values that the sources of the current operation have announced.
#[derive(Clone)]
pub struct Expected {
    pub obs: Obs,
    /// Identities will be new (the source clones).
    pub cloned: bool,
}

pub static EXPECT: Sh<RefCell<Vec<Expected>>> = Sh(RefCell::new(Vec::new()));

pub fn expect(obs: Obs, cloned: bool) {
    heap::off(|| EXPECT.0.borrow_mut().push(Expected { obs, cloned }));
}

pub fn take_expected() -> Vec<Expected> {
    heap::off(|| std::mem::take(&mut *EXPECT.0.borrow_mut()))
}
