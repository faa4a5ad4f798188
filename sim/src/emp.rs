//! Caller code on both ends of an emplacable: producers and receivers whose every
//! stage is an event, and the table of destinations.

use crate::heap::{self, quiet};
use crate::kinds::Kind;
use crate::reg::{alarm, cb, p, Cb, Class};
use emplacable::*;
use std::alloc::Layout;
use std::marker::PhantomData;
use std::pin::Pin;
use std::ptr;
use std::rc::Rc;
use std::sync::Arc;
use unsized_vec::UnsizedVec;

/// Something that an emplacable of any closure type can be given to.
pub trait Dest<T: ?Sized> {
    type Out;
    fn take<F: EmplacableFn<T>>(self, e: Emplacable<T, F>) -> Self::Out;
}

// ---- producer ----

/// A producer may own its value until it returns: the destination may not have it before.
struct ProdGuard<T: ?Sized> {
    raw: *mut T,
    layout: Layout,
    called: bool,
    dropped: bool,
    /// All written (or dropped), and the destination may not fail any more.
    done: bool,
    /// The destination has returned.
    back: bool,
}

impl<T: ?Sized> Drop for ProdGuard<T> {
    fn drop(&mut self) {
        if self.done && !self.back {
            alarm(Class::Rule, p(8) | p(10) | p(25), || {
                "a destination unwound after the value had been written".into()
            });
        }
        if !self.dropped && std::thread::panicking() {
            // Unwound before it could return: the value is still its own.
            unsafe { drop(Box::from_raw(self.raw)) }
        } else if self.layout.size() > 0 {
            unsafe { std::alloc::dealloc(self.raw.cast(), self.layout) }
        }
    }
}

/// Checks the space that a destination offers for a value.
fn check_space(out: usize, layout: Layout) {
    if out % layout.align() != 0 {
        alarm(Class::Align, p(10) | p(7) | p(25), || {
            format!(
                "space offered for a value of align {} is at {out:#x}",
                layout.align()
            )
        });
    }
    if layout.size() > 0
        && (heap::BASE..heap::BASE + heap::ARENA).contains(&out)
        && heap::containing(out, layout.size()).is_none()
    {
        alarm(Class::Heap, p(10) | p(25), || {
            format!(
                "space offered for {} bytes is not inside one live block",
                layout.size()
            )
        });
    }
}

/// An emplacable for the boxed value, with an event at every stage.
pub fn producer<T: ?Sized>(b: Box<T>) -> Emplacable<T, impl EmplacableFn<T>> {
    let closure = move |em: &mut Emplacer<'_, T>| {
        let b: Box<T> = b;
        cb(Cb::P0);
        let layout = Layout::for_value(&*b);
        let raw = Box::into_raw(b);
        let mut g = ProdGuard {
            raw,
            layout,
            called: false,
            dropped: false,
            done: false,
            back: false,
        };
        let meta = ptr::metadata(raw);
        let f = unsafe { em.into_fn() };
        f(layout, meta, &mut |out: *mut PhantomData<T>| {
            if g.called {
                alarm(Class::Drop, p(10) | p(25), || {
                    "a destination asked for the same value twice".into()
                });
                return;
            }
            g.called = true;
            if out.is_null() {
                g.dropped = true;
                unsafe { ptr::drop_in_place(g.raw) };
                g.done = true;
                return;
            }
            check_space(out as usize, layout);
            if crate::reg::alarmed() {
                return;
            }
            cb(Cb::P1);
            let n = layout.size();
            let half = n / 2;
            unsafe {
                let (src, dst) = (g.raw.cast::<u8>(), out.cast::<u8>());
                ptr::copy_nonoverlapping(src, dst, half);
                cb(Cb::P2);
                ptr::copy_nonoverlapping(src.add(half), dst.add(half), n - half);
            }
            cb(Cb::P3);
            g.done = true;
        });
        g.back = true;
        cb(Cb::P4);
        drop(g);
    };
    unsafe { Emplacable::from_fn(closure) }
}

// ---- receiver ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Recv {
    Take,
    Null,
    Ignore,
}

struct BufGuard(*mut u8, Layout);

impl Drop for BufGuard {
    fn drop(&mut self) {
        if self.1.size() > 0 {
            unsafe { std::alloc::dealloc(self.0, self.1) }
        }
    }
}

/// A checksum of memory of unknown content, padding included.
fn bytes_sum(at: *const u8, n: usize) -> u64 {
    let mut h = n as u64;
    for i in 0..n {
        h = h.wrapping_mul(0x100_0000_01b3) ^ u64::from(unsafe { at.add(i).read_volatile() });
    }
    h
}

/// A receiver with an event at every stage. What was written is its own when the
/// emplacable has returned.
pub fn receive<T: ?Sized, F: EmplacableFn<T>>(e: Emplacable<T, F>, how: Recv) -> Option<Box<T>> {
    let mut got: Option<(BufGuard, <T as ptr::Pointee>::Metadata)> = None;
    let mut calls = 0;
    let mut sum = 0;
    let f = e.into_fn();
    let mut em = |layout: Layout,
                  meta: <T as ptr::Pointee>::Metadata,
                  inner: &mut dyn FnMut(*mut PhantomData<T>)| {
        calls += 1;
        cb(Cb::R0);
        match how {
            Recv::Ignore => {}
            Recv::Null => inner(ptr::null_mut()),
            Recv::Take => {
                let buf = if layout.size() == 0 {
                    layout.align() as *mut u8
                } else {
                    quiet(|| unsafe { std::alloc::alloc(layout) })
                };
                if buf.is_null() {
                    // The simulated machine has no room for it.
                    NO_ROOM.0.set(true);
                    inner(ptr::null_mut());
                    return;
                }
                let g = BufGuard(buf, layout);
                inner(buf.cast());
                sum = bytes_sum(buf, layout.size());
                got = Some((g, meta));
            }
        }
    };
    f(unsafe { Emplacer::from_fn(&mut em) });
    let got = got.and_then(|(g, meta)| {
        let BufGuard(buf, layout) = g;
        std::mem::forget(g);
        if bytes_sum(buf, layout.size()) != sum {
            alarm(Class::Content, p(10) | p(25), || {
                "an emplacable wrote to the space it was given after it had said it was done".into()
            });
        }
        let b: Box<T> = unsafe { Box::from_raw(ptr::from_raw_parts_mut(buf.cast::<()>(), meta)) };
        let real = Layout::for_value(&*b);
        if real != layout {
            std::mem::forget(b);
            alarm(Class::Content, p(9) | p(10) | p(25), || {
                format!("value announced as {layout:?} is {real:?}")
            });
            return None;
        }
        Some(b)
    });
    if calls != 1 {
        alarm(Class::Rule, p(9) | p(10) | p(25), || {
            format!("the emplacable called its receiver {calls} times")
        });
    }
    // The value was taken; unwinding now is the receiver's own affair.
    cb(Cb::R1);
    got
}

/// The harness's own receiver found no memory to receive the value in.
pub static NO_ROOM: crate::reg::Sh<std::cell::Cell<bool>> =
    crate::reg::Sh(std::cell::Cell::new(false));

// ---- destinations ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Way {
    Box,
    BoxPin,
    Rc,
    RcPin,
    RcFrom,
    Arc,
    ArcPin,
    ArcFrom,
    RecvTake,
    RecvNull,
    RecvIgnore,
    Drop,
    Forget,
    Leak,
    Special(u32),
    Push,
    Insert,
}

pub const WAYS: [Way; 14] = [
    Way::Box,
    Way::BoxPin,
    Way::Rc,
    Way::RcPin,
    Way::RcFrom,
    Way::Arc,
    Way::ArcPin,
    Way::ArcFrom,
    Way::RecvTake,
    Way::RecvNull,
    Way::RecvIgnore,
    Way::Drop,
    Way::Forget,
    Way::Leak,
];

impl Way {
    /// The value is given up without being dropped.
    pub fn forgets(self) -> bool {
        matches!(self, Way::RecvIgnore | Way::Forget | Way::Leak)
    }
    pub fn drops(self) -> bool {
        matches!(self, Way::Drop | Way::RecvNull)
    }
    pub fn stores(self) -> bool {
        matches!(self, Way::Push | Way::Insert)
    }
}

pub enum Held<T: ?Sized> {
    Nothing,
    Box(Box<T>),
    Rc(Rc<T>),
    Arc(Arc<T>),
}

impl<T: ?Sized> Held<T> {
    pub fn get(&self) -> Option<&T> {
        match self {
            Held::Nothing => None,
            Held::Box(x) => Some(x),
            Held::Rc(x) => Some(x),
            Held::Arc(x) => Some(x),
        }
    }
    /// How many others share it: none, when it has just arrived.
    pub fn others(&self) -> usize {
        match self {
            Held::Rc(x) => Rc::strong_count(x) - 1 + Rc::weak_count(x),
            Held::Arc(x) => Arc::strong_count(x) - 1 + Arc::weak_count(x),
            _ => 0,
        }
    }
    pub fn exact_block(&self) -> bool {
        matches!(self, Held::Box(_))
    }
}

pub struct AnyDest<'a, K: Kind> {
    pub way: Way,
    pub vec: Option<&'a mut UnsizedVec<K::T>>,
    pub idx: usize,
}

impl<K: Kind> Dest<K::T> for AnyDest<'_, K> {
    type Out = Held<K::T>;
    fn take<F: EmplacableFn<K::T>>(self, e: Emplacable<K::T, F>) -> Held<K::T> {
        match self.way {
            Way::Box => Held::Box(box_new_with(e)),
            Way::Drop => {
                drop(e);
                Held::Nothing
            }
            Way::Forget => {
                e.forget();
                Held::Nothing
            }
            Way::Leak => {
                std::mem::forget(e);
                Held::Nothing
            }
            Way::Push => {
                self.vec.unwrap().push_with(e);
                Held::Nothing
            }
            Way::Insert => {
                self.vec.unwrap().insert_with(self.idx, e);
                Held::Nothing
            }
            // One copy of the remaining destinations is enough for all producers.
            way => {
                let mut f = Some(e.into_fn());
                let mut g = |em: &mut Emplacer<'_, K::T>| (f.take().unwrap())(em);
                let g: &mut dyn FnMut(&mut Emplacer<'_, K::T>) = &mut g;
                rest::<K>(way, unsafe { Emplacable::from_fn(g) })
            }
        }
    }
}

type Erased<'a, T> = Emplacable<T, &'a mut dyn FnMut(&mut Emplacer<'_, T>)>;

fn rest<K: Kind>(way: Way, e: Erased<'_, K::T>) -> Held<K::T> {
    match way {
        Way::BoxPin => Held::Box(unsafe { Pin::into_inner_unchecked(box_pin_with(e)) }),
        Way::Rc => Held::Rc(rc_new_with(e)),
        Way::RcPin => Held::Rc(unsafe { Pin::into_inner_unchecked(rc_pin_with(e)) }),
        Way::RcFrom => Held::Rc(Rc::from(e)),
        Way::Arc => Held::Arc(arc_new_with(e)),
        Way::ArcPin => Held::Arc(unsafe { Pin::into_inner_unchecked(arc_pin_with(e)) }),
        Way::ArcFrom => Held::Arc(Arc::from(e)),
        Way::RecvTake => receive(e, Recv::Take).map_or(Held::Nothing, Held::Box),
        Way::RecvNull => receive(e, Recv::Null).map_or(Held::Nothing, Held::Box),
        Way::RecvIgnore => receive(e, Recv::Ignore).map_or(Held::Nothing, Held::Box),
        Way::Special(n) => K::special_dest(n, e),
        _ => unreachable!(),
    }
}

/// Ways to make a smart pointer from a value passed by value.
pub fn by_value<T: ?Sized>(which: u32, b: Box<T>) -> Held<T> {
    match which % 6 {
        0 => Held::Box(box_new(*b)),
        1 => Held::Box(unsafe { Pin::into_inner_unchecked(box_pin(*b)) }),
        2 => Held::Rc(rc_new(*b)),
        3 => Held::Rc(unsafe { Pin::into_inner_unchecked(rc_pin(*b)) }),
        4 => Held::Arc(arc_new(*b)),
        _ => Held::Arc(unsafe { Pin::into_inner_unchecked(arc_pin(*b)) }),
    }
}

/// `with_emplacable_for`, with events around the delivery.
pub fn lend<T: ?Sized + 'static, D: Dest<T>>(b: Box<T>, d: D) -> D::Out {
    let mut d = Some(d);
    with_emplacable_for(*b, |e| {
        cb(Cb::Lend);
        let r = d.take().unwrap().take(e);
        cb(Cb::Lend);
        r
    })
}
