//! The element types that simulated vectors hold, and what is special about each:
//! its sources, destinations, conversions and sinks.

use crate::emp::{producer, Dest};
use crate::heap::{self, quiet};
use crate::reg::{alarm, cb, expect, p, Cb, Class, Obs, Tok, ZTok};
use crate::rng::{mix, mix2};
use crate::world::{sut, AnyWorld, Unw};
use emplacable::*;
use serde::{Serialize, Serializer};
use std::cmp::Ordering;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::mem::{align_of_val, size_of_val};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use unsized_vec::{UnsizedIter, UnsizedVec};

// ---- sized element types ----

/// A sized value that can say what it is.
pub trait Obj: Dup {
    fn val(&self) -> u64;
    fn toks(&self, out: &mut Vec<u32>);
    fn z(&self) -> i64 {
        0
    }
    fn mutate(&mut self, x: u32) -> bool;
}

pub fn obs_of<T: Obj + ?Sized>(t: &T) -> Obs {
    heap::off(|| {
        let mut toks = Vec::new();
        t.toks(&mut toks);
        Obs {
            size: size_of_val(t),
            align: align_of_val(t),
            val: t.val(),
            toks,
            z: t.z(),
        }
    })
}

/// Copies a value of unknown type.
pub trait Dup {
    fn dup(&self) -> Box<dyn Obj>;
    fn dup_behind(&self, head: Tok, small: u16) -> Box<Tail<dyn Obj>>;
}
impl<S: Elem> Dup for S {
    fn dup(&self) -> Box<dyn Obj> {
        Box::new(self.clone())
    }
    fn dup_behind(&self, head: Tok, small: u16) -> Box<Tail<dyn Obj>> {
        Box::new(Tail {
            head,
            small,
            tail: self.clone(),
        })
    }
}
macro_rules! no_dup {
    ($([$($g:tt)*] $t:ty),*) => {$(
        impl<$($g)*> Dup for $t {
            fn dup(&self) -> Box<dyn Obj> {
                unreachable!()
            }
            fn dup_behind(&self, _: Tok, _: u16) -> Box<Tail<dyn Obj>> {
                unreachable!()
            }
        }
    )*};
}
no_dup!([X] [X], [X] Tail<[X]>, [] Tail<dyn Obj>);

pub trait Elem:
    Obj + Clone + Serialize + Debug + Ord + Hash + PartialOrd<Key> + Sized + 'static
{
    fn new(label: u32) -> Self;
    /// A second way to make an emplacable of this type.
    fn source<D: Dest<Self>>(label: u32, d: D) -> D::Out {
        let x = quiet(|| Self::new(label));
        expect(obs_of(&x), false);
        d.take(Emplacable::from(x))
    }
    /// Unsizes a whole vector to a vector of slices, if this is an array.
    fn to_slices(v: UnsizedVec<Self>) -> Result<Box<dyn AnyWorld>, UnsizedVec<Self>> {
        Err(v)
    }
    const IS_ARRAY: bool = false;
}

/// A number to compare elements with; odd ones are in no order.
#[derive(Clone, Copy)]
pub struct Key {
    pub val: u64,
    pub odd: bool,
}

/// Comparison and hashing by what a value shows; each call is an event.
macro_rules! ords {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                cb(Cb::Cmp);
                Obj::val(self) == Obj::val(o)
            }
        }
        impl<$($g)*> Eq for $t {}
        impl<$($g)*> PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                cb(Cb::Cmp);
                Some(Obj::val(self).cmp(&Obj::val(o)))
            }
        }
        impl<$($g)*> Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                cb(Cb::Cmp);
                Obj::val(self).cmp(&Obj::val(o))
            }
        }
        impl<$($g)*> Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                cb(Cb::Hash);
                h.write_u64(Obj::val(self))
            }
        }
    };
}

macro_rules! keyed {
    ([$($g:tt)*] $t:ty, |$x:ident| $val:expr) => {
        impl<$($g)*> PartialEq<Key> for $t {
            fn eq(&self, k: &Key) -> bool {
                cb(Cb::Cmp);
                let $x = self;
                !k.odd && $val == k.val
            }
        }
        impl<$($g)*> PartialOrd<Key> for $t {
            fn partial_cmp(&self, k: &Key) -> Option<Ordering> {
                cb(Cb::Cmp);
                let $x = self;
                (!k.odd).then(|| $val.cmp(&k.val))
            }
        }
    };
}
keyed!([] u8, |x| x.val());
keyed!([] u16, |x| x.val());
keyed!([] u32, |x| x.val());
keyed!([] u128, |x| x.val());
keyed!([X: Obj, const N: usize] [X; N], |x| x[..].val());
keyed!([X: Obj] [X], |x| x.val());
keyed!([] str, |x| St::obs(x).val);
keyed!([] CStr, |x| CS::obs(x).val);
keyed!([] OsStr, |x| OS::obs(x).val);
keyed!([] Path, |x| Pa::obs(x).val);

/// Shows a value, and everything that the formatter asks for.
fn fmt_val(f: &mut fmt::Formatter<'_>, val: u64) -> fmt::Result {
    if let Some(n) = f.width() {
        write!(f, "{n}.{:?}", f.precision())?;
    }
    write!(f, "v{val}{}", if f.sign_plus() { "+" } else { "" })
}

macro_rules! sinks {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_u64(Obj::val(self))
            }
        }
        impl<$($g)*> Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt_val(f, Obj::val(self))
            }
        }
        ords!([$($g)*] $t);
        keyed!([$($g)*] $t, |x| Obj::val(x));
    };
}

impl Obj for Tok {
    fn val(&self) -> u64 {
        self.read() as u64
    }
    fn toks(&self, out: &mut Vec<u32>) {
        out.push(self.id);
    }
    fn mutate(&mut self, x: u32) -> bool {
        self.relabel(x);
        true
    }
}
sinks!([] Tok);
impl Elem for Tok {
    fn new(label: u32) -> Self {
        Tok::new(label)
    }
}

impl Obj for ZTok {
    fn val(&self) -> u64 {
        7
    }
    fn toks(&self, _: &mut Vec<u32>) {}
    fn z(&self) -> i64 {
        1
    }
    fn mutate(&mut self, _: u32) -> bool {
        false
    }
}
sinks!([] ZTok);
impl Elem for ZTok {
    fn new(_: u32) -> Self {
        ZTok::new()
    }
}

/// Zero-sized and strictly aligned.
#[derive(Clone)]
#[repr(align(64))]
pub struct ZA(ZTok);

impl Obj for ZA {
    fn val(&self) -> u64 {
        if (self as *const ZA as usize) % 64 != 0 {
            alarm(Class::Align, 0, || {
                "a zero-sized value is misaligned".into()
            });
        }
        8
    }
    fn toks(&self, _: &mut Vec<u32>) {}
    fn z(&self) -> i64 {
        1
    }
    fn mutate(&mut self, _: u32) -> bool {
        false
    }
}
sinks!([] ZA);
impl Elem for ZA {
    fn new(_: u32) -> Self {
        ZA(ZTok::new())
    }
}

macro_rules! plain {
    ($($t:ty),*) => {$(
        impl Obj for $t {
            fn val(&self) -> u64 {
                mix2(*self as u64, ((*self as u128) >> 64) as u64)
            }
            fn toks(&self, _: &mut Vec<u32>) {}
            fn mutate(&mut self, x: u32) -> bool {
                *self = (*self ^ (mix(x as u64) as $t)).wrapping_add(1);
                true
            }
        }
        impl Elem for $t {
            fn new(label: u32) -> Self {
                let lo = mix(label as u64) as u128;
                (lo | (lo << 64)) as $t
            }
        }
    )*};
}
plain!(u8, u16, u32, u128);

/// Plain bytes of an odd size.
#[derive(Clone, Copy)]
pub struct Bytes<const N: usize>([u8; N]);

impl<const N: usize> Obj for Bytes<N> {
    fn val(&self) -> u64 {
        self.0.iter().fold(N as u64, |h, &b| mix2(h, b as u64))
    }
    fn toks(&self, _: &mut Vec<u32>) {}
    fn mutate(&mut self, x: u32) -> bool {
        self.0[x as usize % N] ^= 0x55;
        true
    }
}
sinks!([const N: usize] Bytes<N>);
impl<const N: usize> Elem for Bytes<N> {
    fn new(label: u32) -> Self {
        Bytes(std::array::from_fn(|i| mix2(label as u64, i as u64) as u8))
    }
}

#[derive(Clone, Copy)]
pub struct Pod12([u32; 3]);

impl Obj for Pod12 {
    fn val(&self) -> u64 {
        self.0.iter().fold(1, |h, &b| mix2(h, b as u64))
    }
    fn toks(&self, _: &mut Vec<u32>) {}
    fn mutate(&mut self, x: u32) -> bool {
        self.0[x as usize % 3] ^= 0x5555;
        true
    }
}
sinks!([] Pod12);
impl Elem for Pod12 {
    fn new(label: u32) -> Self {
        Pod12([label, !label, label ^ 0xabcd])
    }
}

macro_rules! aligns {
    ($($n:ident $a:literal),*) => {$(
        #[derive(Clone, Copy)]
        #[repr(align($a))]
        pub struct $n;
    )*};
}
aligns!(A1 1, A16 16, A32 32, A64 64, A128 128, A4096 4096);

/// A tracked value with a body of any size and alignment.
#[repr(C)]
pub struct Sh<const N: usize, A: 'static> {
    tok: Tok,
    body: [u8; N],
    _a: [A; 0],
}

impl<const N: usize, A> Sh<N, A> {
    fn fill(label: u32) -> [u8; N] {
        std::array::from_fn(|i| (mix(label as u64) >> (i % 8 * 7)) as u8 ^ i as u8)
    }
}

impl<const N: usize, A> Obj for Sh<N, A> {
    fn val(&self) -> u64 {
        let label = self.tok.read();
        if self.body != Self::fill(label) {
            alarm(Class::Content, 0, || {
                format!("the body of value {} is damaged", self.tok.id)
            });
        }
        mix2(label as u64, N as u64)
    }
    fn toks(&self, out: &mut Vec<u32>) {
        out.push(self.tok.id);
    }
    fn mutate(&mut self, x: u32) -> bool {
        self.tok.relabel(x);
        self.body = Self::fill(x);
        true
    }
}
sinks!([const N: usize, A: 'static] Sh<N, A>);
impl<const N: usize, A> Clone for Sh<N, A> {
    fn clone(&self) -> Self {
        Sh {
            tok: self.tok.clone(),
            body: self.body,
            _a: [],
        }
    }
}
impl<const N: usize, A> Elem for Sh<N, A> {
    fn new(label: u32) -> Self {
        Sh {
            tok: Tok::new(label),
            body: Self::fill(label),
            _a: [],
        }
    }
}
pub type Big64 = Sh<7, A64>;

impl<X: Obj, const N: usize> Obj for [X; N]
where
    [X; N]: Dup,
{
    fn val(&self) -> u64 {
        self[..].val()
    }
    fn toks(&self, out: &mut Vec<u32>) {
        self[..].toks(out)
    }
    fn z(&self) -> i64 {
        self[..].z()
    }
    fn mutate(&mut self, x: u32) -> bool {
        self[..].mutate(x)
    }
}

impl<X: Obj> Obj for [X] {
    fn val(&self) -> u64 {
        self.iter().fold(self.len() as u64, |h, x| mix2(h, x.val()))
    }
    fn toks(&self, out: &mut Vec<u32>) {
        self.iter().for_each(|x| x.toks(out))
    }
    fn z(&self) -> i64 {
        self.iter().map(Obj::z).sum()
    }
    fn mutate(&mut self, x: u32) -> bool {
        match self.len() {
            0 => false,
            n => self[x as usize % n].mutate(x),
        }
    }
}

macro_rules! array_elem {
    ($($n:literal),*) => {$(
        impl<X: Elem> Elem for [X; $n] where Sl<X>: Kind<T = [X]> {
            fn new(label: u32) -> Self {
                std::array::from_fn(|i| X::new(label.wrapping_add(i as u32 * 101)))
            }
            fn source<D: Dest<Self>>(label: u32, d: D) -> D::Out {
                let x: Self = quiet(|| Self::new(label));
                expect(obs_of(&x), false);
                if label % 3 == 0 {
                    d.take(Emplacable::from(x))
                } else {
                    let es = x.map(|y| producer(quiet(|| Box::new(y))));
                    d.take(es.into())
                }
            }
            fn to_slices(v: UnsizedVec<Self>) -> Result<Box<dyn AnyWorld>, UnsizedVec<Self>> {
                if std::mem::size_of::<X>() == 0 {
                    return Err(v);
                }
                Ok(crate::world::adopt::<Sl<X>>(v.unsize()))
            }
            const IS_ARRAY: bool = true;
        }
    )*};
}
array_elem!(2, 3, 4);

// ---- kinds ----

/// One element type of `UnsizedVec`.
pub trait Kind: Sized + 'static {
    type T: ?Sized + Serialize + Debug + Ord + Hash + PartialOrd<Key> + 'static;
    const NAME: &'static str;
    const SIZED: bool = false;
    /// The size of sized ones.
    const SIZE: usize = 0;
    /// The alignment is the same for all values.
    const ALIGN: Option<usize>;
    fn make(spec: u32) -> Box<Self::T>;
    /// Another value that shows the same.
    fn dup(t: &Self::T) -> Box<Self::T>;
    fn obs(t: &Self::T) -> Obs;
    fn mutate(t: &mut Self::T, x: u32) -> bool;
    /// Sources of emplacables beside boxes and custom producers.
    const NSRC: u32;
    fn source<D: Dest<Self::T>>(which: u32, spec: u32, d: D) -> D::Out;
    const NDEST: u32 = 0;
    fn special_dest<F: EmplacableFn<Self::T>>(
        _: u32,
        e: Emplacable<Self::T, F>,
    ) -> crate::emp::Held<Self::T> {
        crate::emp::Held::Box(box_new_with(e))
    }
    /// Inserts in a way only this kind has (`idx` none: pushes).
    fn special_insert(v: &mut UnsizedVec<Self::T>, spec: u32, idx: Option<usize>) {
        let b = quiet(|| Self::make(spec));
        expect(Self::obs(&b), false);
        match idx {
            None => v.push(*b),
            Some(i) => v.insert(i, *b),
        }
    }
    fn clone_vec(_: &UnsizedVec<Self::T>) -> Option<UnsizedVec<Self::T>> {
        None
    }
    /// To `Vec` and back, for sized kinds.
    fn through_std(v: UnsizedVec<Self::T>, _spare: usize) -> UnsizedVec<Self::T> {
        v
    }
    /// To a slice iterator and back, for sized kinds; elements at `left` are to come.
    fn iter_roundtrip<'a>(
        it: UnsizedIter<'a, Self::T>,
        _left: &[usize],
    ) -> UnsizedIter<'a, Self::T> {
        it
    }
    /// Unsizes the whole vector.
    fn unsize(
        v: UnsizedVec<Self::T>,
        _which: u32,
    ) -> Result<Box<dyn AnyWorld>, UnsizedVec<Self::T>> {
        Err(v)
    }
    /// Emplacable of a slice from an iterator of emplacables: `claim` announced,
    /// `actual` yielded.
    const FROM_ITER: bool = false;
    fn from_iter<D: Dest<Self::T>>(_spec: u32, _claim: usize, _actual: usize, _d: D) -> D::Out {
        unreachable!()
    }
    /// `Vec::extend` / `Vec::from_iter` with emplacables, for sized kinds.
    fn std_extend(
        _old: usize,
        _it: crate::ops::Yield<Self>,
    ) -> Option<(Vec<Box<Self::T>>, Option<Unw>)> {
        None
    }
    /// `unsized_vec!`, with emplacables and with values.
    fn macro_build(specs: [u32; 4]) -> UnsizedVec<Self::T> {
        let [a, b, c, d] = specs.map(|s| {
            let x = quiet(|| Self::make(s));
            expect(Self::obs(&x), false);
            x
        });
        if specs[0] % 5 == 0 {
            unsized_vec::unsized_vec![*a, *b, *c, *d,]
        } else {
            unsized_vec::unsized_vec![producer(a), Emplacable::from(b), *c, producer(d)]
        }
    }
    /// `unsize_vec!`, for kinds that something sized coerces to.
    fn macro_unsize(_specs: [u32; 4]) -> Option<UnsizedVec<Self::T>> {
        None
    }
}

/// A sized element type.
pub struct Sz<X>(X);

impl<X: Elem> Kind for Sz<X> {
    type T = X;
    const NAME: &'static str = "sized";
    const SIZED: bool = true;
    const SIZE: usize = std::mem::size_of::<X>();
    const ALIGN: Option<usize> = Some(std::mem::align_of::<X>());
    fn make(spec: u32) -> Box<X> {
        Box::new(X::new(spec))
    }
    fn dup(t: &X) -> Box<X> {
        Box::new(t.clone())
    }
    fn obs(t: &X) -> Obs {
        obs_of(t)
    }
    fn mutate(t: &mut X, x: u32) -> bool {
        t.mutate(x)
    }
    const NSRC: u32 = 2;
    fn source<D: Dest<X>>(which: u32, spec: u32, d: D) -> D::Out {
        if which == 0 {
            let x = quiet(|| X::new(spec));
            expect(obs_of(&x), false);
            d.take(x.into())
        } else {
            X::source(spec, d)
        }
    }
    const NDEST: u32 = 1;
    fn special_dest<F: EmplacableFn<X>>(_: u32, e: Emplacable<X, F>) -> crate::emp::Held<X> {
        let x = e.get();
        crate::emp::Held::Box(quiet(|| Box::new(x)))
    }
    fn clone_vec(v: &UnsizedVec<X>) -> Option<UnsizedVec<X>> {
        Some(v.clone())
    }
    fn through_std(v: UnsizedVec<X>, spare: usize) -> UnsizedVec<X> {
        let mut s: Vec<X> = v.into();
        if spare > 0 {
            quiet(|| s.reserve_exact(spare));
        }
        s.into()
    }
    fn iter_roundtrip<'a>(it: UnsizedIter<'a, X>, left: &[usize]) -> UnsizedIter<'a, X> {
        let s: std::slice::Iter<'a, X> = it.into();
        let rest = s.as_slice();
        if !rest
            .iter()
            .map(|x| x as *const X as usize)
            .eq(left.iter().copied())
        {
            alarm(Class::Content, p(12), || {
                format!(
                    "as a slice iterator it has {} elements to come, not the {} that are left",
                    rest.len(),
                    left.len()
                )
            });
        }
        s.into()
    }
    fn unsize(v: UnsizedVec<X>, which: u32) -> Result<Box<dyn AnyWorld>, UnsizedVec<X>> {
        if X::IS_ARRAY && which % 2 == 0 {
            return X::to_slices(v);
        }
        Ok(crate::world::adopt::<Dy>(v.unsize()))
    }
    fn std_extend(old: usize, it: crate::ops::Yield<Self>) -> Option<(Vec<Box<X>>, Option<Unw>)> {
        let mut v: Vec<X> = quiet(|| {
            let mut v = Vec::with_capacity(old);
            for i in 0..old {
                let x = X::new(i as u32);
                expect(obs_of(&x), false);
                v.push(x);
            }
            v
        });
        // Looked at even if this unwinds.
        let r = if old == 0 {
            sut(|| v = it.map(producer).collect())
        } else {
            sut(|| v.extend(it.map(producer)))
        };
        Some((quiet(|| v.drain(..).map(Box::new).collect()), r.err()))
    }
}

/// Slices.
pub struct Sl<X>(X);

fn slice_len(spec: u32) -> usize {
    if spec % 251 == 7 {
        return 60 + (spec >> 8) as usize % 200;
    }
    match spec % 16 {
        0 => 0,
        1..=4 => 1,
        5..=8 => 2,
        9..=11 => 3,
        12 | 13 => 5,
        14 => 9,
        _ => 20,
    }
}

fn make_vec<X: Elem>(spec: u32) -> Vec<X> {
    let mut n = slice_len(spec);
    if spec % 1999 == 7 && !std::mem::needs_drop::<X>() && size_of::<X>() > 0 {
        n = 66_000 / size_of::<X>();
    }
    let mut v = Vec::with_capacity(n + (spec >> 8) as usize % 4);
    for i in 0..n {
        v.push(X::new(spec ^ (i as u32) << 20));
    }
    v
}

macro_rules! slice_kind {
    ($($x:ty, $name:literal, $extra:ident;)*) => {$(
        impl Kind for Sl<$x> {
            type T = [$x];
            const NAME: &'static str = $name;
            const ALIGN: Option<usize> = Some(std::mem::align_of::<$x>());
            fn make(spec: u32) -> Box<[$x]> {
                make_vec::<$x>(spec).into_boxed_slice()
            }
            fn dup(t: &[$x]) -> Box<[$x]> {
                t.to_vec().into_boxed_slice()
            }
            fn obs(t: &[$x]) -> Obs {
                obs_of(t)
            }
            fn mutate(t: &mut [$x], x: u32) -> bool {
                t.mutate(x)
            }
            const NSRC: u32 = 7;
            fn source<D: Dest<[$x]>>(which: u32, spec: u32, d: D) -> D::Out {
                match which {
                    0 => {
                        let v = quiet(|| make_vec::<$x>(spec));
                        expect(obs_of(&v[..]), false);
                        d.take(v.into())
                    }
                    1 => {
                        let v = quiet(|| make_vec::<$x>(spec));
                        expect(obs_of(&v[..]), true);
                        let r = d.take(Emplacable::from(&v[..]));
                        quiet(|| drop(v));
                        r
                    }
                    2 => {
                        let a: [$x; 3] = quiet(|| Elem::new(spec));
                        expect(obs_of(&a), false);
                        d.take(Emplacable::<[$x; 3], _>::from(a).into())
                    }
                    3 => {
                        let a: [$x; 2] = quiet(|| Elem::new(spec));
                        expect(obs_of(&a), false);
                        d.take(a.map(|y| producer(quiet(|| Box::new(y)))).into())
                    }
                    4 => {
                        let a: Box<[$x; 3]> = quiet(|| Box::new(Elem::new(spec)));
                        expect(obs_of(&*a), false);
                        d.take(producer(a).unsize())
                    }
                    5 => {
                        let n = slice_len(spec);
                        <Self as Kind>::from_iter(spec, n, n, d)
                    }
                    _ => $extra::<$x, D>(spec, d),
                }
            }
            const NDEST: u32 = 2;
            fn special_dest<F: EmplacableFn<[$x]>>(n: u32, e: Emplacable<[$x], F>) -> crate::emp::Held<[$x]> {
                let v: Vec<$x> = if n == 0 { e.into_vec() } else { Vec::from(e) };
                crate::emp::Held::Box(quiet(|| v.into_boxed_slice()))
            }
            fn special_insert(v: &mut UnsizedVec<[$x]>, spec: u32, idx: Option<usize>) {
                if spec % 3 == 0 {
                    let a: [$x; 2] = quiet(|| Elem::new(spec));
                    expect(obs_of(&a), false);
                    match idx {
                        None => v.push_unsize(a),
                        Some(i) => v.insert_unsize(i, a),
                    }
                } else {
                    let a: [$x; 3] = quiet(|| Elem::new(spec));
                    expect(obs_of(&a), false);
                    match idx {
                        None => v.push_unsize(a),
                        Some(i) => v.insert_unsize(i, a),
                    }
                }
            }
            const FROM_ITER: bool = true;
            fn from_iter<D: Dest<[$x]>>(spec: u32, claim: usize, actual: usize, d: D) -> D::Out {
                let it = crate::ops::Yield::<Sz<$x>>::new(spec, claim, actual);
                d.take(Emplacable::from_iter(it.map(producer)))
            }
            fn macro_unsize(specs: [u32; 4]) -> Option<UnsizedVec<[$x]>> {
                let a: [$x; 2] = quiet(|| Elem::new(specs[0]));
                expect(obs_of(&a), false);
                let b: [$x; 3] = quiet(|| Elem::new(specs[1]));
                expect(obs_of(&b), false);
                Some(unsized_vec::unsize_vec![a, b])
            }
        }
    )*};
}

fn no_extra<X: Elem, D: Dest<[X]>>(spec: u32, d: D) -> D::Out {
    let b: Box<[X]> = quiet(|| make_vec::<X>(spec).into_boxed_slice());
    expect(obs_of(&*b), false);
    d.take(b.into())
}

fn str_bytes<X, D: Dest<[u8]>>(spec: u32, d: D) -> D::Out {
    let s = quiet(|| make_str(spec).into_boxed_str());
    expect(obs_of(s.as_bytes()), false);
    let e: Emplacable<str, _> = producer(s);
    d.take(e.into())
}

slice_kind! {
    Tok, "[Tok]", no_extra;
    u8, "[u8]", str_bytes;
    u16, "[u16]", no_extra;
    u128, "[u128]", no_extra;
    Pod12, "[Pod12]", no_extra;
    Big64, "[Big64]", no_extra;
    [Tok; 2], "[[Tok;2]]", no_extra;
}

// Zero-sized elements only as an intermediate type of arrays (never unsized to slices).
impl Kind for Sl<ZTok> {
    type T = [ZTok];
    const NAME: &'static str = "[ZTok]";
    const ALIGN: Option<usize> = Some(1);
    fn make(spec: u32) -> Box<[ZTok]> {
        make_vec::<ZTok>(spec).into_boxed_slice()
    }
    fn dup(t: &[ZTok]) -> Box<[ZTok]> {
        t.to_vec().into_boxed_slice()
    }
    fn obs(t: &[ZTok]) -> Obs {
        obs_of(t)
    }
    fn mutate(_: &mut [ZTok], _: u32) -> bool {
        false
    }
    const NSRC: u32 = 1;
    fn source<D: Dest<[ZTok]>>(_: u32, spec: u32, d: D) -> D::Out {
        no_extra(spec, d)
    }
}

// ---- strings ----

fn make_str(spec: u32) -> String {
    let n = match spec % 8 {
        0 => 0,
        1..=3 => 1 + (spec >> 8) as usize % 3,
        4..=6 => 4 + (spec >> 8) as usize % 20,
        _ if spec % 499 == 7 => 60_000 + (spec >> 8) as usize % 12_000,
        _ if spec % 29 == 0 => 500 + (spec >> 8) as usize % 4000,
        _ => 40 + (spec >> 8) as usize % 80,
    };
    let mut s = String::with_capacity(n + 4);
    for i in 0..n {
        let x = mix2(spec as u64, i as u64);
        if x % 11 == 0 && n > 3 {
            s.push(if x % 2 == 0 { 'é' } else { '日' });
        } else {
            s.push((b'a' + (x >> 8) as u8 % 26) as char);
        }
    }
    s
}

fn bytes_obs(b: &[u8], align: usize) -> Obs {
    Obs {
        size: b.len(),
        align,
        val: b.val(),
        toks: Vec::new(),
        z: 0,
    }
}

pub struct St;
impl Kind for St {
    type T = str;
    const NAME: &'static str = "str";
    const ALIGN: Option<usize> = Some(1);
    fn make(spec: u32) -> Box<str> {
        make_str(spec).into_boxed_str()
    }
    fn dup(t: &str) -> Box<str> {
        t.into()
    }
    fn obs(t: &str) -> Obs {
        if std::str::from_utf8(t.as_bytes()).is_err() {
            alarm(Class::Content, 0, || "a string is not UTF-8".into());
        }
        bytes_obs(t.as_bytes(), 1)
    }
    fn mutate(t: &mut str, x: u32) -> bool {
        let b = unsafe { t.as_bytes_mut() };
        match b.iter_mut().find(|b| b.is_ascii()) {
            Some(b) => {
                let new = b'A' + (x % 26) as u8;
                *b = if *b == new { b'0' } else { new };
                true
            }
            None => false,
        }
    }
    const NSRC: u32 = 2;
    fn source<D: Dest<str>>(which: u32, spec: u32, d: D) -> D::Out {
        let s = quiet(|| make_str(spec));
        expect(Self::obs(&s), false);
        if which == 0 {
            let r = d.take(s.as_str().into());
            quiet(|| drop(s));
            r
        } else {
            let b = quiet(|| s.into_boxed_str());
            d.take(b.into())
        }
    }
    const NDEST: u32 = 2;
    fn special_dest<F: EmplacableFn<str>>(n: u32, e: Emplacable<str, F>) -> crate::emp::Held<str> {
        let s: String = if n == 0 {
            e.into_string()
        } else {
            String::from(e)
        };
        crate::emp::Held::Box(quiet(|| s.into_boxed_str()))
    }
    fn special_insert(v: &mut UnsizedVec<str>, spec: u32, idx: Option<usize>) {
        macro_rules! lit {
            ($s:literal) => {{
                expect(Self::obs($s), false);
                match idx {
                    None => v.push(by_value_str!($s)),
                    Some(i) => v.insert(i, by_value_str!($s)),
                }
            }};
        }
        match spec % 4 {
            0 => lit!(""),
            1 => lit!("x"),
            2 => lit!("hello, world"),
            _ => lit!("日本語 and a longer one that has more than forty bytes"),
        }
    }
}

fn cbytes(spec: u32) -> CString {
    let s = make_str(spec);
    CString::new(s).unwrap()
}

pub struct CS;
impl Kind for CS {
    type T = CStr;
    const NAME: &'static str = "CStr";
    const ALIGN: Option<usize> = Some(1);
    fn make(spec: u32) -> Box<CStr> {
        cbytes(spec).into_boxed_c_str()
    }
    fn dup(t: &CStr) -> Box<CStr> {
        t.into()
    }
    fn obs(t: &CStr) -> Obs {
        let b = t.to_bytes_with_nul();
        if b.last() != Some(&0) || b[..b.len() - 1].contains(&0) {
            alarm(Class::Content, 0, || {
                "a C string is not terminated by its only NUL".into()
            });
        }
        let mut o = bytes_obs(b, 1);
        o.size = size_of_val(t);
        o.align = align_of_val(t);
        o
    }
    fn mutate(_: &mut CStr, _: u32) -> bool {
        false
    }
    const NSRC: u32 = 1;
    fn source<D: Dest<CStr>>(_: u32, spec: u32, d: D) -> D::Out {
        let s = quiet(|| cbytes(spec));
        expect(Self::obs(&s), false);
        let r = d.take(s.as_c_str().into());
        quiet(|| drop(s));
        r
    }
    const NDEST: u32 = 1;
    fn special_dest<F: EmplacableFn<CStr>>(
        _: u32,
        e: Emplacable<CStr, F>,
    ) -> crate::emp::Held<CStr> {
        let s: CString = e.into();
        crate::emp::Held::Box(quiet(|| s.into_boxed_c_str()))
    }
}

pub struct OS;
impl Kind for OS {
    type T = OsStr;
    const NAME: &'static str = "OsStr";
    const ALIGN: Option<usize> = None;
    fn make(spec: u32) -> Box<OsStr> {
        OsString::from(make_str(spec)).into_boxed_os_str()
    }
    fn dup(t: &OsStr) -> Box<OsStr> {
        t.into()
    }
    fn obs(t: &OsStr) -> Obs {
        bytes_obs(t.as_bytes(), align_of_val(t))
    }
    fn mutate(_: &mut OsStr, _: u32) -> bool {
        false
    }
    const NSRC: u32 = 1;
    fn source<D: Dest<OsStr>>(_: u32, spec: u32, d: D) -> D::Out {
        let s = quiet(|| OsString::from(make_str(spec)));
        expect(Self::obs(&s), false);
        let r = d.take(s.as_os_str().into());
        quiet(|| drop(s));
        r
    }
    const NDEST: u32 = 1;
    fn special_dest<F: EmplacableFn<OsStr>>(
        _: u32,
        e: Emplacable<OsStr, F>,
    ) -> crate::emp::Held<OsStr> {
        let s: OsString = e.into();
        crate::emp::Held::Box(quiet(|| s.into_boxed_os_str()))
    }
}

pub struct Pa;
impl Kind for Pa {
    type T = Path;
    const NAME: &'static str = "Path";
    const ALIGN: Option<usize> = None;
    fn make(spec: u32) -> Box<Path> {
        PathBuf::from(make_str(spec)).into_boxed_path()
    }
    fn dup(t: &Path) -> Box<Path> {
        t.into()
    }
    fn obs(t: &Path) -> Obs {
        bytes_obs(t.as_os_str().as_bytes(), align_of_val(t))
    }
    fn mutate(_: &mut Path, _: u32) -> bool {
        false
    }
    const NSRC: u32 = 1;
    fn source<D: Dest<Path>>(_: u32, spec: u32, d: D) -> D::Out {
        let s = quiet(|| PathBuf::from(make_str(spec)));
        expect(Self::obs(&s), false);
        let r = d.take(s.as_path().into());
        quiet(|| drop(s));
        r
    }
    const NDEST: u32 = 1;
    fn special_dest<F: EmplacableFn<Path>>(
        _: u32,
        e: Emplacable<Path, F>,
    ) -> crate::emp::Held<Path> {
        let s: PathBuf = e.into();
        crate::emp::Held::Box(quiet(|| s.into_boxed_path()))
    }
}

// ---- trait objects ----

impl Serialize for dyn Obj {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(self.val())
    }
}
impl Debug for dyn Obj {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt_val(f, self.val())
    }
}
ords!([] dyn Obj);
keyed!([] dyn Obj, |x| x.val());

/// What to do with a value of one of the concrete types behind `dyn Obj`.
trait OnShape {
    type Out;
    fn go<S: Elem>(self, s: S) -> Self::Out;
}

pub const SHAPES: u32 = 20;

fn with_shape<V: OnShape>(spec: u32, v: V) -> V::Out {
    macro_rules! new {
        ($t:ty) => {
            v.go(quiet(|| <$t as Elem>::new(spec >> 8)))
        };
    }
    match (spec & 0xff) % SHAPES {
        0 => new!(ZTok),
        1 => new!(ZA),
        2 => new!(u8),
        3 => new!(u16),
        4 => new!(Bytes<3>),
        5 => new!(Pod12),
        6 => new!(Tok),
        7 => new!(Sh<1, A1>),
        8 => new!(Sh<40, A1>),
        9 => new!(Sh<0, A16>),
        10 => new!(Sh<20, A16>),
        11 => new!(Sh<0, A32>),
        12 => new!(Big64),
        13 => new!(Sh<100, A128>),
        14 => new!(Sh<5, A4096>),
        15 => new!(Sh<1000, A1>),
        16 => new!(u128),
        17 => new!(Bytes<5>),
        18 => new!(Sh<50, A64>),
        _ => new!([Tok; 3]),
    }
}

struct Boxed;
impl OnShape for Boxed {
    type Out = Box<dyn Obj>;
    fn go<S: Elem>(self, s: S) -> Box<dyn Obj> {
        quiet(|| Box::new(s))
    }
}

struct Unsized<D>(D);
impl<D: Dest<dyn Obj>> OnShape for Unsized<D> {
    type Out = D::Out;
    fn go<S: Elem>(self, s: S) -> D::Out {
        expect(obs_of(&s), false);
        let e: Emplacable<S, _> = s.into();
        self.0.take(e.unsize::<dyn Obj>())
    }
}

struct UnsizedProd<D>(D);
impl<D: Dest<dyn Obj>> OnShape for UnsizedProd<D> {
    type Out = D::Out;
    fn go<S: Elem>(self, s: S) -> D::Out {
        expect(obs_of(&s), false);
        self.0
            .take(producer(quiet(|| Box::new(s))).unsize::<dyn Obj>())
    }
}

struct InsertUnsize<'a>(&'a mut UnsizedVec<dyn Obj>, Option<usize>);
impl OnShape for InsertUnsize<'_> {
    type Out = ();
    fn go<S: Elem>(self, s: S) {
        expect(obs_of(&s), false);
        match self.1 {
            None => self.0.push_unsize(s),
            Some(i) => self.0.insert_unsize(i, s),
        }
    }
}

pub struct Dy;
impl Kind for Dy {
    type T = dyn Obj;
    const NAME: &'static str = "dyn";
    const ALIGN: Option<usize> = None;
    fn make(spec: u32) -> Box<dyn Obj> {
        with_shape(spec, Boxed)
    }
    fn dup(t: &(dyn Obj + 'static)) -> Box<dyn Obj> {
        t.dup()
    }
    fn obs(t: &dyn Obj) -> Obs {
        obs_of(t)
    }
    fn mutate(t: &mut (dyn Obj + 'static), x: u32) -> bool {
        t.mutate(x)
    }
    const NSRC: u32 = 2;
    fn source<D: Dest<dyn Obj>>(which: u32, spec: u32, d: D) -> D::Out {
        if which == 0 {
            with_shape(spec, Unsized(d))
        } else {
            with_shape(spec, UnsizedProd(d))
        }
    }
    fn special_insert(v: &mut UnsizedVec<dyn Obj>, spec: u32, idx: Option<usize>) {
        with_shape(spec, InsertUnsize(v, idx))
    }
    fn macro_unsize(s: [u32; 4]) -> Option<UnsizedVec<dyn Obj>> {
        let a = quiet(|| Tok::new(s[0]));
        let b = quiet(|| Big64::new(s[1]));
        let c = quiet(|| Bytes::<3>::new(s[2]));
        expect(obs_of(&a), false);
        expect(obs_of(&b), false);
        expect(obs_of(&c), false);
        Some(unsized_vec::unsize_vec![a, b, c])
    }
}

// ---- a custom dynamically sized type ----

#[repr(C)]
pub struct Tail<X: ?Sized> {
    head: Tok,
    small: u16,
    tail: X,
}

impl<X: Obj + ?Sized> Obj for Tail<X>
where
    Tail<X>: Dup,
{
    fn val(&self) -> u64 {
        let l = self.head.read();
        if self.small != l as u16 {
            alarm(Class::Content, 0, || {
                format!("the head of value {} is damaged", self.head.id)
            });
        }
        mix2(l as u64, self.tail.val())
    }
    fn toks(&self, out: &mut Vec<u32>) {
        out.push(self.head.id);
        self.tail.toks(out);
    }
    fn z(&self) -> i64 {
        self.tail.z()
    }
    fn mutate(&mut self, x: u32) -> bool {
        self.head.relabel(x);
        self.small = x as u16;
        self.tail.mutate(x.wrapping_add(1));
        true
    }
}
impl<X: Elem, const N: usize> Clone for Tail<[X; N]> {
    fn clone(&self) -> Self {
        Tail {
            head: self.head.clone(),
            small: self.small,
            tail: self.tail.clone(),
        }
    }
}
sinks!([X: Obj] Tail<[X]>);
sinks!([] Tail<dyn Obj>);

fn tail<X: Elem, const N: usize>(spec: u32) -> Tail<[X; N]> {
    Tail {
        head: Tok::new(spec),
        small: spec as u16,
        tail: std::array::from_fn(|i| X::new(spec.wrapping_add(i as u32))),
    }
}

/// Values with a header and a slice tail.
pub struct Ta<X>(X);

macro_rules! tail_kind {
    ($($x:ty, $name:literal;)*) => {$(
        impl Kind for Ta<$x> {
            type T = Tail<[$x]>;
            const NAME: &'static str = $name;
            const ALIGN: Option<usize> = None;
            fn make(spec: u32) -> Box<Self::T> {
                match spec % 5 {
                    0 => Box::new(tail::<$x, 0>(spec)),
                    1 => Box::new(tail::<$x, 1>(spec)),
                    2 => Box::new(tail::<$x, 2>(spec)),
                    3 => Box::new(tail::<$x, 5>(spec)),
                    _ => Box::new(tail::<$x, 11>(spec)),
                }
            }
            fn dup(t: &Self::T) -> Box<Self::T> {
                fn of<const N: usize>(t: &Tail<[$x]>) -> Box<Tail<[$x; N]>> {
                    Box::new(Tail {
                        head: t.head.clone(),
                        small: t.small,
                        tail: std::array::from_fn(|i| t.tail[i].clone()),
                    })
                }
                match t.tail.len() {
                    0 => of::<0>(t),
                    1 => of::<1>(t),
                    2 => of::<2>(t),
                    3 => of::<3>(t),
                    4 => of::<4>(t),
                    5 => of::<5>(t),
                    _ => of::<11>(t),
                }
            }
            fn obs(t: &Self::T) -> Obs {
                obs_of(t)
            }
            fn mutate(t: &mut Self::T, x: u32) -> bool {
                t.mutate(x)
            }
            const NSRC: u32 = 2;
            fn source<D: Dest<Self::T>>(which: u32, spec: u32, d: D) -> D::Out {
                let t = quiet(|| tail::<$x, 3>(spec));
                expect(obs_of::<Tail<[$x]>>(&t), false);
                if which == 0 {
                    d.take(Emplacable::<Tail<[$x; 3]>, _>::from(t).unsize())
                } else {
                    d.take(producer(quiet(|| Box::new(t))).unsize())
                }
            }
            fn special_insert(v: &mut UnsizedVec<Self::T>, spec: u32, idx: Option<usize>) {
                let t = quiet(|| tail::<$x, 4>(spec));
                expect(obs_of::<Tail<[$x]>>(&t), false);
                match idx {
                    None => v.push_unsize(t),
                    Some(i) => v.insert_unsize(i, t),
                }
            }
        }
    )*};
}
tail_kind! {
    u8, "Tail<[u8]>";
    Tok, "Tail<[Tok]>";
}

// Sized, but a whole vector of them unsizes to values of changing size and alignment.
macro_rules! tail_elem {
    ($($x:ty, $n:literal;)*) => {$(
        sinks!([] Tail<[$x; $n]>);
        impl Elem for Tail<[$x; $n]> {
            fn new(label: u32) -> Self {
                tail(label)
            }
            fn to_slices(v: UnsizedVec<Self>) -> Result<Box<dyn AnyWorld>, UnsizedVec<Self>> {
                Ok(crate::world::adopt::<Ta<$x>>(v.unsize()))
            }
            const IS_ARRAY: bool = true;
        }
    )*};
}
tail_elem! {
    Tok, 3;
    u8, 3;
}

struct BoxedBehind(u32);
impl OnShape for BoxedBehind {
    type Out = Box<Tail<dyn Obj>>;
    fn go<S: Elem>(self, s: S) -> Self::Out {
        quiet(|| {
            Box::new(Tail {
                head: Tok::new(self.0),
                small: self.0 as u16,
                tail: s,
            })
        })
    }
}

fn behind<S: Elem>(head: u32, s: S) -> Tail<S> {
    let t = quiet(|| Tail {
        head: Tok::new(head),
        small: head as u16,
        tail: s,
    });
    let u: &Tail<dyn Obj> = &t;
    expect(obs_of(u), false);
    t
}

struct UnsizedBehind<D>(u32, bool, D);
impl<D: Dest<Tail<dyn Obj>>> OnShape for UnsizedBehind<D> {
    type Out = D::Out;
    fn go<S: Elem>(self, s: S) -> D::Out {
        let t = behind(self.0, s);
        if self.1 {
            self.2.take(Emplacable::<Tail<S>, _>::from(t).unsize())
        } else {
            self.2.take(producer(quiet(|| Box::new(t))).unsize())
        }
    }
}

struct InsertBehind<'a>(u32, &'a mut UnsizedVec<Tail<dyn Obj>>, Option<usize>);
impl OnShape for InsertBehind<'_> {
    type Out = ();
    fn go<S: Elem>(self, s: S) {
        let t = behind(self.0, s);
        match self.2 {
            None => self.1.push_unsize(t),
            Some(i) => self.1.insert_unsize(i, t),
        }
    }
}

/// Values with a header and a trait object as tail, whose place depends on its alignment.
pub struct TD;
impl Kind for TD {
    type T = Tail<dyn Obj>;
    const NAME: &'static str = "Tail<dyn>";
    const ALIGN: Option<usize> = None;
    fn make(spec: u32) -> Box<Self::T> {
        with_shape(spec, BoxedBehind(spec ^ 0x777))
    }
    fn dup(t: &Self::T) -> Box<Self::T> {
        t.tail.dup_behind(t.head.clone(), t.small)
    }
    fn obs(t: &Self::T) -> Obs {
        obs_of(t)
    }
    fn mutate(t: &mut Self::T, x: u32) -> bool {
        t.mutate(x)
    }
    const NSRC: u32 = 2;
    fn source<D: Dest<Self::T>>(which: u32, spec: u32, d: D) -> D::Out {
        with_shape(spec, UnsizedBehind(spec ^ 0x999, which == 0, d))
    }
    fn special_insert(v: &mut UnsizedVec<Self::T>, spec: u32, idx: Option<usize>) {
        with_shape(spec, InsertBehind(spec ^ 0xbbb, v, idx))
    }
}

/// Calls `$m!(kind, name)` for each kind.
#[macro_export]
macro_rules! all_kinds {
    ($m:ident) => {
        $m! {
            0 => $crate::kinds::Dy, "dyn";
            1 => $crate::kinds::Sl<$crate::reg::Tok>, "[Tok]";
            2 => $crate::kinds::Sz<$crate::reg::Tok>, "Tok";
            3 => $crate::kinds::St, "str";
            4 => $crate::kinds::Sl<u8>, "[u8]";
            5 => $crate::kinds::Sl<u128>, "[u128]";
            6 => $crate::kinds::Ta<u8>, "Tail<[u8]>";
            7 => $crate::kinds::Ta<$crate::reg::Tok>, "Tail<[Tok]>";
            8 => $crate::kinds::CS, "CStr";
            9 => $crate::kinds::OS, "OsStr";
            10 => $crate::kinds::Sz<$crate::reg::ZTok>, "ZTok";
            11 => $crate::kinds::Sz<$crate::kinds::Big64>, "Big64";
            12 => $crate::kinds::Sz<[$crate::reg::Tok; 3]>, "[Tok;3]";
            13 => $crate::kinds::Sz<$crate::kinds::Pod12>, "Pod12";
            14 => $crate::kinds::Sl<u16>, "[u16]";
            15 => $crate::kinds::Sl<$crate::kinds::Big64>, "[Big64]";
            16 => $crate::kinds::Pa, "Path";
            17 => $crate::kinds::Sl<$crate::kinds::Pod12>, "[Pod12]";
            18 => $crate::kinds::Sz<[u16; 3]>, "[u16;3]";
            19 => $crate::kinds::Sz<$crate::kinds::ZA>, "ZA";
            20 => $crate::kinds::Sz<[$crate::kinds::Pod12; 2]>, "[Pod12;2]";
            21 => $crate::kinds::TD, "Tail<dyn>";
            22 => $crate::kinds::Sl<[$crate::reg::Tok; 2]>, "[[Tok;2]]";
            23 => $crate::kinds::Sz<u8>, "u8";
            24 => $crate::kinds::Sz<$crate::kinds::Tail<[$crate::reg::Tok; 3]>>, "Tail<[Tok;3]>";
            25 => $crate::kinds::Sz<$crate::kinds::Tail<[u8; 3]>>, "Tail<[u8;3]>";
        }
    };
}
pub const KINDS: u32 = 26;
