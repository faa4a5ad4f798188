//! Vectors that caller code uses for itself, while an operation on another vector is
//! calling it back: nothing of the one may show in the other.

use crate::heap::quiet;
use crate::reg::{alarm, p, Class};
use crate::rng::Rng;
use emplacable::*;
use std::fmt::Debug;
use unsized_vec::UnsizedVec;

#[derive(Debug, Clone, Copy)]
#[repr(align(32))]
struct Wide(#[allow(dead_code)] u8);

fn show(v: &UnsizedVec<dyn Debug>) -> Vec<String> {
    v.iter().map(|x| format!("{x:?}")).collect()
}

fn objects(r: &mut Rng) -> bool {
    let mut v: UnsizedVec<dyn Debug> = UnsizedVec::new();
    let mut m: Vec<String> = Vec::new();
    for i in 0..3 + r.below(5) {
        let at = r.below(m.len() + 1);
        let n = (i * 37 + 11) as u64;
        match r.below(5) {
            0 => v.insert_unsize(at, n as u8),
            1 => v.insert_unsize(at, n),
            2 => v.insert_unsize(at, Wide(n as u8)),
            3 => v.insert_with(at, unsize_vec_item([n, n + 1, n + 2])),
            _ => {
                let b: Box<dyn Debug> = Box::new(n as u16);
                v.insert(at, *b);
            }
        }
        m.insert(at, format!("{:?}", &v[at]));
        if r.chance(1, 3) {
            let at = r.below(m.len());
            let gone = box_new_with(v.remove_into(at));
            if format!("{gone:?}") != m.remove(at) {
                return false;
            }
        }
        if r.chance(1, 6) {
            v.shrink_to_fit();
        }
    }
    show(&v) == m
}

fn unsize_vec_item<const N: usize>(
    a: [u64; N],
) -> Emplacable<dyn Debug, impl EmplacableFn<dyn Debug>> {
    let b: Box<dyn Debug> = Box::new(a);
    Emplacable::from(b)
}

fn slices(r: &mut Rng) -> bool {
    let mut v: UnsizedVec<[u32]> = UnsizedVec::new();
    let mut m: Vec<Vec<u32>> = Vec::new();
    for i in 0..2 + r.below(5) as u32 {
        let at = r.below(m.len() + 1);
        let x: Vec<u32> = (0..r.below(6) as u32).map(|k| i * 100 + k).collect();
        m.insert(at, x.clone());
        match r.below(3) {
            0 => v.insert_with(at, Emplacable::from(x)),
            1 => v.insert_with(at, Emplacable::from(&*x)),
            _ => v.insert(at, *x.into_boxed_slice()),
        }
    }
    if v.len() != m.len() || !v.iter().eq(m.iter().map(|x| &**x)) {
        return false;
    }
    if let Some(x) = v.pop_into() {
        let x: Vec<u32> = x.into();
        if Some(x) != m.last().cloned() {
            return false;
        }
    }
    v.iter().rev().eq(m.iter().rev().skip(1).map(|x| &**x))
}

fn plain(r: &mut Rng) -> bool {
    let n = 1 + r.below(9) as u64;
    let mut v: UnsizedVec<u64> = UnsizedVec::new();
    v.extend((0..n).map(|x| Emplacable::from(Box::new(x * x))));
    v.insert(r.below(n as usize), 1000);
    let s: u64 = v.clone().iter().sum();
    let u: UnsizedVec<dyn Debug> = v.unsize();
    s == 1000 + (0..n).map(|x| x * x).sum::<u64>() && u.len() as u64 == n + 1
}

/// Uses vectors for a while.
pub fn go(seed: u64) {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let ok = quiet(|| match r.below(3) {
        0 => objects(r),
        1 => slices(r),
        _ => plain(r),
    });
    if !ok {
        alarm(Class::Content, p(1), || {
            "a vector used within a callback lost something".into()
        });
    }
}
