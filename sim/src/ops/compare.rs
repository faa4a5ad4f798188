use super::*;
use crate::kinds::Key;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Records what a vector feeds to a hasher.
#[derive(Default)]
struct Fed(Vec<u8>);

impl Hasher for Fed {
    fn write(&mut self, b: &[u8]) {
        heap::off(|| self.0.extend_from_slice(b))
    }
    fn finish(&self) -> u64 {
        self.0.iter().fold(0, |h, &b| mix2(h, b as u64))
    }
}

/// Another vector that shows the same, or nearly, with another history.
fn twin<K: Kind>(v: &UnsizedVec<K::T>, change: bool, r: &mut Rng) -> UnsizedVec<K::T> {
    let mut items: Vec<Box<K::T>> = v.iter().map(K::dup).collect();
    let n = items.len();
    if change {
        match r.below(6) {
            0 => {
                items.pop();
            }
            1 if n > 0 => {
                items.remove(r.below(n));
            }
            2 if n > 1 => items.swap(r.below(n), n - 1),
            3 => items.insert(r.below(n + 1), K::make(r.u32())),
            4 if n > 0 => {
                K::mutate(&mut items[r.below(n)], r.u32());
            }
            _ => items.push(K::make(r.u32())),
        }
    }
    let mut t = match r.below(3) {
        0 => UnsizedVec::with_capacity_bytes_align(
            r.below(50),
            if K::SIZED { 0 } else { r.below(2000) },
            1 << r.below(8),
        ),
        1 => UnsizedVec::default(),
        _ => UnsizedVec::new(),
    };
    if r.chance(1, 3) {
        t.push(*K::make(r.u32()));
        drop(t.pop_into());
    }
    if r.chance(1, 2) {
        items.into_iter().for_each(|x| t.push(*x));
    } else {
        items.into_iter().rev().for_each(|x| t.insert(0, *x));
    }
    if r.chance(1, 3) {
        t.shrink_to_fit();
    }
    t
}

/// The list's answer to each question, and the vectors'.
fn ask<K: Kind>(which: u32, l: &UnsizedVec<K::T>, r: &UnsizedVec<K::T>) -> u64 {
    match which {
        0 => (l == r) as u64,
        1 => (l != r) as u64,
        2 => code(l.partial_cmp(r)),
        3 => code(Some(l.cmp(r))),
        4 => (l < r) as u64 | (l > r) as u64 * 2 | (l <= r) as u64 * 4 | (l >= r) as u64 * 8,
        _ => {
            let (mut a, mut b) = (Fed::default(), Fed::default());
            l.hash(&mut a);
            r.hash(&mut b);
            heap::off(|| {
                let same = a.0 == b.0;
                drop((a, b));
                same as u64
            })
        }
    }
}

fn ask_list<K: Kind>(which: u32, l: &[&K::T], r: &[&K::T]) -> u64 {
    match which {
        0 | 5 => (l == r) as u64,
        1 => (l != r) as u64,
        2 | 3 => code(Some(l.cmp(r))),
        _ => (l < r) as u64 | (l > r) as u64 * 2 | (l <= r) as u64 * 4 | (l >= r) as u64 * 8,
    }
}

fn code(o: Option<Ordering>) -> u64 {
    o.map_or(9, |o| (o as i8 + 1) as u64)
}

pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    let i = this.slot_of(op);
    let rng = &mut Rng::new(mix2(this.seed, op.a[2] as u64));
    let which = op.a[4] % 6;
    let names = ["==", "!=", "partial_cmp", "cmp", "<", "hash"];
    if op.a[3] % 6 == 5 {
        with_keys(this, i, which, op, rng, cx, ran, how);
        return;
    }
    let v: &UnsizedVec<K::T> = &this.slots[i].v;
    let made = match op.a[3] % 6 {
        4 => None,
        n => match calm(|| twin::<K>(v, n >= 2, rng)) {
            Ok(t) => Some(t),
            Err(e) => {
                return alarm(Class::Panic, 0, || {
                    format!("building a vector to compare with: {e:?}")
                })
            }
        },
    };
    let j = op.a[1] as usize % this.slots.len();
    let w: &UnsizedVec<K::T> = made.as_ref().unwrap_or(&this.slots[j].v);
    cx.note = format!(
        "{} of vector {i} and {}",
        names[which as usize],
        if made.is_some() { "a twin" } else { "another" }
    );
    let (l, r) = if op.a[5] % 2 == 0 { (v, w) } else { (w, v) };
    let want = calm(|| {
        let (a, b): (Vec<&K::T>, Vec<&K::T>) = (
            (0..l.len()).map(|i| &l[i]).collect(),
            (0..r.len()).map(|i| &r[i]).collect(),
        );
        ask_list::<K>(which, &a, &b)
    });
    let (got, rn) = run(&op.f, usize::MAX, 0, || ask::<K>(which, l, r));
    *ran = rn;
    *how = outcome(&got);
    check_end(&got, ran, &no_panics, &cx.note);
    match (got, want) {
        (Ok(g), Ok(w)) if g != w => alarm(Class::Rule, p(18), || {
            format!("{}: {g}, a list gives {w}", cx.note)
        }),
        (Ok(_), Ok(1)) if which == 5 => probe("equal vectors hashed"),
        (Ok(_), Ok(_)) => {}
        (Ok(_), Err(e)) => alarm(Class::Panic, 0, || format!("{}: {e:?}", cx.note)),
        (Err(_), _) => probe("comparison or hashing unwound"),
    }
    if let Some(t) = made {
        if alarmed() {
            std::mem::forget(t);
        } else {
            let _ = calm(move || drop(t));
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn with_keys<K: Kind>(
    this: &mut World<K>,
    i: usize,
    which: u32,
    op: &Op,
    rng: &mut Rng,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    let vals: Vec<u64> = this.slots[i].m.iter().map(|o| o.val).collect();
    let n = vals.len();
    let mut keys: Vec<Key> = vals.iter().map(|&val| Key { val, odd: false }).collect();
    for _ in 0..rng.below(3) {
        match rng.below(5) {
            0 => {
                keys.pop();
            }
            1 => keys.push(Key {
                val: rng.u32() as u64,
                odd: rng.chance(1, 3),
            }),
            x if !keys.is_empty() => {
                let k = rng.below(keys.len());
                match x {
                    2 => keys[k].val = keys[k].val.wrapping_add(1),
                    3 => keys[k].val = keys[k].val.wrapping_sub(1),
                    _ => keys[k].odd = true,
                }
            }
            _ => {}
        }
    }
    let eq = n == keys.len() && vals.iter().zip(&keys).all(|(v, k)| !k.odd && *v == k.val);
    let mut ord = Some(n.cmp(&keys.len()));
    for (v, k) in vals.iter().zip(&keys) {
        let o = (!k.odd).then(|| v.cmp(&k.val));
        if o != Some(Ordering::Equal) {
            ord = o;
            break;
        }
    }
    let ks: UnsizedVec<Key> = keys.clone().into();
    let v: &UnsizedVec<K::T> = &this.slots[i].v;
    cx.note = format!("comparing vector {i} with one of another type");
    let want = match which {
        0 => eq as u64,
        1 => !eq as u64,
        2 | 3 => code(ord),
        _ => {
            let is = |o: &[Ordering]| ord.is_some_and(|x| o.contains(&x)) as u64;
            use Ordering::*;
            is(&[Less]) | is(&[Greater]) * 2 | is(&[Less, Equal]) * 4 | is(&[Greater, Equal]) * 8
        }
    };
    let (got, rn) = run(&op.f, usize::MAX, 0, || match which {
        0 => (*v == ks) as u64,
        1 => (*v != ks) as u64,
        2 | 3 => code(v.partial_cmp(&ks)),
        _ => {
            (*v < ks) as u64 | (*v > ks) as u64 * 2 | (*v <= ks) as u64 * 4 | (*v >= ks) as u64 * 8
        }
    });
    *ran = rn;
    *how = outcome(&got);
    check_end(&got, ran, &no_panics, &cx.note);
    match got {
        Ok(g) if g != want => alarm(Class::Rule, p(18), || {
            format!("{} (question {which}): {g}, a list gives {want}", cx.note)
        }),
        Ok(_) => {
            if ord.is_none() {
                probe("compared with something in no order");
            }
        }
        Err(_) => probe("comparison or hashing unwound"),
    }
}
