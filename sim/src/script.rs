//! Scripts of calls on one iterator, against a window onto the list.

use crate::reg::{alarm, alarmed, cb, p, Cb, Class};
use crate::rng::Rng;
use crate::world::{probe, sut, Unw};
use std::cell::{Cell, RefCell};

fn wrong(what: &str, m: String) {
    alarm(Class::Content, p(12), || format!("{what}: {m}"));
}

fn count(rng: &mut Rng, left: usize) -> usize {
    match rng.below(8) {
        0..=2 => 0,
        3 => 1,
        4 => rng.below(left + 1),
        5 => left,
        6 => left.saturating_sub(1),
        _ => {
            if rng.chance(1, 2) {
                left + 1 + rng.below(3)
            } else {
                usize::MAX - rng.below(3)
            }
        }
    }
}

/// Plays `steps` random calls on `it`. The list has `len` elements at `addrs`.
/// `peek` gives an item's address; `visit` checks an item as the `n`-th element,
/// perhaps writes through it, and gives its address. `convert` turns the iterator into
/// an equivalent one, knowing what is left.
#[allow(clippy::too_many_arguments)]
pub fn play<I>(
    it: I,
    len: usize,
    steps: usize,
    rng: &mut Rng,
    log: &RefCell<Vec<String>>,
    peek: &dyn Fn(&I::Item) -> usize,
    visit: &dyn Fn(I::Item, usize, u32) -> usize,
    addrs: &[usize],
    convert: &dyn Fn(I, &[usize]) -> I,
) where
    I: DoubleEndedIterator + ExactSizeIterator,
{
    let mut it = it;
    let (mut lo, mut hi) = (0usize, len);
    // A by-value item must be element `at`.
    let check = |what: &str, x: I::Item, at: usize, hi: usize, w: u32| {
        crate::heap::off(|| {
            if at >= hi {
                let a = peek(&x);
                let which = addrs.iter().position(|&b| a == b);
                wrong(
                    what,
                    format!("produced an element ({which:?}) when none was left"),
                );
                return;
            }
            // Not looked at unless it is what it should be.
            if peek(&x) != addrs[at] {
                let which = addrs.iter().position(|&b| peek(&x) == b);
                wrong(what, format!("produced element {which:?} instead of {at}"));
                return;
            }
            visit(x, at, w);
        })
    };
    let see = |what: &str, x: &I::Item, at: usize, hi: usize| {
        crate::heap::off(|| {
            let a = peek(x);
            if at >= hi || a != addrs[at] {
                let which = addrs.iter().position(|&b| a == b);
                wrong(
                    what,
                    format!("showed element {which:?} instead of {at} (of {hi})"),
                );
            }
        })
    };
    for _ in 0..steps {
        if alarmed() {
            return;
        }
        let left = hi - lo;
        let w = rng.u32();
        let (fwd, n) = (rng.chance(1, 2), count(rng, left));
        let which = rng.below(15);
        // The call after which a searching closure says yes.
        let c = rng.below(left + 2);
        let calls = Cell::new(0usize);
        // Each closure call: counts, then may unwind.
        let tick = || {
            let k = calls.get();
            calls.set(k + 1);
            cb(Cb::Closure);
            k
        };
        let what: String;
        macro_rules! step {
            ($name:expr, $e:expr) => {{
                what = $name;
                log.borrow_mut().push(what.clone());
                match sut(|| $e) {
                    Ok(x) => Some(x),
                    Err(Unw::Inj) => {
                        probe("a caller closure unwound in the middle of an iterator step");
                        None
                    }
                    Err(e) => {
                        alarm(Class::Panic, p(12), || format!("{what}: {e:?}"));
                        return;
                    }
                }
            }};
        }
        let w0 = w;
        match which {
            0 | 1 => {
                if fwd {
                    let x = step!("next".into(), it.next());
                    match x {
                        Some(Some(x)) => {
                            check(&what, x, lo, hi, w);
                            lo = (lo + 1).min(hi);
                        }
                        _ if left > 0 => {
                            wrong(&what, format!("produced nothing though {left} are left"))
                        }
                        _ => {}
                    }
                } else {
                    let x = step!("next_back".into(), it.next_back());
                    match x {
                        Some(Some(x)) => {
                            if left == 0 {
                                check(&what, x, usize::MAX, hi, w);
                            } else {
                                check(&what, x, hi - 1, hi, w);
                                hi -= 1;
                            }
                        }
                        _ if left > 0 => {
                            wrong(&what, format!("produced nothing though {left} are left"))
                        }
                        _ => {}
                    }
                }
            }
            2 | 3 => {
                if fwd {
                    let x = step!(format!("nth({n})"), it.nth(n));
                    match x {
                        Some(Some(x)) => {
                            if n < left {
                                check(&what, x, lo + n, hi, w);
                            } else {
                                check(&what, x, usize::MAX, hi, w);
                            }
                        }
                        _ if n < left => {
                            wrong(&what, format!("produced nothing though {left} are left"))
                        }
                        _ => {}
                    }
                    lo = lo.saturating_add(n).saturating_add(1).min(hi);
                } else {
                    let x = step!(format!("nth_back({n})"), it.nth_back(n));
                    match x {
                        Some(Some(x)) => {
                            if n < left {
                                check(&what, x, hi - 1 - n, hi, w);
                            } else {
                                check(&what, x, usize::MAX, hi, w);
                            }
                        }
                        _ if n < left => {
                            wrong(&what, format!("produced nothing though {left} are left"))
                        }
                        _ => {}
                    }
                    hi = hi.saturating_sub(n).saturating_sub(1).max(lo);
                }
            }
            4 => {
                if fwd {
                    let x = step!(
                        format!("find(#{c})"),
                        it.find(|x| {
                            see("find", x, lo + calls.get(), hi);
                            tick() == c
                        })
                    );
                    if let Some(Some(x)) = x {
                        if c < left {
                            check(&what, x, lo + c, hi, w);
                        } else {
                            check(&what, x, usize::MAX, hi, w);
                        }
                    } else if let (Some(None), true) = (&x, c < left) {
                        wrong(&what, "found nothing".into());
                    }
                    lo += calls.get();
                } else {
                    let x = step!(
                        format!("rfind(#{c})"),
                        it.rfind(|x| {
                            see("rfind", x, (hi - 1).wrapping_sub(calls.get()), hi);
                            tick() == c
                        })
                    );
                    if let Some(Some(x)) = x {
                        if c < left {
                            check(&what, x, hi - 1 - c, hi, w);
                        } else {
                            check(&what, x, usize::MAX, hi, w);
                        }
                    } else if let (Some(None), true) = (&x, c < left) {
                        wrong(&what, "found nothing".into());
                    }
                    hi = hi.saturating_sub(calls.get());
                }
            }
            5 => {
                let x = step!(
                    format!("find_map(#{c})"),
                    it.find_map(|x| {
                        check("find_map", x, lo + calls.get(), hi, w0);
                        let k = tick();
                        (k == c).then_some(k)
                    })
                );
                if x.is_some() && x != Some((c < left).then_some(c)) {
                    wrong(&what, format!("gave {x:?}"));
                }
                lo += calls.get();
            }
            6 => {
                let x = step!(
                    format!("any(#{c})"),
                    it.any(|x| {
                        check("any", x, lo + calls.get(), hi, w0);
                        tick() == c
                    })
                );
                if x.is_some() && x != Some(c < left) {
                    wrong(&what, format!("gave {x:?}"));
                }
                lo += calls.get();
            }
            7 => {
                let x = step!(
                    format!("all(but #{c})"),
                    it.all(|x| {
                        check("all", x, lo + calls.get(), hi, w0);
                        tick() != c
                    })
                );
                if x.is_some() && x != Some(c >= left) {
                    wrong(&what, format!("gave {x:?}"));
                }
                lo += calls.get();
            }
            8 => {
                if fwd {
                    let x = step!(
                        format!("position(#{c})"),
                        it.position(|x| {
                            check("position", x, lo + calls.get(), hi, w0);
                            tick() == c
                        })
                    );
                    if x.is_some() && x != Some((c < left).then_some(c)) {
                        wrong(&what, format!("gave {x:?}"));
                    }
                    lo += calls.get();
                } else {
                    let x = step!(
                        format!("rposition(#{c})"),
                        it.rposition(|x| {
                            check("rposition", x, (hi - 1).wrapping_sub(calls.get()), hi, w0);
                            tick() == c
                        })
                    );
                    if x.is_some() && x != Some((c < left).then(|| left - 1 - c)) {
                        wrong(&what, format!("gave {x:?}"));
                    }
                    hi = hi.saturating_sub(calls.get());
                }
            }
            9 => {
                // Stops by itself after `n` elements.
                let n = n.min(left + 2);
                if fwd {
                    step!(
                        format!("take({n}).for_each"),
                        it.by_ref().take(n).for_each(|x| {
                            check("take", x, lo + calls.get(), hi, w0);
                            tick();
                        })
                    );
                    lo += calls.get();
                } else {
                    step!(
                        format!("try_rfold({n})"),
                        it.try_rfold(0usize, |k, x| {
                            check("try_rfold", x, (hi - 1).wrapping_sub(calls.get()), hi, w0);
                            tick();
                            (k < n).then_some(k + 1)
                        })
                    );
                    hi = hi.saturating_sub(calls.get());
                }
            }
            10 => {
                let x = step!(
                    format!("try_fold(#{c})"),
                    it.try_fold((), |(), x| {
                        check("try_fold", x, lo + calls.get(), hi, w0);
                        (tick() != c).then_some(())
                    })
                );
                if x.is_some() && x != Some((c >= left).then_some(())) {
                    wrong(&what, format!("gave {x:?}"));
                }
                lo += calls.get();
            }
            11 if rng.chance(1, 3) => {
                // A consuming call ends the script.
                let k = rng.below(7);
                match k {
                    0 => {
                        let x = step!("count".into(), it.count());
                        if x != Some(left) {
                            wrong(&what, format!("gave {x:?} of {left}"));
                        }
                    }
                    1 => {
                        let x = step!("last".into(), it.last());
                        match x {
                            Some(Some(x)) if left > 0 => check(&what, x, hi - 1, hi, w),
                            Some(Some(x)) => check(&what, x, usize::MAX, hi, w),
                            _ if left > 0 => {
                                wrong(&what, format!("nothing though {left} are left"))
                            }
                            _ => {}
                        }
                    }
                    2 => {
                        let x = step!(
                            "for_each".into(),
                            it.for_each(|x| {
                                check("for_each", x, lo + calls.get(), hi, w0);
                                tick();
                            })
                        );
                        if x.is_some() && calls.get() != left {
                            wrong(&what, format!("gave {} of {left}", calls.get()));
                        }
                    }
                    3 => {
                        let x = step!(
                            "fold".into(),
                            it.fold(0usize, |k, x| {
                                check("fold", x, lo + calls.get(), hi, w0);
                                tick();
                                k + 1
                            })
                        );
                        if x.is_some() && x != Some(left) {
                            wrong(&what, format!("gave {x:?} of {left}"));
                        }
                    }
                    4 => {
                        let x = step!(
                            "rev().for_each".into(),
                            it.rev().for_each(|x| {
                                check("rev", x, (hi - 1).wrapping_sub(calls.get()), hi, w0);
                                tick();
                            })
                        );
                        if x.is_some() && calls.get() != left {
                            wrong(&what, format!("gave {} of {left}", calls.get()));
                        }
                    }
                    5 => {
                        // Element by element from changing ends, to beyond the end.
                        let mut it = it;
                        for j in 0..left + 2 {
                            let back = rng.chance(1, 2);
                            let x = sut(|| if back { it.next_back() } else { it.next() });
                            match x {
                                Ok(Some(x)) if j < left => {
                                    check("drain", x, if back { hi - 1 } else { lo }, hi, w);
                                    if back {
                                        hi -= 1
                                    } else {
                                        lo += 1
                                    }
                                }
                                Ok(Some(x)) => check("drain", x, usize::MAX, hi, w),
                                Ok(None) if j < left => {
                                    wrong("drain", format!("ended {} early", left - j))
                                }
                                Ok(None) => {}
                                Err(e) => alarm(Class::Panic, p(12), || format!("drain: {e:?}")),
                            }
                            if alarmed() {
                                return;
                            }
                        }
                    }
                    _ => {
                        let x = step!(
                            "max_by_key".into(),
                            it.map(|x| {
                                let k = calls.get();
                                check("map", x, lo + k, hi, w0);
                                tick()
                            })
                            .max()
                        );
                        if x.is_some() && x != Some(left.checked_sub(1)) {
                            wrong(&what, format!("gave {x:?} of {left}"));
                        }
                    }
                }
                return;
            }
            12 => {
                let x = step!("converted".into(), convert(it, &addrs[lo..hi]));
                match x {
                    Some(x) => it = x,
                    None => return,
                }
            }
            _ => {
                if rng.chance(1, 2) {
                    let x = step!("len".into(), it.len());
                    if x != Some(left) {
                        wrong(&what, format!("announces {x:?} of {left}"));
                    }
                }
            }
        }
        if alarmed() {
            return;
        }
        if lo > hi {
            wrong(
                "iteration",
                format!("more elements were shown than there are ({lo} > {hi})"),
            );
            return;
        }
        let left = hi - lo;
        let r = sut(|| (it.len(), it.size_hint()));
        match r {
            Ok((n, h)) if n == left && h == (left, Some(left)) => {}
            Ok((n, h)) => {
                let last = log.borrow().last().cloned().unwrap_or_default();
                wrong("after", format!("{last}: announces {n} {h:?} of {left}"));
            }
            Err(e) => alarm(Class::Panic, p(12), || format!("len: {e:?}")),
        }
        if left == 0 {
            probe("an exhausted iterator was asked again");
        }
    }
}
