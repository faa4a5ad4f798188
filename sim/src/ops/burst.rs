use super::*;

/// Many values in a row, without faults: the vector may not grow too often.
pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    let i = this.slot_of(op);
    let uid = this.slots[i].uid;
    // Usually past a hundred, now and then past what fits in a page, rarely tens of thousands.
    let mut n = if op.a[2] % 64 == 5 {
        800 + op.a[2] as usize / 64 % 1200
    } else if op.a[2] % 1024 == 78 {
        10_000 + op.a[2] as usize / 1024 % 30_000
    } else {
        64 + op.a[2] as usize % 128
    };
    // One small value, many times over.
    let small = |from: u32| {
        (0..30u32).map(|k| from.wrapping_add(k)).find(|&s| {
            let b = calm(|| K::make(s)).unwrap();
            let ok = (1..=64).contains(&size_of_val(&*b)) && align_of_val(&*b) <= 64;
            discard::<K>(b);
            ok
        })
    };
    // Or a few dozen huge ones.
    let huge = (op.a[2] % 1024 == 77)
        .then(|| {
            [7 + 3992 * (op.a[1] % 4000), 7 + 1999 * (op.a[1] % 4000)]
                .into_iter()
                .find(|&s| {
                    let b = calm(|| K::make(s)).unwrap();
                    let ok = size_of_val(&*b) > 50_000;
                    discard::<K>(b);
                    ok
                })
        })
        .flatten();
    let spec = huge.or_else(|| small(op.a[1]));
    // They may also stay, and differ.
    let keep = op.a[4] % 16 == 15 && huge.is_none();
    let specs: Vec<u32> = (0..8)
        .filter_map(|k| small(op.a[1].wrapping_add(k * 31)))
        .collect();
    let Some(spec) =
        spec.filter(|_| this.slots[i].m.len() < MAX_LEN && this.slots[i].v.align() <= 4096)
    else {
        *how = "skipped";
        return;
    };
    if huge.is_some() {
        n = 60 + op.a[2] as usize / 1024 % 140;
        heap::roomy();
    }
    let way = op.a[3] % 4;
    // Room for each may be asked for just before, in one of the forms that may give more.
    let ahead = (op.a[3] / 4 % 2 == 1).then_some(op.a[3] / 8 % 5);
    cx.note = format!(
        "{n} values pushed {}{}",
        ["by value", "by a custom producer", "as boxes", "by turns"][way as usize],
        [
            "",
            " after reserve",
            " after try_reserve",
            " after reserve_capacity_bytes",
            " after reserve_capacity_bytes_align",
            " after some reservation"
        ][ahead.map_or(0, |a| a as usize + 1)]
    );
    let (mut elems, mut bytes, mut steps, mut refused) = (0usize, 0usize, 0, false);
    let mut want = wants(&this.slots[i].m);
    let len = want.len();
    cx.t0 = cx.t0.max(reg::ntoks());
    for k in 0..n {
        if reg::exhausted() || heap::exhausted() {
            break;
        }
        let spec = if keep {
            specs[k * 5 % specs.len()]
        } else {
            spec
        };
        let b = quiet(|| K::make(spec));
        take_expected();
        want.push(Want {
            o: K::obs(&b),
            cloned: false,
        });
        let before = this.slots[i].caps();
        let v: &mut UnsizedVec<K::T> = &mut this.slots[i].v;
        let (size, align) = (size_of_val(&*b), align_of_val(&*b));
        let (r, rn) = run(&Flt::default(), usize::MAX, uid, || {
            match ahead.map(|a| if a == 4 { k as u32 % 4 } else { a }) {
                Some(0) => v.reserve(1),
                Some(1) => _ = v.try_reserve(1),
                Some(2) => v.reserve_capacity_bytes(1, size),
                Some(_) => v.reserve_capacity_bytes_align(1, size, align),
                None => {}
            }
            match if way == 3 { k as u32 % 3 } else { way } {
                0 => v.push(*b),
                1 => v.push_with(producer(b)),
                _ => v.push_with(Emplacable::from(b)),
            }
        });
        ran.reqs += rn.reqs;
        check_end(&r, &rn, &no_panics, &cx.note);
        if alarmed() || heap::is_bad() {
            return;
        }
        if r.is_err() {
            want.pop();
            refused = true;
            cx.excuse_harness = true;
            cx.lose_fresh = true;
            *how = outcome(&r);
            break;
        }
        let after = this.slots[i].caps();
        if rn.refused > 0 {
            // Too big for the simulated heap.
            refused = true;
        }
        if after.cap != before.cap {
            elems += after.cap;
        }
        if after.bcap != before.bcap {
            bytes += after.bcap;
        }
        steps += (after.cap != before.cap || after.bcap != before.bcap) as u32;
    }
    let end = this.slots[i].caps();
    if !refused
        && !keep
        && (elems > end.cap.saturating_mul(4).saturating_add(64)
            || bytes > end.bcap.saturating_mul(4).saturating_add(512))
    {
        alarm(Class::Rule, p(19), || {
            format!(
                "{}: grew {steps} times, to {} elements and {} bytes, through buffers of {elems} elements and {bytes} bytes",
                cx.note, end.cap, end.bcap
            )
        });
        return;
    }
    if !refused {
        probe(if huge.is_some() {
            "long runs of huge pushes"
        } else if n >= 10_000 {
            "very long runs of pushes"
        } else {
            "long runs of pushes"
        });
    }
    this.judge(i, &[want], cx);
    if alarmed() || keep {
        return;
    }
    // Back to where it was.
    while this.slots[i].m.len() > len {
        let v: &mut UnsizedVec<K::T> = &mut this.slots[i].v;
        let (r, rn) = run(&Flt::default(), usize::MAX, uid, || drop(v.pop_into()));
        check_end(&r, &rn, &no_panics, "pop");
        if alarmed() || heap::is_bad() {
            return;
        }
        this.slots[i].m.pop();
    }
}
