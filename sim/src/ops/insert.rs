use super::*;

pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    use OpK::*;
    let i = this.slot_of(op);
    let before = this.slots[i].caps();
    let len = before.len;
    let at = match op.k {
        Push | PushWith => None,
        Special if op.a[4] % 2 == 0 => None,
        _ => Some(op.a[1] as usize % (len + 1)),
    };
    let spec = op.a[2];
    let src = op.a[3] % (NFEED + K::NSRC);
    let uid = this.slots[i].uid;
    let with = matches!(op.k, PushWith | InsertWith);
    cx.note = match op.k {
        Push | Insert => format!("{} at {at:?} by value", op.k.name()),
        Special => format!("special insertion at {at:?}"),
        _ => format!("{} at {at:?} from {}", op.k.name(), src_name::<K>(src)),
    };
    // What is going to be stored is known for values made here.
    let value = (!with && op.k != Special).then(|| {
        let b = quiet(|| K::make(spec));
        expect(K::obs(&b), false);
        b
    });
    let peek: Option<(usize, usize)> = value
        .as_ref()
        .map(|b| (size_of_val(&**b), align_of_val(&**b)))
        .or_else(|| {
            // Sizes and alignments don't depend on the run.
            (with && src < NFEED).then(|| {
                let b = calm(|| K::make(spec)).unwrap();
                let r = (size_of_val(&*b), align_of_val(&*b));
                discard::<K>(b);
                r
            })
        });
    cx.t0 = cx.t0.max(reg::ntoks());
    let strict = peek.map(|(s, a)| this.slots[i].strict(s, a));
    let limit = match (op.f.limit, strict) {
        (Some(d), Some(s)) if len < before.cap && !K::SIZED => s.saturating_add_signed(d as isize),
        _ => usize::MAX,
    };
    let v: &mut UnsizedVec<K::T> = &mut this.slots[i].v;
    let (r, rn) = run(&op.f, limit, uid, || match op.k {
        Push => v.push(*value.unwrap()),
        Insert => v.insert(at.unwrap(), *value.unwrap()),
        Special => K::special_insert(v, spec, at),
        _ => {
            let way = if at.is_none() { Way::Push } else { Way::Insert };
            let idx = at.unwrap_or(0);
            feed::<K, _>(
                src,
                spec,
                AnyDest::<K> {
                    way,
                    vec: Some(v),
                    idx,
                },
            );
        }
    });
    *ran = rn;
    *how = outcome(&r);
    let exp = take_expected();
    let (size, align) = exp.first().map_or((0, 1), |e| (e.obs.size, e.obs.align));
    let lost_cause = before.align > heap::NATURAL_ALIGN;
    if ran.refused > 0 {
        cx.domain |= p(4) | if with { p(8) } else { 0 };
    }
    if ran.fired.is_some() {
        cx.domain |= p(8);
    }
    check_end(&r, ran, &|m| lost_cause && is_capacity_panic(m), &cx.note);
    // Elements of a slice built from an iterator are announced one by one.
    let w = if with && src >= NFEED && K::FROM_ITER && src - NFEED == 5 {
        Some(Want {
            o: slice_obs(&exp, K::ALIGN.unwrap()),
            cloned: false,
        })
    } else {
        one(&exp)
    };
    let (size, align) = w.as_ref().map_or((size, align), |w| (w.o.size, w.o.align));
    let pre = wants(&this.slots[i].m);
    let pos = at.unwrap_or(len);
    let cands = match (&r, &w) {
        (Ok(()), Some(w)) => vec![with_ins(&this.slots[i].m, pos, w)],
        (Ok(()), None) => {
            alarm(Class::Rule, p(10) | p(25), || {
                format!("{}: nothing was ever asked for", cx.note)
            });
            return;
        }
        (Err(Unw::Inj), Some(w)) if matches!(ran.fired, Some(Cb::Lend | Cb::Drop | Cb::Clone)) => {
            vec![pre, with_ins(&this.slots[i].m, pos, w)]
        }
        _ => vec![pre],
    };
    if r.is_err() {
        probe(match op.k {
            Push | Insert => "insertion by value failed",
            _ => "insertion through an emplacable failed",
        });
        if with || op.k == Special && !K::SIZED {
            cx.excuse_harness = true;
        }
        if with {
            cx.lose_fresh = true;
        }
    }
    // A slice built from an iterator needs memory of its own.
    let own_memory = with && K::FROM_ITER && src == NFEED + 5;
    let covered = !own_memory && {
        let mut c = before.len < before.cap;
        if !K::SIZED {
            c &= K::ALIGN.is_some() || align <= before.align;
            let need = if K::ALIGN.is_some() {
                size
            } else {
                pad(size, before.align)
            };
            c &= need <= before.bcap - before.blen;
        }
        c
    };
    if covered {
        cx.domain |= p(5);
        if ran.reqs > 0 {
            alarm(Class::Rule, p(5), || {
                format!("{}: made {} heap requests for {size} bytes (align {align}) though {before:?} covers them", cx.note, ran.reqs)
            });
        } else if op.f.all {
            probe("covered insertion while everything is refused");
        }
    }
    if matches!(r, Err(Unw::Alloc | Unw::Panic(_)))
        && !K::SIZED
        && before.len < before.cap
        && !lost_cause
    {
        if let Some(strict) = strict {
            if limit != usize::MAX {
                probe("growth failed under a size limit");
            }
            if ran.least_refused.is_none_or(|s| s > strict) {
                alarm(Class::Rule, p(16), || {
                    format!(
                        "{}: failed though the smallest refused request has {:?} bytes and {strict} suffice",
                        cx.note, ran.least_refused
                    )
                });
            }
        }
    }
    if r.is_ok() && ran.refused > 0 && limit != usize::MAX {
        probe("growth fell back to the strict need");
    }
    this.judge(i, &cands, cx);
    if alarmed() {
        return;
    }
    if covered {
        this.still(i, pos, cx);
    }
    this.no_smaller(i, &before, if r.is_err() { p(4) | p(5) } else { p(5) }, cx);
    let grown = this.slots[i].v.align();
    if K::ALIGN.is_none() && grown > before.align.max(align) {
        alarm(Class::Rule, p(23), || {
            format!(
                "{}: alignment {} became {grown} for a value of alignment {align}",
                cx.note, before.align
            )
        });
    }
    if r.is_ok() && K::ALIGN.is_none() && grown > before.align && len > 1 {
        probe("stored a value more strictly aligned than all before");
    }
}
