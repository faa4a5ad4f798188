use super::*;

pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    if !K::FROM_ITER {
        *how = "skipped";
        return;
    }
    let n = op.a[1] as usize % 9;
    let x = (op.a[4] >> 8) as usize;
    let claim = match op.a[4] % 12 {
        0..=2 => n,
        3..=5 => n.saturating_sub(1 + x % 3),
        6..=8 => n + 1 + x % 4,
        9 => n + 20 + x % 50,
        10 => 0,
        _ => isize::MAX as usize / (1 + x % 20),
    };
    let i = this.slot_of(op);
    let len = this.slots[i].m.len();
    let idx = op.a[5] as usize % (len + 1);
    let way = match op.a[3] % 12 {
        0 => Way::Box,
        1 => Way::Rc,
        2 => Way::Arc,
        3 => Way::RecvTake,
        4 => Way::Drop,
        5 => Way::Special(op.a[5] % K::NDEST.max(1)),
        6 => Way::Forget,
        7 => Way::RecvNull,
        8 | 9 if len < MAX_LEN => Way::Push,
        _ if len < MAX_LEN => Way::Insert,
        _ => Way::Box,
    };
    cx.note = format!("slice from an iterator of {n}, {claim} announced, to {way:?} {idx}");
    let uid = if way.stores() { this.slots[i].uid } else { 0 };
    let before = this.slots[i].caps();
    let v: &mut UnsizedVec<K::T> = &mut this.slots[i].v;
    let (r, rn) = run(&op.f, usize::MAX, uid, || {
        K::from_iter(
            op.a[2],
            claim,
            n,
            AnyDest::<K> {
                way,
                vec: Some(v),
                idx,
            },
        )
    });
    *ran = rn;
    *how = outcome(&r);
    // A wrong announcement may panic.
    check_end(&r, ran, &|_| claim != n, &cx.note);
    let exp = take_expected();
    let al = K::ALIGN.unwrap();
    cx.lose_fresh = r.is_err() || way.forgets();
    cx.excuse_harness = cx.lose_fresh;
    if r.is_err() {
        cx.excuse_sut = !way.stores();
        if claim > n && ran.fired.is_none() && ran.refused == 0 {
            probe("slice from an iterator that yields too few");
        }
    } else if claim < n {
        probe("slice from an iterator that yields too many");
    }
    if r.is_ok()
        && claim == n
        && exp.len() != n
        && !way.forgets()
        && !way.drops()
        && !crate::emp::NO_ROOM.0.get()
    {
        alarm(Class::Rule, p(11), || {
            format!("{}: {} values were asked for", cx.note, exp.len())
        });
        return;
    }
    // Only elements really yielded, in order; all of them if the announcement was right.
    let upto = |k: usize| Want {
        o: slice_obs(&exp[..k.min(exp.len())], al),
        cloned: false,
    };
    match r {
        Ok(held) if way.stores() => {
            let at = if way == Way::Push { len } else { idx };
            let cands: Vec<Vec<Want>> = if claim == n {
                vec![with_ins(&this.slots[i].m, at, &upto(n))]
            } else {
                (0..=exp.len())
                    .map(|k| with_ins(&this.slots[i].m, at, &upto(k)))
                    .collect()
            };
            this.judge(i, &cands, cx);
            std::mem::forget(held);
        }
        Ok(held) => {
            let none = way.forgets() || way.drops();
            let want = if none {
                None
            } else if claim == n || crate::emp::NO_ROOM.0.get() {
                Some(upto(n))
            } else {
                let o = held.get().map(|x| calm(|| K::obs(x)).unwrap_or_default());
                let k =
                    (0..=exp.len()).find(|&k| o.as_ref().is_some_and(|o| same(o, &upto(k), cx.t0)));
                match k {
                    Some(k) => Some(upto(k)),
                    None => {
                        alarm(Class::Content, p(11), || {
                            format!(
                                "{}: the slice shows something the iterator never yielded: {:?}",
                                cx.note,
                                o.map(|o| o.brief())
                            )
                        });
                        std::mem::forget(held);
                        return;
                    }
                }
            };
            if way.forgets() {
                for e in &exp {
                    if let Some(t) = e.obs.toks.iter().find(|&&t| tok_state(t) != St::Live) {
                        alarm(Class::Drop, p(10) | p(25), || {
                            format!("{}: value {t} was dropped though forgotten", cx.note)
                        });
                    }
                }
            }
            this.receive(held, want.as_ref(), p(11) | p(25), cx);
        }
        Err(_) => {}
    }
    if !alarmed() {
        this.no_smaller(i, &before, p(5), cx);
    }
}
