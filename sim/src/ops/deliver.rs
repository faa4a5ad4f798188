use super::*;

pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    let spec = op.a[2];
    let src = op.a[1] % (NFEED + K::NSRC);
    let mut way = WAYS[op.a[3] as usize % WAYS.len()];
    if K::NDEST > 0 && op.a[4] % 4 == 0 {
        way = Way::Special(op.a[4] / 4 % K::NDEST);
    }
    cx.note = if op.k == OpK::ByValue {
        format!("smart pointer {} by value", op.a[3] % 6)
    } else {
        format!("{} to {way:?}", src_name::<K>(src))
    };
    let (r, rn) = if op.k == OpK::ByValue {
        way = Way::Box;
        let b = quiet(|| K::make(spec));
        expect(K::obs(&b), false);
        run(&op.f, usize::MAX, 0, || by_value(op.a[3], b))
    } else {
        run(&op.f, usize::MAX, 0, || {
            feed::<K, _>(
                src,
                spec,
                AnyDest::<K> {
                    way,
                    vec: None,
                    idx: 0,
                },
            )
        })
    };
    *ran = rn;
    *how = outcome(&r);
    check_end(&r, ran, &no_panics, &cx.note);
    let exp = take_expected();
    let w = if K::FROM_ITER && src == NFEED + 5 && op.k == OpK::Deliver {
        Some(Want {
            o: slice_obs(&exp, K::ALIGN.unwrap()),
            cloned: false,
        })
    } else {
        one(&exp)
    };
    match r {
        Ok(held) => {
            if way.forgets() {
                cx.excuse_harness = true;
                cx.lose_fresh = true;
                for e in &exp {
                    for &t in &e.obs.toks {
                        if !e.cloned && tok_state(t) != St::Live {
                            alarm(Class::Drop, p(10) | p(25), || {
                                format!("{}: value {t} was dropped though forgotten", cx.note)
                            });
                        }
                    }
                }
            }
            let none = way.forgets() || way.drops();
            this.receive(
                held,
                if none { None } else { w.as_ref() },
                p(10) | p(25),
                cx,
            );
        }
        Err(_) => {
            probe("delivery failed");
            cx.lose_fresh = true;
            cx.excuse_harness = true;
            cx.excuse_sut = true;
        }
    }
}
