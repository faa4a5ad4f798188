use super::*;

pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    let i = this.slot_of(op);
    let len = this.slots[i].m.len();
    let uid = 0;
    let mut way = WAYS[op.a[3] as usize % WAYS.len()];
    if K::NDEST > 0 && op.a[4] % 5 == 0 {
        way = Way::Special(op.a[4] / 5 % K::NDEST);
    }
    if len == 0 {
        let v: &mut UnsizedVec<K::T> = &mut this.slots[i].v;
        if v.pop_into().is_some() {
            alarm(Class::Content, p(9), || {
                "an empty vector gave up an element".into()
            });
        }
        *how = "empty";
        return;
    }
    let at = if op.k == OpK::Pop {
        len - 1
    } else {
        op.a[1] as usize % len
    };
    cx.note = format!("{} {at} by {way:?}", op.k.name());
    let before = this.slots[i].caps();
    let o = this.slots[i].m[at].clone();
    let v: &mut UnsizedVec<K::T> = &mut this.slots[i].v;
    let (r, rn) = run(&op.f, usize::MAX, uid, || {
        let d = AnyDest::<K> {
            way,
            vec: None,
            idx: 0,
        };
        if op.k == OpK::Pop {
            let e = v.pop_into();
            match e {
                Some(e) => d.take(e),
                None => Held::Nothing,
            }
        } else {
            d.take(v.remove_into(at))
        }
    });
    *ran = rn;
    *how = outcome(&r);
    check_end(&r, ran, &no_panics, &cx.note);
    let same = wants(&this.slots[i].m);
    let minus = without(&this.slots[i].m, at);
    let cands = match &r {
        Ok(_) if way == Way::Leak => vec![same],
        Ok(_) => vec![minus],
        Err(Unw::Inj) if ran.fired == Some(Cb::R1) => vec![minus],
        Err(Unw::Inj) if way != Way::RecvIgnore && ran.fired == Some(Cb::Drop) => vec![minus],
        Err(_) => vec![same, minus],
    };
    if r.is_err() {
        probe("removal unwound");
        cx.lose.extend_from_slice(&o.toks);
        cx.z_lose += o.z;
        cx.excuse_sut = true;
        cx.excuse_harness = true;
    } else if way.forgets() && way != Way::Leak {
        for &t in &o.toks {
            if tok_state(t) != St::Live {
                alarm(Class::Drop, p(9) | p(25), || {
                    format!("{}: value {t} was dropped though forgotten", cx.note)
                });
            }
        }
        cx.lose.extend_from_slice(&o.toks);
        cx.z_lose += o.z;
    }
    let none = way.forgets() || way.drops();
    if let Ok(held) = r {
        // The receiver owns precisely that value.
        this.receive(
            held,
            (!none).then_some(&Want { o, cloned: false }),
            p(9) | p(10) | p(25),
            cx,
        );
    }
    this.judge(i, &cands, cx);
    if !alarmed() {
        this.no_smaller(i, &before, p(5), cx);
        this.still(i, at, cx);
    }
    if ran.reqs > 0
        && (none || matches!(way, Way::RecvTake | Way::RecvNull | Way::RecvIgnore))
        && !alarmed()
    {
        alarm(Class::Rule, p(24), || {
            format!("{}: made {} heap requests", cx.note, ran.reqs)
        });
    }
}
