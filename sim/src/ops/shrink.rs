use super::*;

pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    let i = this.slot_of(op);
    let b = this.slots[i].caps();
    let form = op.a[3] % 4;
    let pickn = |x: u32, len: usize, cap: usize| match x % 12 {
        0..=2 => 0,
        3 => len,
        4 => cap,
        5 => cap.saturating_add(1),
        6 => usize::MAX,
        7 => cap.saturating_sub(1 + (x >> 8) as usize % 4),
        8 => len + (x >> 8) as usize % 5,
        _ => len.saturating_add(
            (x >> 8) as usize % cap.saturating_sub(len).saturating_add(1).min(4096),
        ),
    };
    let mc = pickn(op.a[1], b.len, b.cap);
    let mb = pickn(op.a[2], b.blen, b.bcap);
    let ma = ALIGNS[op.a[4] as usize % ALIGNS.len()];
    cx.note = match form {
        0 => "shrink_to_fit".to_string(),
        1 => format!("shrink_to({mc})"),
        2 => format!("shrink_capacity_bytes_to({mc}, {mb})"),
        _ => format!("shrink_capacity_bytes_align_to({mc}, {mb}, {ma})"),
    };
    let uid = this.slots[i].uid;
    let v: &mut UnsizedVec<K::T> = &mut this.slots[i].v;
    let (r, rn) = run(&op.f, usize::MAX, uid, || match form {
        0 => v.shrink_to_fit(),
        1 => v.shrink_to(mc),
        2 => v.shrink_capacity_bytes_to(mc, mb),
        _ => v.shrink_capacity_bytes_align_to(mc, mb, ma),
    });
    *ran = rn;
    *how = outcome(&r);
    let bad_align = form == 3 && !ma.is_power_of_two();
    check_end(&r, ran, &|m| bad_align && is_refusal(m), &cx.note);
    if ran.refused > 0 {
        probe("shrinking refused");
    }
    let (mc, mb, ma) = match form {
        0 => (0, 0, 1),
        1 => (mc, if K::SIZED { 0 } else { usize::MAX }, usize::MAX),
        2 => (mc, mb, usize::MAX),
        _ => (mc, mb, ma),
    };
    if !bad_align && (form == 0 || form == 3) {
        let s = &mut this.slots[i];
        s.floor = s.floor.min(ma.max(1));
    }
    this.unchanged(i, cx);
    if alarmed() {
        return;
    }
    let a = this.slots[i].caps();
    let max_al = this.slots[i].m.iter().map(|o| o.align).max().unwrap_or(1);
    let rule = |ok: bool, what: &str| {
        if !ok {
            alarm(Class::Rule, p(6), || {
                format!("{}: {what}: {b:?} became {a:?}", cx.note)
            });
        }
    };
    rule(
        a.cap >= b.cap.min(mc).max(b.len),
        "element capacity is below its bound",
    );
    rule(
        a.bcap >= b.bcap.min(mb).max(a.blen),
        "byte capacity is below its bound",
    );
    rule(
        a.cap <= b.cap && a.bcap <= b.bcap && a.align <= b.align,
        "a capacity rose",
    );
    if K::ALIGN.is_none() {
        rule(
            a.align >= max_al.max(b.align.min(ma)),
            "alignment is below its bound",
        );
    }
    if r.is_ok() && ran.refused == 0 {
        if K::SIZED {
            let size = b.bcap.checked_div(b.cap).unwrap_or(0);
            if b.bcap > 0 {
                let need = b.len.max(mc).max(mb.div_ceil(size)).saturating_mul(size);
                rule(
                    a.bcap <= need,
                    "byte capacity is above what its bound requires",
                );
            }
        } else {
            rule(
                a.cap <= b.len.max(mc),
                "element capacity is above what its bound requires",
            );
            let need = a.blen.max(mb);
            let need = pad(need, a.align);
            rule(
                a.bcap <= need,
                "byte capacity is above what its bound requires",
            );
            rule(
                K::ALIGN.is_some() || a.align <= max_al.max(ma),
                "alignment is above what its bound requires",
            );
        }
    }
    if r.is_err() && !bad_align {
        rule(a.cap == b.cap || ran.refused > 0, "capacity changed");
    }
}
