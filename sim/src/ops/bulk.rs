use super::*;

pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    let n = bulk_len(op.a[1], 7);
    let x = (op.a[4] >> 8) as usize;
    let claim = match op.a[4] % 16 {
        0..=5 => n,
        6..=8 => 0,
        9 | 10 => n.saturating_sub(1 + x % 3),
        11..=13 => n + 1 + x % 40,
        14 => usize::MAX - x % 50,
        _ => isize::MAX as usize / (1 + x % 40),
    };
    let spec = op.a[2];
    let boxed = op.a[3] % 3 == 0;
    let (i, uid, old) = if op.k == OpK::Extend {
        let i = this.slot_of(op);
        (Some(i), this.slots[i].uid, this.slots[i].m.clone())
    } else {
        if this.slots.len() >= MAX_SLOTS {
            let i = this.slot_of(op);
            this.drop_slot(i, &Flt::default());
        }
        (None, new_uid(), Vec::new())
    };
    cx.note = if op.k == OpK::Macro {
        "building with the macro".into()
    } else {
        format!("{} with {n} values, {claim} announced", op.k.name())
    };
    let before = i.map(|i| this.slots[i].caps());
    let it = Yield::<K>::new(spec, claim, n);
    let (r, rn) = match i {
        Some(i) => {
            let v: &mut UnsizedVec<K::T> = &mut this.slots[i].v;
            let (r, rn) = run(&op.f, usize::MAX, uid, || {
                if boxed {
                    v.extend(it.map(Emplacable::from))
                } else {
                    v.extend(it.map(producer))
                }
            });
            (r.map(|()| None), rn)
        }
        None if op.k == OpK::Macro => {
            let specs = [
                spec,
                spec.wrapping_mul(77),
                spec.wrapping_add(x as u32),
                spec.rotate_left(9),
            ];
            let (r, rn) = run(&op.f, usize::MAX, uid, || {
                let v = if op.a[3] % 2 == 0 {
                    K::macro_unsize(specs)
                } else {
                    None
                };
                v.unwrap_or_else(|| K::macro_build(specs))
            });
            (r.map(Some), rn)
        }
        None => {
            let (r, rn) = run(&op.f, usize::MAX, uid, || {
                if boxed {
                    it.map(Emplacable::from).collect::<UnsizedVec<K::T>>()
                } else {
                    it.map(producer).collect()
                }
            });
            (r.map(Some), rn)
        }
    };
    *ran = rn;
    *how = outcome(&r);
    let huge = claim > SMALL || before.is_some_and(|b| b.align > heap::NATURAL_ALIGN);
    check_end(&r, ran, &|m| huge && is_capacity_panic(m), &cx.note);
    let exp = take_expected();
    let new: Vec<Want> = exp
        .iter()
        .map(|e| Want {
            o: e.obs.clone(),
            cloned: e.cloned,
        })
        .collect();
    let upto = |k: usize| {
        let mut c = wants(&old);
        c.extend_from_slice(&new[..k]);
        c
    };
    let ok = r.is_ok();
    if !ok {
        probe("bulk building failed midway");
        cx.excuse_harness = true;
        if op.k == OpK::Macro {
            cx.lose_fresh = true;
        } else if let Some(l) = exp.last() {
            cx.lose.extend_from_slice(&l.obs.toks);
            cx.z_lose += l.obs.z;
        }
    } else if op.k != OpK::Macro && exp.len() != n {
        alarm(Class::Rule, p(17), || {
            format!("{}: only {} values were asked for", cx.note, exp.len())
        });
    }
    match (r, i) {
        (Ok(Some(v)), _) => {
            this.slots.push(World::<K>::fresh_slot(v, Vec::new(), uid));
            let k = this.slots.len() - 1;
            this.judge(k, &[upto(new.len())], cx);
        }
        (Ok(None), Some(i)) => {
            this.judge(i, &[upto(new.len())], cx);
        }
        (Err(e), Some(i)) => {
            let y = new.len();
            let cands = match (e, ran.fired) {
                (Unw::Inj, Some(Cb::IterNext)) => vec![upto(y)],
                (Unw::Inj, Some(Cb::Drop)) => vec![upto(y), upto(y.saturating_sub(1))],
                _ => vec![upto(y.saturating_sub(1))],
            };
            this.judge(i, &cands, cx);
        }
        _ => this.no_blocks_of(uid, "collecting failed midway"),
    }
    if let (Some(i), Some(b)) = (i, before) {
        if !alarmed() {
            this.no_smaller(i, &b, p(5), cx);
        }
    }
}
