use super::*;

pub fn go<K: Kind>(_: &mut World<K>, op: &Op, cx: &mut Ctx, ran: &mut Ran, how: &mut &'static str) {
    let n = op.a[1] as usize % 7;
    let x = (op.a[4] >> 8) as usize;
    let claim = match op.a[4] % 8 {
        0..=2 => n,
        3 | 4 => 0,
        5 => n + 1 + x % 10,
        6 => n.saturating_sub(1),
        _ => usize::MAX - x % 9,
    };
    let old = op.a[3] as usize % 4;
    cx.note = format!("Vec::extend of {old} with {n} values, {claim} announced");
    let it = Yield::<K>::new(op.a[2], claim, n);
    let (r, rn) = run(&op.f, usize::MAX, 0, || K::std_extend(old, it));
    *ran = rn;
    let exp = take_expected();
    let (got, unw) = match r {
        Ok(None) => {
            *how = "skipped";
            return;
        }
        Ok(Some(g)) => g,
        Err(e) => (Vec::new(), Some(e)),
    };
    let r = match unw {
        None => Ok(()),
        Some(e) => Err(e),
    };
    *how = outcome(&r);
    check_end(
        &r,
        ran,
        &|m| claim > SMALL && is_capacity_panic(m),
        &cx.note,
    );
    if alarmed() || heap::is_bad() {
        std::mem::forget(got);
        return;
    }
    // The old elements are announced first.
    let y = exp.len();
    if r.is_ok() && y != old + n {
        alarm(Class::Rule, p(17), || {
            format!(
                "{}: only {} values were asked for",
                cx.note,
                y.saturating_sub(old)
            )
        });
        std::mem::forget(got);
        return;
    }
    let lo = match (&r, ran.fired) {
        (Ok(()), _) => y,
        _ if old == 0 => 0,
        (Err(Unw::Inj), Some(Cb::IterNext)) => y,
        _ => y.saturating_sub(1).max(old),
    };
    let lo = if r.is_ok() || old > 0 { lo } else { 0 };
    let seen: Vec<Obs> = got.iter().map(|x| K::obs(x)).collect();
    let want: Vec<Want> = exp[..lo]
        .iter()
        .map(|e| Want {
            o: e.obs.clone(),
            cloned: false,
        })
        .collect();
    if !matches(&seen, &want, cx.t0) {
        alarm(Class::Content, p(17), || {
            format!(
                "{}: the vector has {} elements instead of the expected {}",
                cx.note,
                seen.len(),
                want.len()
            )
        });
        std::mem::forget(got);
        return;
    }
    if r.is_err() {
        probe("Vec::extend failed midway");
        cx.excuse_harness = true;
        if let Some(l) = exp.last() {
            cx.lose.extend_from_slice(&l.obs.toks);
            cx.z_lose += l.obs.z;
        }
    }
    let _ = calm(move || drop(got));
}
