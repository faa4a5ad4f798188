use super::*;

pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    let i = this.slot_of(op);
    let b = this.slots[i].caps();
    let form = op.a[3] % 12;
    let (fallible, exact, level) = (form % 2 == 0, form / 2 % 2 == 1, form / 4);
    let add = amount(op.a[1], b.len, b.cap - b.len);
    let bytes = amount(op.a[2], b.blen, b.bcap - b.blen);
    let al = ALIGNS[op.a[4] as usize % ALIGNS.len()];
    cx.note = format!(
        "{}reserve{} {}",
        if fallible { "try_" } else { "" },
        if exact { "_exact" } else { "" },
        match level {
            0 => format!("({add})"),
            1 => format!("_capacity_bytes({add}, {bytes})"),
            _ => format!("_capacity_bytes_align({add}, {bytes}, {al})"),
        }
    );
    let uid = this.slots[i].uid;
    let eff_al = if level == 2 && K::ALIGN.is_none() && al.is_power_of_two() {
        al
    } else {
        1
    };
    let strict = this.slots[i].strict(bytes, eff_al);
    let elems_ok = b.cap - b.len >= add;
    let limit = match op.f.limit {
        Some(d) if elems_ok && !K::SIZED && level > 0 => strict.saturating_add_signed(d as isize),
        _ => usize::MAX,
    };
    fn call<T: ?Sized>(
        v: &mut UnsizedVec<T>,
        form: u32,
        add: usize,
        bytes: usize,
        al: usize,
    ) -> Result<(), String> {
        let r = match form {
            0 => v.try_reserve(add),
            2 => v.try_reserve_exact(add),
            4 => v.try_reserve_capacity_bytes(add, bytes),
            6 => v.try_reserve_exact_capacity_bytes(add, bytes),
            8 => v.try_reserve_capacity_bytes_align(add, bytes, al),
            10 => v.try_reserve_exact_capacity_bytes_align(add, bytes, al),
            1 => return Ok(v.reserve(add)),
            3 => return Ok(v.reserve_exact(add)),
            5 => return Ok(v.reserve_capacity_bytes(add, bytes)),
            7 => return Ok(v.reserve_exact_capacity_bytes(add, bytes)),
            9 => return Ok(v.reserve_capacity_bytes_align(add, bytes, al)),
            _ => return Ok(v.reserve_exact_capacity_bytes_align(add, bytes, al)),
        };
        r.map_err(|e| heap::off(|| format!("{e:?}")))
    }
    let v: &mut UnsizedVec<K::T> = &mut this.slots[i].v;
    let (r, rn) = run(&op.f, limit, uid, || call(v, form, add, bytes, al));
    *ran = rn;
    let huge = add > SMALL
        || level >= 1 && bytes > SMALL
        || eff_al > heap::NATURAL_ALIGN
        || b.align > heap::NATURAL_ALIGN;
    let zst = K::SIZED && level >= 1 && bytes > 0 && b.bcap == 0 && b.cap == usize::MAX;
    let bad_align = level == 2 && !al.is_power_of_two();
    check_end(
        &r,
        ran,
        &|m| bad_align && is_refusal(m) || !fallible && (huge || zst) && is_capacity_panic(m),
        &cx.note,
    );
    if fallible && matches!(r, Err(Unw::Alloc)) {
        alarm(Class::Panic, p(4), || {
            format!("{}: unwound instead of reporting the error", cx.note)
        });
    }
    let ok = matches!(r, Ok(Ok(())));
    *how = match &r {
        Ok(Err(_)) => "error",
        r => outcome(r),
    };
    if !ok && !bad_align && !huge && !zst && ran.refused == 0 {
        alarm(Class::Rule, p(4) | p(5), || {
            format!(
                "{}: failed though nothing was refused and {b:?}: {r:?}",
                cx.note
            )
        });
    }
    if let Ok(Err(e)) = &r {
        says(e, ran, huge || zst, cx);
    }
    this.unchanged(i, cx);
    if alarmed() {
        return;
    }
    let covered = elems_ok
        && (level == 0 || b.bcap - b.blen >= bytes)
        && (level < 2 || K::ALIGN.is_some() || b.align >= al);
    if covered && !bad_align {
        if ran.reqs > 0 {
            alarm(Class::Rule, p(5), || {
                format!(
                    "{}: made {} heap requests though {b:?} covers it",
                    cx.note, ran.reqs
                )
            });
        }
        if !ok {
            alarm(Class::Rule, p(5) | p(4), || {
                format!("{}: failed though {b:?} covers it", cx.note)
            });
        }
    }
    this.no_smaller(i, &b, p(4) | p(5), cx);
    if covered && !bad_align {
        this.still(i, usize::MAX, cx);
    }
    let asked = if level == 2 && !bad_align { al } else { 1 };
    let raised = this.slots[i].v.align();
    if K::ALIGN.is_none() && raised > b.align.max(asked) {
        alarm(Class::Rule, p(23), || {
            format!("{}: alignment {} became {raised}", cx.note, b.align)
        });
    }
    let satisfied = |a: &Caps| {
        a.len.checked_add(add).is_some_and(|n| a.cap >= n)
            && (level == 0 || a.bcap - a.blen >= bytes)
            && (level < 2 || K::ALIGN.is_some() || a.align >= al)
    };
    if ok {
        let a = this.slots[i].caps();
        if !satisfied(&a) {
            alarm(Class::Rule, p(5) | p(4), || {
                format!("{}: succeeded, but now {a:?}", cx.note)
            });
        }
        if exact {
            let most = if K::SIZED {
                let per = K::SIZE.max(1);
                let extra = if level > 0 { bytes.div_ceil(per) } else { 0 };
                b.cap.max(b.len.saturating_add(add.max(extra)))
            } else {
                b.cap.max(b.len.saturating_add(add))
            };
            let most_bytes = if K::SIZED {
                usize::MAX
            } else if level == 0 {
                b.bcap
            } else {
                b.bcap.max(strict)
            };
            if a.cap > most || a.bcap > most_bytes {
                alarm(Class::Rule, p(22), || {
                    format!("{}: {b:?} became {a:?}, though {most} elements and {most_bytes} bytes suffice", cx.note)
                });
            }
            cx.domain |= p(22);
        }
        if level == 2 && K::ALIGN.is_none() {
            let s = &mut this.slots[i];
            s.floor = s.floor.max(al);
        }
        return;
    }
    if ran.refused > 0 {
        probe("reservation refused");
    } else if huge {
        probe("reservation not representable");
    }
    if elems_ok && !K::SIZED && !huge && !bad_align && ran.least_refused.is_none_or(|s| s > strict)
    {
        alarm(Class::Rule, p(16), || {
            format!(
                "{}: failed though the smallest refused request has {:?} bytes and {strict} suffice",
                cx.note, ran.least_refused
            )
        });
    }
    if bad_align || huge || zst || alarmed() {
        return;
    }
    // Once memory is available, the same request succeeds.
    let v: &mut UnsizedVec<K::T> = &mut this.slots[i].v;
    let (r, rn) = run(&Flt::default(), usize::MAX, uid, || {
        call(v, form, add, bytes, al)
    });
    let a = this.slots[i].caps();
    if rn.refused == 0 && (!matches!(r, Ok(Ok(()))) || !satisfied(&a)) {
        alarm(Class::Rule, p(4), || {
            format!(
                "{}: retried with memory available, it gives {r:?} and {a:?}",
                cx.note
            )
        });
    }
    if matches!(r, Ok(Ok(()))) && level == 2 && K::ALIGN.is_none() {
        let s = &mut this.slots[i];
        s.floor = s.floor.max(al);
    }
    this.unchanged(i, cx);
}

/// What an error says of its cause has to be so.
fn says(e: &str, ran: &Ran, huge: bool, cx: &Ctx) {
    let field = |name: &str| -> Option<usize> {
        let rest = &e[e.find(name)? + name.len()..];
        let end = rest
            .find(|c: char| !c.is_ascii_digit())
            .unwrap_or(rest.len());
        rest[..end].parse().ok()
    };
    let named = field("size: ").zip(field("align: "));
    let wrong = match (e.contains("AllocError"), e.contains("CapacityOverflow")) {
        (true, false) => ran.refused == 0 || named.is_some_and(|n| !ran.was_refused(n)),
        (false, true) => !huge,
        _ => false,
    };
    if wrong {
        alarm(Class::Rule, p(4), || {
            format!("{}: gives {e}, but {ran:?}", cx.note)
        });
    }
}
