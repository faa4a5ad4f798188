use super::*;

/// Calls that must be refused: positions that don't exist, alignments that are none.
pub fn go<K: Kind>(this: &mut World<K>, op: &Op, cx: &mut Ctx, ran: &mut Ran) {
    let i = this.slot_of(op);
    let len = this.slots[i].m.len();
    let past = match op.a[1] % 5 {
        0 | 1 => len + 1,
        2 => len + 2 + op.a[1] as usize % 50,
        3 => usize::MAX - op.a[1] as usize / 8 % 3,
        // The next position whose bookkeeping would lie at the same place.
        _ => len.wrapping_add(1 << (56 + op.a[1] / 8 % 8)),
    };
    let at = if op.a[1] / 8 % 3 == 0 { len } else { past };
    let spec = op.a[2];
    let uid = this.slots[i].uid;
    let before = this.slots[i].caps();
    let which = op.a[3] % 14;
    if which >= 8 {
        return bad_align(this, op, i, which - 8, cx, ran);
    }
    let v: &mut UnsizedVec<K::T> = &mut this.slots[i].v;
    let b = quiet(|| K::make(spec));
    let show = [
        "index",
        "index_mut",
        "remove_into",
        "insert",
        "insert_with",
        "get",
        "special insertion",
        "pop_into",
    ];
    cx.note = format!("out-of-range {} at {at} of {len}", show[which as usize]);
    let (r, rn) = run(&Flt::default(), usize::MAX, uid, || match which {
        0 => {
            quiet(|| drop(b));
            let _: &K::T = &v[at];
            None
        }
        1 => {
            quiet(|| drop(b));
            let _: &mut K::T = &mut v[at];
            None
        }
        2 => {
            quiet(|| drop(b));
            // There is nothing to get a handle on.
            std::mem::forget(v.remove_into(at));
            None
        }
        3 => {
            v.insert(past, *b);
            None
        }
        4 => {
            v.insert_with(past, producer(b));
            None
        }
        6 => {
            quiet(|| drop(b));
            K::special_insert(v, spec, Some(past));
            None
        }
        7 if len == 0 => {
            quiet(|| drop(b));
            Some(v.pop_into().map(drop).is_none() && v.pop_into().is_none())
        }
        _ => {
            quiet(|| drop(b));
            Some(v.get(at).is_none() && v.get_mut(at).is_none())
        }
    });
    *ran = rn;
    if matches!(which, 3 | 4 | 6) {
        cx.excuse_harness = true;
    }
    match r {
        Ok(Some(true)) => {}
        Err(Unw::Panic(m)) if is_refusal(&m) && which <= 6 && which != 5 => {}
        Err(Unw::Panic(m)) => alarm(Class::Panic, p(21), || {
            format!("{}: panicked with {m}", cx.note)
        }),
        Ok(Some(false)) => alarm(Class::Content, p(21), || {
            format!("{}: something was there", cx.note)
        }),
        r => alarm(Class::Content, p(21), || {
            format!("{} was not refused ({})", cx.note, outcome(&r))
        }),
    }
    same_caps(this, i, &before, cx);
}

fn same_caps<K: Kind>(this: &World<K>, i: usize, b: &Caps, cx: &Ctx) {
    if !alarmed() && !heap::is_bad() {
        this.no_smaller(i, b, p(21), cx);
    }
}

fn bad_align<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    i: usize,
    form: u32,
    cx: &mut Ctx,
    ran: &mut Ran,
) {
    let al = [
        0,
        3,
        6,
        12,
        24,
        48,
        96,
        usize::MAX,
        (1 << 63) | 1,
        (1 << 32) + 8,
    ][op.a[4] as usize % 10];
    let (n, b) = (op.a[1] as usize % 9, op.a[5] as usize % 300);
    let uid = this.slots[i].uid;
    let before = this.slots[i].caps();
    let v: &mut UnsizedVec<K::T> = &mut this.slots[i].v;
    cx.note = format!("call {form} with alignment {al}");
    // Where all values have one alignment, the argument is ignored.
    let ignored = K::ALIGN.is_some();
    if ignored {
        return;
    }
    let (r, rn) = run(&Flt::default(), usize::MAX, uid, || match form {
        0 => v.reserve_capacity_bytes_align(n, b, al),
        1 => v.reserve_exact_capacity_bytes_align(n, b, al),
        2 => drop(v.try_reserve_capacity_bytes_align(n, b, al)),
        3 => drop(v.try_reserve_exact_capacity_bytes_align(n, b, al)),
        4 => v.shrink_capacity_bytes_align_to(n, b, al),
        _ => drop(UnsizedVec::<K::T>::with_capacity_bytes_align(n, b, al)),
    });
    *ran = rn;
    match r {
        Err(Unw::Panic(m)) if is_refusal(&m) => {}
        Err(Unw::Panic(m)) => alarm(Class::Panic, p(21), || {
            format!("{}: panicked with {m}", cx.note)
        }),
        r => alarm(Class::Rule, p(21), || {
            format!("{} was not refused ({})", cx.note, outcome(&r))
        }),
    }
    same_caps(this, i, &before, cx);
}
