use super::*;

pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    if this.slots.len() >= MAX_SLOTS {
        let i = this.slot_of(op);
        this.drop_slot(i, &Flt::default());
    }
    let uid = new_uid();
    let form = op.a[3] % 5;
    let empty = op.a[3] as usize / 5 % 3;
    let (n, b) = (amount(op.a[1], 0, 0), amount(op.a[2], 0, 0));
    let al = ALIGNS[op.a[4] as usize % ALIGNS.len()];
    cx.note = format!(
        "new {}",
        match form {
            0 => ["new()", "unsized_vec![]", "unsize_vec![]"][empty].to_string(),
            1 => "default()".to_string(),
            2 => format!("with_capacity({n})"),
            3 => format!("with_capacity_bytes({n}, {b})"),
            _ => format!("with_capacity_bytes_align({n}, {b}, {al})"),
        }
    );
    let (r, rn) = run(&op.f, usize::MAX, uid, || match form {
        0 if empty == 1 => unsized_vec::unsized_vec![],
        0 if empty == 2 => unsized_vec::unsize_vec![],
        0 => UnsizedVec::<K::T>::new(),
        1 => UnsizedVec::default(),
        2 => UnsizedVec::with_capacity(n),
        3 => UnsizedVec::with_capacity_bytes(n, b),
        _ => UnsizedVec::with_capacity_bytes_align(n, b, al),
    });
    *ran = rn;
    *how = outcome(&r);
    let bad_align = form == 4 && !al.is_power_of_two();
    let huge =
        form >= 2 && n > SMALL || form >= 3 && b > SMALL || form == 4 && al > heap::NATURAL_ALIGN;
    let zst_bytes = K::SIZED && b > 0 && form >= 3;
    check_end(
        &r,
        ran,
        &|m| {
            huge && is_capacity_panic(m)
                || zst_bytes && is_capacity_panic(m)
                || bad_align && is_refusal(m)
        },
        &cx.note,
    );
    match r {
        Ok(v) => {
            if form <= 1 && ran.reqs > 0 {
                alarm(Class::Rule, p(5) | p(24), || {
                    "an empty vector was allocated for".into()
                });
            }
            if K::ALIGN.is_none() && form <= 1 && v.align() != std::mem::align_of::<usize>() {
                alarm(Class::Rule, p(23), || {
                    format!("{}: the alignment is {}", cx.note, v.align())
                });
            }
            let ok = v.capacity() >= if form >= 2 { n } else { 0 }
                && v.byte_capacity() >= if form >= 3 { b } else { 0 }
                && (K::ALIGN.is_some() || form < 4 || v.align() >= al);
            if !ok {
                alarm(Class::Rule, p(5), || {
                    format!(
                        "{}: capacities are {} {} {}",
                        cx.note,
                        v.capacity(),
                        v.byte_capacity(),
                        v.align()
                    )
                });
            }
            let al = if K::ALIGN.is_none() { v.align() } else { 1 };
            let most = if K::SIZED && form >= 3 {
                n.max(b.div_ceil(K::SIZE.max(1)))
            } else {
                n
            };
            let zst = K::SIZED && K::SIZE == 0;
            if form >= 2
                && !zst
                && (v.capacity() > most
                    || !K::SIZED && v.byte_capacity() > if form == 2 { 0 } else { pad(b, al) })
            {
                alarm(Class::Rule, p(22), || {
                    format!(
                        "{}: capacities are {} {} {}",
                        cx.note,
                        v.capacity(),
                        v.byte_capacity(),
                        v.align()
                    )
                });
            }
            let mut s = World::<K>::fresh_slot(v, Vec::new(), uid);
            if form == 4 && K::ALIGN.is_none() {
                s.floor = al;
            }
            this.slots.push(s);
        }
        Err(_) => this.no_blocks_of(uid, "a construction failed"),
    }
}
