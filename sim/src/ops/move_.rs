use super::*;

pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    if this.slots.len() < 2 {
        let uid = new_uid();
        this.slots
            .push(World::<K>::fresh_slot(UnsizedVec::new(), Vec::new(), uid));
    }
    let n = this.slots.len();
    let i = op.a[0] as usize % n;
    let j = (i + 1 + op.a[3] as usize % (n - 1)) % n;
    let len = this.slots[i].m.len();
    if len == 0 || this.slots[j].m.len() >= MAX_LEN {
        *how = "skipped";
        return;
    }
    let pop = op.a[4] % 2 == 0;
    let at = if pop { len - 1 } else { op.a[1] as usize % len };
    let to = (op.a[5] % 2 == 0).then(|| op.a[5] as usize / 2 % (this.slots[j].m.len() + 1));
    cx.note = format!("move {at} of vector {i} to {to:?} of vector {j}");
    let o = this.slots[i].m[at].clone();
    let (bi, bj) = (this.slots[i].caps(), this.slots[j].caps());
    let strict = this.slots[j].strict(o.size, o.align);
    let fits = this.slots[j].fits(o.size, o.align);
    let limit = match op.f.limit {
        Some(d) if bj.len < bj.cap && !K::SIZED => strict.saturating_add_signed(d as isize),
        _ => usize::MAX,
    };
    let uid = this.slots[j].uid;
    let [a, b] = this.slots.get_disjoint_mut([i, j]).unwrap();
    let (a, b): (&mut UnsizedVec<K::T>, &mut UnsizedVec<K::T>) = (&mut a.v, &mut b.v);
    let (r, rn) = run(&op.f, limit, uid, || {
        let way = if to.is_some() { Way::Insert } else { Way::Push };
        let d = AnyDest::<K> {
            way,
            vec: Some(b),
            idx: to.unwrap_or(0),
        };
        if pop {
            d.take(a.pop_into().unwrap());
        } else {
            d.take(a.remove_into(at));
        }
    });
    *ran = rn;
    *how = outcome(&r);
    let lost_cause = bj.align > heap::NATURAL_ALIGN;
    if ran.refused > 0 {
        cx.domain |= p(4) | p(8);
    }
    check_end(&r, ran, &|m| lost_cause && is_capacity_panic(m), &cx.note);
    let w = Want {
        o: o.clone(),
        cloned: false,
    };
    let pos = to.unwrap_or(bj.len);
    let (ci, cj) = if r.is_ok() {
        (
            vec![without(&this.slots[i].m, at)],
            vec![with_ins(&this.slots[j].m, pos, &w)],
        )
    } else {
        cx.lose.extend_from_slice(&o.toks);
        cx.z_lose += o.z;
        probe("move between vectors failed");
        (
            vec![wants(&this.slots[i].m), without(&this.slots[i].m, at)],
            vec![wants(&this.slots[j].m)],
        )
    };
    if r.is_err()
        && !K::SIZED
        && bj.len < bj.cap
        && !lost_cause
        && ran.least_refused.is_none_or(|s| s > strict)
    {
        alarm(Class::Rule, p(16), || {
            format!(
                "{}: failed though {strict} bytes suffice and only {:?} were refused",
                cx.note, ran.least_refused
            )
        });
    }
    if fits {
        cx.domain |= p(5);
        if ran.reqs > 0 {
            alarm(Class::Rule, p(5), || {
                format!(
                    "{}: made {} heap requests though {bj:?} covers it",
                    cx.note, ran.reqs
                )
            });
        }
    }
    this.judge(i, &ci, cx);
    this.judge(j, &cj, cx);
    if !alarmed() {
        this.no_smaller(i, &bi, p(5), cx);
        this.still(i, at, cx);
        if fits {
            this.still(j, pos, cx);
        }
        this.no_smaller(j, &bj, if r.is_err() { p(4) | p(5) } else { p(5) }, cx);
    }
}
