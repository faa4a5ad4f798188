use super::*;

pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) -> Option<Box<dyn AnyWorld>> {
    let keep = this.slot_of(op);
    if !K::SIZED {
        *how = "skipped";
        return None;
    }
    cx.note = "unsizing the whole vector".into();
    this.slots.swap(0, keep);
    while this.slots.len() > 1 && !alarmed() && !heap::is_bad() {
        this.drop_slot(1, &Flt::default());
    }
    if alarmed() || heap::is_bad() {
        return None;
    }
    this.settle(cx);
    if alarmed() {
        return None;
    }
    let s = this.slots.remove(0);
    let (uid, mut m) = (s.uid, s.m);
    let v = ManuallyDrop::into_inner(s.v);
    let (r, rn) = run(&op.f, usize::MAX, uid, move || K::unsize(v, op.a[3]));
    *ran = rn;
    *how = outcome(&r);
    check_end(&r, ran, &no_panics, "unsizing a whole vector");
    match r {
        Ok(Ok(mut w)) => {
            probe(if m.is_empty() {
                "unsized an empty vector"
            } else {
                "unsized a vector"
            });
            this.retag(cx, uid);
            w.adopt_model(std::mem::take(&mut m), uid, 1, this.seed);
            return Some(w);
        }
        Ok(Err(v)) => {
            let mut s = World::<K>::fresh_slot(v, Vec::new(), uid);
            s.m = m;
            this.slots.push(s);
            *how = "skipped";
        }
        Err(_) => {
            probe("unsizing a whole vector failed");
            this.no_blocks_of(uid, "unsizing a vector failed");
        }
    }
    None
}
