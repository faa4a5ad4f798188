use super::*;

pub fn go<K: Kind>(this: &mut World<K>, op: &Op, cx: &mut Ctx, ran: &mut Ran) {
    let i = this.slot_of(op);
    if !K::SIZED {
        return;
    }
    let s = &mut this.slots[i];
    let uid = s.uid;
    let v = ManuallyDrop::into_inner(std::mem::replace(
        &mut s.v,
        ManuallyDrop::new(UnsizedVec::new()),
    ));
    let spare = op.a[4] as usize % 8;
    let (r, rn) = run(&Flt::default(), usize::MAX, uid, || {
        K::through_std(v, spare)
    });
    *ran = rn;
    match r {
        Ok(v) => {
            this.slots[i].v = ManuallyDrop::new(v);
            this.retag(cx, uid);
            this.unchanged(i, cx);
        }
        Err(e) => alarm(Class::Panic, p(15), || {
            format!("conversion to Vec and back: {e:?}")
        }),
    }
}
