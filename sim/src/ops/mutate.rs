use super::*;

pub fn go<K: Kind>(this: &mut World<K>, op: &Op, cx: &mut Ctx) {
    let i = this.slot_of(op);
    let len = this.slots[i].m.len();
    if len == 0 {
        return;
    }
    let at = op.a[1] as usize % len;
    cx.note = format!("write to {at}");
    let x = op.a[2];
    let s = &mut this.slots[i];
    let v: &mut UnsizedVec<K::T> = &mut s.v;
    let r = calm(|| {
        let e: &mut K::T = match op.a[3] % 3 {
            0 => v.get_mut(at).unwrap(),
            1 => &mut v[at],
            _ => unsafe { v.get_unchecked_mut(at) },
        };
        K::mutate(e, x);
        K::obs(e)
    });
    match r {
        Ok(o) => s.m[at] = o,
        Err(e) => alarm(Class::Panic, 0, || format!("{}: {e:?}", cx.note)),
    }
}
