use super::*;

pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    let i = this.slot_of(op);
    let v: &UnsizedVec<K::T> = &this.slots[i].v;
    let unwind = op.a[3] % 2 == 1;
    let style = op.a[4] % 4;
    let (r, rn) = if op.k == OpK::Ser {
        sink::serialize::<K>(v, &op.f, unwind)
    } else {
        sink::debug::<K>(v, &op.f, unwind, style)
    };
    *ran = rn;
    *how = r;
    if ran.fired.is_some() {
        probe(if op.k == OpK::Ser {
            "serialisation failed midway"
        } else {
            "formatting failed midway"
        });
    }
    let _ = cx;
}
