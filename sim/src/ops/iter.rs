use super::*;

pub fn go<K: Kind>(this: &mut World<K>, op: &Op, cx: &mut Ctx, ran: &mut Ran) {
    let i = this.slot_of(op);
    let s = &mut this.slots[i];
    let mutable = op.a[3] % 2 == 1;
    cx.note = format!(
        "iteration{} script {:x}",
        if mutable { " (mutable)" } else { "" },
        op.a[2]
    );
    let uid = s.uid;
    let steps = 2 + op.a[4] as usize % 12;
    let mut m = std::mem::take(&mut s.m);
    let addrs: Vec<usize> = (0..m.len())
        .map(|k| &s.v[k] as *const K::T as *const u8 as usize)
        .collect();
    let v: &mut UnsizedVec<K::T> = &mut s.v;
    let log = heap::off(|| std::cell::RefCell::new(Vec::new()));
    let (_, rn) = run(&op.f, usize::MAX, uid, || {
        heap::off(|| {
            let model = std::cell::RefCell::new(&mut m);
            let mut rng = Rng::new(op.a[2] as u64);
            if mutable {
                let it = if op.a[5] % 2 == 0 {
                    v.iter_mut()
                } else {
                    v.into_iter()
                };
                script::play(
                    it,
                    addrs.len(),
                    steps,
                    &mut rng,
                    &log,
                    &|x: &&mut K::T| &**x as *const K::T as *const u8 as usize,
                    &|x: &mut K::T, at: usize, w: u32| {
                        heap::off(|| {
                            let o = K::obs(x);
                            let a = x as *const K::T as *const u8 as usize;
                            if !model.borrow()[at].eq(&o) {
                                alarm(Class::Content, p(12), || {
                                    format!("iteration shows {} as element {at}", o.brief())
                                });
                                return a;
                            }
                            if w % 2 == 0 {
                                K::mutate(x, w);
                                model.borrow_mut()[at] = K::obs(x);
                            }
                            a
                        })
                    },
                    &addrs,
                    &|it, _| it,
                );
            } else {
                let it = if op.a[5] % 2 == 0 {
                    v.iter()
                } else {
                    (&*v).into_iter()
                };
                script::play(
                    it,
                    addrs.len(),
                    steps,
                    &mut rng,
                    &log,
                    &|x: &&K::T| &**x as *const K::T as *const u8 as usize,
                    &|x: &K::T, at: usize, _| {
                        heap::off(|| {
                            let o = K::obs(x);
                            if !model.borrow()[at].eq(&o) {
                                alarm(Class::Content, p(12), || {
                                    format!("iteration shows {} as element {at}", o.brief())
                                });
                            }
                            x as *const K::T as *const u8 as usize
                        })
                    },
                    &addrs,
                    &|it, left| K::iter_roundtrip(it, left),
                );
            }
        })
    });
    *ran = rn;
    cx.note += &format!(": {}", log.into_inner().join(" "));
    this.slots[i].m = m;
}
