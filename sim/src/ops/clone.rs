use super::*;

pub fn go<K: Kind>(
    this: &mut World<K>,
    op: &Op,
    cx: &mut Ctx,
    ran: &mut Ran,
    how: &mut &'static str,
) {
    let i = this.slot_of(op);
    let uid = new_uid();
    let v: &UnsizedVec<K::T> = &this.slots[i].v;
    let (r, rn) = run(&op.f, usize::MAX, uid, || K::clone_vec(v));
    *ran = rn;
    *how = outcome(&r);
    check_end(&r, ran, &no_panics, "clone");
    match r {
        Ok(None) => *how = "skipped",
        Ok(Some(c)) => {
            let cands: Vec<Want> = this.slots[i]
                .m
                .iter()
                .map(|o| Want {
                    o: o.clone(),
                    cloned: true,
                })
                .collect();
            this.slots.push(World::<K>::fresh_slot(c, Vec::new(), uid));
            let n = this.slots.len() - 1;
            this.judge(n, &[cands], cx);
            this.unchanged(i, cx);
            if !alarmed() && this.slots.len() > MAX_SLOTS {
                let k = if op.a[4] % 2 == 0 { n } else { i };
                this.drop_slot(k, &Flt::default());
            }
        }
        Err(_) => {
            probe("clone failed midway");
            this.no_blocks_of(uid, "a clone failed midway");
        }
    }
}
