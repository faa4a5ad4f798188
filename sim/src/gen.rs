//! From a seed to a program: its element type, its operations, their arguments,
//! and the faults each will meet. Everything is decided here; running a program
//! draws nothing more than the streams derived from its seed.

use crate::rng::{mix2, Rng};
use crate::world::{Flt, Op, OpK, NARG, NOPK, OPKS};

pub struct Plan {
    pub kind: u32,
    pub seed: u64,
    pub ops: Vec<Op>,
}

/// Sized kinds, by number.
const SIZED: [u32; 12] = [2, 10, 11, 12, 13, 18, 19, 20, 2, 23, 24, 25];
/// Kinds whose values differ in alignment.
const PADDED: [u32; 8] = [0, 0, 0, 6, 7, 7, 21, 21];
/// Slices of sized values.
const SLICES: [u32; 7] = [1, 1, 4, 5, 14, 15, 22];
const ALL: [u32; 36] = [
    0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18,
    19, 20, 21, 21, 22, 23, 24, 25,
];

fn kind(prop: u32, r: &mut Rng) -> u32 {
    let focus = r.chance(4, 5);
    match prop {
        5 | 6 if r.chance(1, 3) => r.pick(&SIZED),
        7 | 16 if focus => r.pick(&PADDED),
        23 if r.chance(1, 2) => r.pick(&PADDED),
        8 if r.chance(1, 3) => r.pick(&PADDED),
        11 if focus => r.pick(&[1, 1, 1, 15, 4, 5, 14, 17, 22]),
        14 if focus => r.pick(&SIZED),
        15 if focus => r.pick(&SIZED),
        16 => r.pick(&SLICES),
        _ => r.pick(&ALL),
    }
}

/// Weights of the operations, per property.
fn weights(prop: u32) -> [u32; NOPK] {
    use OpK::*;
    let mut w = [0; NOPK];
    let mut set = |k: OpK, n: u32| w[k as usize] = n;
    for (k, n) in [
        (New, 2),
        (Drop, 2),
        (Push, 10),
        (Insert, 10),
        (PushWith, 10),
        (InsertWith, 10),
        (Special, 5),
        (Pop, 6),
        (Remove, 10),
        (Move, 6),
        (Reserve, 8),
        (Shrink, 6),
        (Mutate, 2),
        (Iter, 4),
        (Ser, 1),
        (Debug, 1),
        (Clone, 3),
        (ThroughStd, 3),
        (Unsize, 1),
        (Extend, 4),
        (Collect, 2),
        (StdExtend, 1),
        (Deliver, 4),
        (ByValue, 2),
        (FromIter, 3),
        (OutOfRange, 1),
        (Swap, 1),
        (Macro, 1),
        (Compare, 1),
        (Burst, 0),
    ] {
        set(k, n);
    }
    let more: &[(OpK, u32)] = match prop {
        4 => &[(Reserve, 50), (New, 6), (Push, 15), (Insert, 15)],
        5 => &[
            (Reserve, 40),
            (New, 10),
            (Push, 15),
            (Insert, 15),
            (Special, 10),
            (Move, 10),
        ],
        6 => &[(Shrink, 45), (Reserve, 20)],
        7 => &[
            (Reserve, 12),
            (Shrink, 15),
            (Push, 14),
            (Insert, 20),
            (InsertWith, 16),
            (Special, 10),
        ],
        8 => &[(PushWith, 40), (InsertWith, 50), (Move, 20)],
        9 => &[(Pop, 35), (Remove, 55), (Move, 25)],
        10 => &[
            (Deliver, 70),
            (ByValue, 15),
            (PushWith, 15),
            (InsertWith, 15),
            (FromIter, 10),
        ],
        11 => &[(FromIter, 90)],
        12 => &[(Iter, 90)],
        13 => &[(Ser, 60), (Debug, 50)],
        14 => &[(Clone, 60), (Mutate, 10)],
        15 => &[(Unsize, 12), (ThroughStd, 30), (Reserve, 12)],
        16 => &[
            (Push, 35),
            (Insert, 35),
            (PushWith, 25),
            (InsertWith, 25),
            (Reserve, 40),
            (New, 6),
            (Move, 15),
        ],
        17 => &[(Extend, 60), (Collect, 25), (StdExtend, 25), (Macro, 8)],
        18 => &[(Compare, 90), (Mutate, 8), (Clone, 6)],
        21 => &[(OutOfRange, 60), (Unsize, 2), (Pop, 10)],
        22 => &[(Reserve, 50), (New, 20), (Shrink, 10)],
        23 => &[
            (Reserve, 12),
            (Shrink, 14),
            (Push, 12),
            (Insert, 14),
            (InsertWith, 12),
            (Remove, 14),
            (Unsize, 3),
            (ThroughStd, 8),
        ],
        24 => &[
            (Pop, 25),
            (Remove, 25),
            (Iter, 10),
            (Ser, 6),
            (Debug, 6),
            (Compare, 10),
            (Mutate, 6),
            (Move, 15),
            (Drop, 5),
            (Swap, 3),
        ],
        25 => &[
            (Deliver, 50),
            (FromIter, 30),
            (PushWith, 30),
            (InsertWith, 30),
            (Remove, 25),
            (Pop, 10),
            (Move, 15),
            (Extend, 8),
            (StdExtend, 6),
        ],
        19 => &[(Burst, 18), (Shrink, 12), (Reserve, 16)],
        _ => &[],
    };
    for &(k, n) in more {
        set(k, n);
    }
    w
}

struct Swarm {
    w: [u32; NOPK],
    total: u32,
    /// Chance of a fault per operation, in percent.
    rate: u32,
    nth: bool,
    all: bool,
    limit: bool,
    cb: bool,
    big: bool,
}

fn small(r: &mut Rng) -> u32 {
    // Mostly 1, 2, 3.
    let mut n = 1;
    while n < 14 && r.chance(5, 11) {
        n += 1;
    }
    n
}

fn fault(s: &Swarm, k: OpK, r: &mut Rng) -> Flt {
    let mut f = Flt::default();
    if r.below(100) >= s.rate as usize {
        return f;
    }
    let grows = matches!(
        k,
        OpK::Push
            | OpK::Insert
            | OpK::PushWith
            | OpK::InsertWith
            | OpK::Special
            | OpK::Move
            | OpK::Reserve
    );
    for _ in 0..1 + r.below(2) {
        match r.below(10) {
            0..=2 if s.nth => {
                f.nth = small(r).min(6);
                f.cnt = if r.chance(2, 3) {
                    1
                } else {
                    1 + r.below(3) as u32
                };
            }
            3 if s.all => f.all = true,
            4 | 5 if s.limit && grows => {
                f.limit = Some(match r.below(8) {
                    0..=3 => 0,
                    4 => -1,
                    5 => r.below(16) as i32,
                    6 => r.below(200) as i32,
                    _ => -(r.below(32) as i32),
                })
            }
            6.. if s.cb => f.cb = small(r),
            _ => {}
        }
    }
    f
}

fn op(s: &Swarm, id: u32, r: &mut Rng) -> Op {
    let mut x = r.below(s.total as usize) as u32;
    let mut k = OpK::Push;
    for &(c, _) in OPKS {
        let w = s.w[c as usize];
        if x < w {
            k = c;
            break;
        }
        x -= w;
    }
    forced(s, id, k, r)
}

fn forced(s: &Swarm, id: u32, k: OpK, r: &mut Rng) -> Op {
    let mut a = [0; NARG];
    for x in &mut a {
        *x = r.u32();
    }
    if !s.big && matches!(k, OpK::Reserve | OpK::New) {
        // Amounts that memory suffices for.
        for i in [1, 2] {
            a[i] = (a[i] & !0xff) - (a[i] & !0xff) % 40 + r.below(35) as u32;
        }
        a[4] = a[4] - a[4] % 20 + r.below(13) as u32;
    }
    Op {
        id,
        k,
        a,
        f: fault(s, k, r),
    }
}

pub fn plan(prop: u32, base: u64, n: u64) -> Plan {
    let seed = mix2(mix2(base, prop as u64), n);
    let mut r = Rng::new(seed);
    let r = &mut r;
    let kind = kind(prop, r);
    let mut w = weights(prop);
    let plain = weights(0);
    for i in 0..NOPK {
        // Some of the operations that the property isn't about are left out.
        if w[i] <= plain[i] && r.chance(1, 4) && i != OpK::Push as usize {
            w[i] = 0;
        }
    }
    let rate = match r.below(8) {
        0 => 0,
        1..=3 => 15,
        4 | 5 => 35,
        _ => 60,
    };
    let s = Swarm {
        total: w.iter().sum(),
        w,
        rate,
        nth: r.chance(2, 3),
        all: r.chance(1, 3),
        limit: prop == 16 || r.chance(1, 6),
        cb: r.chance(3, 4),
        big: r.chance(if prop == 4 { 2 } else { 1 }, 3),
    };
    let quiet = Swarm {
        w: s.w,
        rate: 0,
        big: false,
        ..s
    };
    let mut ops = Vec::new();
    let mut id = 0;
    let mut add = |ops: &mut Vec<Op>, o: &dyn Fn(u32, &mut Rng) -> Op, r: &mut Rng| {
        id += 1;
        let x = o(id, r);
        ops.push(x);
    };
    if prop == 16 && r.chance(2, 3) {
        // Room for elements, not for bytes.
        add(
            &mut ops,
            &|id, r| {
                let mut o = forced(&quiet, id, OpK::New, r);
                o.a[3] = 2;
                o.a[1] = 40 * 77 + (r.below(20) as u32) + 12;
                o
            },
            r,
        );
    }
    // Something to work on.
    for _ in 0..r.below(10) {
        let k = r.pick(&[
            OpK::Push,
            OpK::Push,
            OpK::PushWith,
            OpK::Insert,
            OpK::Special,
            OpK::Reserve,
        ]);
        add(&mut ops, &|id, r| forced(&quiet, id, k, r), r);
    }
    let n = match r.below(4) {
        0 => 4 + r.below(8),
        1 | 2 => 10 + r.below(25),
        _ => 30 + r.below(40),
    };
    // Rarely, one of the vectors gets long.
    let long = r.chance(1, 400).then(|| r.below(12));
    while ops.len() < n {
        if Some(ops.len()) == long {
            add(
                &mut ops,
                &|id, r| {
                    let mut o = forced(&quiet, id, OpK::Burst, r);
                    o.a[2] = o.a[2] - o.a[2] % 64 + r.pick(&[4u32, 5, 5]);
                    o.a[4] |= 15;
                    o
                },
                r,
            );
        } else if matches!(prop, 1 | 4 | 5) && r.chance(1, if prop == 5 { 4 } else { 20 }) {
            // Reserve, then store while everything is refused.
            let slot = r.u32();
            add(
                &mut ops,
                &|id, r| {
                    let mut o = forced(&quiet, id, OpK::Reserve, r);
                    o.a[0] = slot;
                    o.a[3] = o.a[3] - o.a[3] % 12 + 4 + r.below(8) as u32;
                    for i in [1, 2] {
                        o.a[i] = o.a[i] - o.a[i] % 40 + r.pick(&[4u32, 12, 13, 12, 31]);
                    }
                    o
                },
                r,
            );
            for _ in 0..1 + r.below(6) {
                let k = r.pick(&[
                    OpK::Push,
                    OpK::Insert,
                    OpK::PushWith,
                    OpK::InsertWith,
                    OpK::Special,
                ]);
                add(
                    &mut ops,
                    &|id, r| {
                        let mut o = forced(&quiet, id, k, r);
                        o.a[0] = slot;
                        o.f.all = true;
                        o
                    },
                    r,
                );
            }
        } else {
            add(&mut ops, &|id, r| op(&s, id, r), r);
        }
    }
    Plan { kind, seed, ops }
}

// ---- plans as text ----

pub fn show(p: &Plan) -> String {
    let mut s = format!("kind {}\nseed {}\n", p.kind, p.seed);
    for o in &p.ops {
        s += &format!("op {} {}", o.id, o.k.name());
        for a in o.a {
            s += &format!(" {a}");
        }
        let f = &o.f;
        if f.nth > 0 {
            s += &format!(" nth={} cnt={}", f.nth, f.cnt);
        }
        if f.all {
            s += " all";
        }
        if let Some(d) = f.limit {
            s += &format!(" limit={d}");
        }
        if f.cb > 0 {
            s += &format!(" cb={}", f.cb);
        }
        s.push('\n');
    }
    s
}

pub fn parse(s: &str) -> Option<Plan> {
    let mut p = Plan {
        kind: 0,
        seed: 0,
        ops: Vec::new(),
    };
    for l in s.lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("kind") => p.kind = w.next()?.parse().ok()?,
            Some("seed") => p.seed = w.next()?.parse().ok()?,
            Some("op") => {
                let id = w.next()?.parse().ok()?;
                let name = w.next()?;
                let k = OPKS.iter().find(|(_, n)| *n == name)?.0;
                let mut a = [0; NARG];
                for x in &mut a {
                    *x = w.next()?.parse().ok()?;
                }
                let mut f = Flt::default();
                for x in w {
                    let (n, v) = x.split_once('=').unwrap_or((x, "0"));
                    match n {
                        "nth" => f.nth = v.parse().ok()?,
                        "cnt" => f.cnt = v.parse().ok()?,
                        "all" => f.all = true,
                        "limit" => f.limit = Some(v.parse().ok()?),
                        "cb" => f.cb = v.parse().ok()?,
                        _ => return None,
                    }
                }
                p.ops.push(Op { id, k, a, f });
            }
            _ => {}
        }
    }
    Some(p)
}
