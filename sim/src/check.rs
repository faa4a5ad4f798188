//! The coordinator of one check: spreads seeds over worker processes, and turns
//! what they find into a minimised, confirmed replay file or an evidence file.

use crate::gen::{self, Plan};
use crate::reg::p;
use crate::work::{self, Status};
use crate::world::{Flt, OpK};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const PROFILES: [&str; 2] = ["checked", "shipped"];
/// No progress for so long means that the code under test hangs.
const HANG: Duration = Duration::from_secs(60);
const TRY_HANG: Duration = Duration::from_secs(20);
const MAX_ALARMS: usize = 32;
const MAX_MINIMISED: usize = 10;

struct Cfg {
    prop: String,
    bit: u32,
    tier: String,
    seed: u64,
    bins: [String; 2],
    root: String,
    tmp: String,
}

/// What ended a run.
#[derive(Clone, Debug)]
struct End {
    class: String,
    props: u32,
    domain: u32,
    op: u32,
    name: String,
    msg: String,
}

impl End {
    /// Evidence against property `bit` by itself.
    fn direct(&self, bit: u32) -> bool {
        let by_class = match self.class.as_str() {
            "Content" | "Panic" => p(1),
            "Died" => p(1) | p(3),
            "Drop" | "Leak" => p(2),
            "Heap" => p(3),
            "Align" => p(7),
            _ => 0,
        };
        (self.props | by_class) & bit != 0
    }
    /// Evidence against it, seen that the run was in its territory.
    fn any(&self, bit: u32) -> bool {
        // Operations that only look at a vector, or store in one without faults, show
        // what is wrong with themselves.
        let own = matches!(
            self.name.as_str(),
            "compare" | "burst" | "out_of_range" | "serialize" | "debug" | "iter"
        );
        self.direct(bit) || self.domain & bit != 0 && (!own || self.class == "Died")
    }
}

#[derive(Clone, Debug)]
struct Found {
    profile: usize,
    n: u64,
    end: End,
}

#[derive(Clone, Copy)]
struct Job {
    profile: usize,
    first: u64,
    count: u64,
}

#[derive(Default)]
struct Totals {
    stat: BTreeMap<String, u64>,
    cb: BTreeMap<String, (u64, u64)>,
    probe: BTreeMap<String, u64>,
    kind: BTreeMap<String, u64>,
    runs: [u64; 2],
    states: HashSet<u64>,
    distinct: HashSet<u64>,
}

fn parse_end(f: &[&str]) -> Option<End> {
    Some(End {
        class: f.first()?.to_string(),
        props: f.get(1)?.parse().ok()?,
        domain: f.get(2)?.parse().ok()?,
        op: f.get(3)?.parse().ok()?,
        name: f.get(4)?.to_string(),
        msg: f.get(5)?.to_string(),
    })
}

/// The territory of an operation whose run could not tell.
fn static_domain(o: &crate::world::Op) -> u32 {
    use OpK::*;
    let stores = matches!(o.k, Push | Insert | PushWith | InsertWith | Special | Move);
    let mut d = o.k.domain();
    if o.f.cb > 0 && matches!(o.k, PushWith | InsertWith | Move) {
        d |= p(8);
    }
    if (o.f.all || o.f.nth > 0) && stores {
        d |= p(4);
    }
    if o.f.limit.is_some() && stores {
        d |= p(16);
    }
    d
}

fn died(plan: &Plan, op: u32, how: String) -> End {
    let upto = plan
        .ops
        .iter()
        .position(|o| o.id == op)
        .map_or(plan.ops.len(), |i| i + 1);
    End {
        class: "Died".into(),
        props: 0,
        domain: plan.ops[..upto].iter().fold(0, |d, o| d | static_domain(o)),
        op,
        name: plan
            .ops
            .iter()
            .find(|o| o.id == op)
            .map_or("end", |o| o.k.name())
            .into(),
        msg: format!("the process running the code {how}"),
    }
}

fn blank(path: &str) {
    std::fs::write(path, vec![0u8; 4096]).unwrap();
}

/// Runs a child, killing it if `progress` doesn't change for `hang`.
fn child(mut c: Command, hang: Duration, st: &Status) -> Result<(i32, String), String> {
    let mut ch = c
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("could not be started: {e}"))?;
    let mut last = (st.get(0), st.get(1), st.get(2));
    let mut since = Instant::now();
    let mut nap = 1;
    let s = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap + 1).min(20);
        let now = (st.get(0), st.get(1), st.get(2));
        if now != last {
            last = now;
            since = Instant::now();
        } else if since.elapsed() > hang {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(format!("made no progress for {} s", hang.as_secs()));
        }
    };
    let mut out = String::new();
    use std::io::Read;
    let _ = ch.stdout.take().unwrap().read_to_string(&mut out);
    match (s.code(), s.signal()) {
        (Some(c), _) => Ok((c, out)),
        (None, Some(n)) => Err(format!("was ended by signal {n}")),
        _ => Err("ended strangely".into()),
    }
}

/// Runs one plan in a fresh process.
fn attempt(cfg: &Cfg, profile: usize, plan: &Plan, tag: &str) -> Option<End> {
    let (f, s) = (
        format!("{}/try-{tag}.txt", cfg.tmp),
        format!("{}/try-{tag}.st", cfg.tmp),
    );
    std::fs::write(&f, gen::show(plan)).unwrap();
    blank(&s);
    let st = Status::open(&s);
    let mut c = Command::new(&cfg.bins[profile]);
    c.args(["try", &f, &s]);
    match child(c, TRY_HANG, &st) {
        Ok((0, _)) => None,
        Ok((3, out)) => out
            .lines()
            .find_map(|l| l.strip_prefix("ALARM\t"))
            .and_then(|l| parse_end(&l.split('\t').collect::<Vec<_>>())),
        Ok((c, _)) => Some(died(
            plan,
            st.get(1) as u32,
            format!("ended with status {c}"),
        )),
        Err(e) => Some(died(plan, st.get(1) as u32, e)),
    }
}

struct Pool<'a> {
    cfg: &'a Cfg,
    queue: Mutex<VecDeque<Job>>,
    totals: Mutex<Totals>,
    found: Mutex<Vec<Found>>,
    stop: AtomicBool,
    trouble: Mutex<Option<String>>,
    deadline: Instant,
    tags: AtomicU64,
}

impl Pool<'_> {
    fn work(&self, n: usize) {
        let (sf, of) = (
            format!("{}/w{n}.st", self.cfg.tmp),
            format!("{}/w{n}.out", self.cfg.tmp),
        );
        blank(&sf);
        let st = Status::open(&sf);
        loop {
            if self.stop.load(Ordering::SeqCst) {
                return;
            }
            let left = self
                .deadline
                .saturating_duration_since(Instant::now())
                .as_secs();
            if left == 0 {
                return;
            }
            let Some(j) = self.queue.lock().unwrap().pop_front() else {
                return;
            };
            for i in 0..3 {
                st.set(i, 0);
            }
            let _ = std::fs::remove_file(&of);
            let mut c = Command::new(&self.cfg.bins[j.profile]);
            c.args([
                "worker",
                &self.cfg.prop,
                &self.cfg.seed.to_string(),
                &j.first.to_string(),
                "1",
                &j.count.to_string(),
                &left.to_string(),
                &sf,
                &of,
            ]);
            let r = child(c, HANG, &st);
            let at = st.get(0);
            let end = match r {
                Ok((0, _)) => {
                    self.absorb(&of, j.profile);
                    None
                }
                Ok((3, _)) => self.absorb(&of, j.profile),
                Ok((2, _)) => {
                    *self.trouble.lock().unwrap() = Some("a worker could not run".into());
                    self.stop.store(true, Ordering::SeqCst);
                    return;
                }
                r if st.get(2) == 0 => {
                    // It never got to its first run.
                    *self.trouble.lock().unwrap() = Some(format!("a worker did not start: {r:?}"));
                    self.stop.store(true, Ordering::SeqCst);
                    return;
                }
                r => {
                    let how = match r {
                        Ok((c, _)) => format!("ended with status {c}"),
                        Err(e) => e,
                    };
                    let plan = gen::plan(self.cfg.bit.trailing_zeros(), self.cfg.seed, at);
                    self.totals.lock().unwrap().runs[j.profile] += at + 1 - j.first;
                    Some((at, died(&plan, st.get(1) as u32, how)))
                }
            };
            let Some((n, end)) = end else { continue };
            let rest = (j.first + j.count).saturating_sub(n + 1);
            if rest > 0 {
                self.queue.lock().unwrap().push_back(Job {
                    profile: j.profile,
                    first: n + 1,
                    count: rest,
                });
            }
            let direct = end.direct(self.cfg.bit);
            let mut f = self.found.lock().unwrap();
            f.push(Found {
                profile: j.profile,
                n,
                end,
            });
            if direct || f.len() >= MAX_ALARMS {
                self.stop.store(true, Ordering::SeqCst);
            }
        }
    }

    /// Adds a worker's report to the totals.
    fn absorb(&self, file: &str, profile: usize) -> Option<(u64, End)> {
        let text = std::fs::read_to_string(file).unwrap_or_default();
        let mut t = self.totals.lock().unwrap();
        let mut found = None;
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            match f[0] {
                "alarm" => {
                    if let Some(e) = parse_end(&f[2..]) {
                        found = Some((num(1), e));
                    }
                }
                "stat" => {
                    if f[1] == "runs" {
                        t.runs[profile] += num(2);
                    }
                    let e = t.stat.entry(f[1].into()).or_default();
                    match f[1] {
                        "longest" => *e = (*e).max(num(2)),
                        "chain" => *e ^= num(2),
                        _ => *e += num(2),
                    }
                }
                "cb" => {
                    let e = t.cb.entry(f[1].into()).or_default();
                    e.0 += num(2);
                    e.1 += num(3);
                }
                "probe" => *t.probe.entry(f[1].into()).or_default() += num(2),
                "kind" => *t.kind.entry(f[1].into()).or_default() += num(2),
                "s" => {
                    t.states.insert(u64::from_str_radix(f[1], 16).unwrap_or(0));
                }
                "d" => {
                    t.distinct
                        .insert(u64::from_str_radix(f[1], 16).unwrap_or(0));
                }
                _ => {}
            }
        }
        found
    }
}

/// Runs the first programs once more, in another process.
fn chain(cfg: &Cfg, profile: usize, first: u64, n: u64, tag: &str) -> Option<String> {
    let (sf, of) = (
        format!("{}/c{tag}.st", cfg.tmp),
        format!("{}/c{tag}.out", cfg.tmp),
    );
    blank(&sf);
    let st = Status::open(&sf);
    let mut c = Command::new(&cfg.bins[profile]);
    c.env("SIM_NOISE", "x".repeat(tag.len() * 700)).args([
        "worker",
        &cfg.prop,
        &cfg.seed.to_string(),
        &first.to_string(),
        "1",
        &n.to_string(),
        "600",
        &sf,
        &of,
    ]);
    match child(c, HANG, &st) {
        Ok((0, _)) => {
            let t = std::fs::read_to_string(&of).ok()?;
            let mut l: Vec<&str> = t.lines().collect();
            l.sort_unstable();
            Some(l.join("\n"))
        }
        _ => None,
    }
}

// ---- minimisation ----

fn minimise(cfg: &Cfg, f: &Found, plan: Plan, end: End, tag: &str) -> (Plan, End) {
    let (mut best, mut best_end) = (plan, end);
    let want_class = best_end.class.clone();
    let direct = best_end.direct(cfg.bit);
    let t = Instant::now();
    let mut tries = 0;
    let test = |cand: &Plan, tries: &mut usize| -> Option<End> {
        if *tries > 700 || t.elapsed() > Duration::from_secs(60) {
            return None;
        }
        *tries += 1;
        let e = attempt(cfg, f.profile, cand, tag)?;
        (e.class == want_class && (!direct || e.direct(cfg.bit))).then_some(e)
    };
    let with = |base: &Plan, ops: Vec<crate::world::Op>| Plan {
        kind: base.kind,
        seed: base.seed,
        ops,
    };
    // Nothing after the operation that failed matters.
    if let Some(i) = best.ops.iter().position(|o| o.id == best_end.op) {
        let c = with(&best, best.ops[..=i].to_vec());
        if let Some(e) = test(&c, &mut tries) {
            (best, best_end) = (c, e);
        }
    }
    loop {
        let before = (best.ops.len(), best.ops.iter().map(weight).sum::<u64>());
        // Drop operations, in ever smaller groups.
        let mut size = best.ops.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() {
                let mut ops = best.ops.clone();
                ops.drain(i..(i + size).min(ops.len()));
                let c = with(&best, ops);
                match test(&c, &mut tries) {
                    Some(e) => (best, best_end) = (c, e),
                    None => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size = size.div_ceil(2);
        }
        // Drop and simplify faults and arguments.
        for i in 0..best.ops.len() {
            let mut cands = Vec::new();
            let o = best.ops[i];
            if o.f != Flt::default() {
                cands.push(crate::world::Op {
                    f: Flt::default(),
                    ..o
                });
                for k in 0..4 {
                    let mut x = o;
                    match k {
                        0 => (x.f.nth, x.f.cnt) = (0, 0),
                        1 => x.f.all = false,
                        2 => x.f.limit = None,
                        _ => x.f.cb = 0,
                    }
                    cands.push(x);
                }
                if o.f.cnt > 1 {
                    let mut x = o;
                    x.f.cnt = 1;
                    cands.push(x);
                }
                if o.f.limit.is_some_and(|d| d != 0) {
                    let mut x = o;
                    x.f.limit = Some(0);
                    cands.push(x);
                }
            }
            for k in 0..o.a.len() {
                for v in [0, o.a[k] % 840, o.a[k] % 40, o.a[k] & 0xff] {
                    let mut x = o;
                    x.a[k] = v;
                    cands.push(x);
                }
            }
            if o.k == OpK::InsertWith {
                cands.push(crate::world::Op {
                    k: OpK::PushWith,
                    ..o
                });
            }
            for x in cands {
                if weight(&x) >= weight(&best.ops[i]) {
                    continue;
                }
                // Combine with what already succeeded for this operation.
                let cur = best.ops[i];
                let mut y = cur;
                y.k = if x.k != o.k { x.k } else { cur.k };
                if x.f != o.f {
                    y.f = x.f;
                }
                for k in 0..y.a.len() {
                    if x.a[k] != o.a[k] {
                        y.a[k] = x.a[k];
                    }
                }
                if weight(&y) >= weight(&cur) {
                    continue;
                }
                let mut ops = best.ops.clone();
                ops[i] = y;
                let c = with(&best, ops);
                if let Some(e) = test(&c, &mut tries) {
                    (best, best_end) = (c, e);
                }
            }
        }
        if (best.ops.len(), best.ops.iter().map(weight).sum::<u64>()) == before {
            break;
        }
    }
    (best, best_end)
}

fn weight(o: &crate::world::Op) -> u64 {
    let f = &o.f;
    let args: u64 =
        o.a.iter()
            .map(|&a| 64 - (a as u64).leading_zeros() as u64)
            .sum();
    args + (o.k == OpK::InsertWith) as u64
        + 40 * ((f.nth > 0) as u64 + f.all as u64 + f.limit.is_some() as u64 + (f.cb > 0) as u64)
        + f.cnt as u64
        + f.limit.is_some_and(|d| d != 0) as u64
}

// ---- evidence ----

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn obj<K: AsRef<str>>(m: impl IntoIterator<Item = (K, String)>) -> String {
    let v: Vec<String> = m
        .into_iter()
        .map(|(k, v)| format!("{}: {v}", esc(k.as_ref())))
        .collect();
    format!("{{{}}}", v.join(", "))
}

/// One run, written out.
fn sample(cfg: &Cfg, n: u64, tag: &str) -> String {
    let plan = gen::plan(cfg.bit.trailing_zeros(), cfg.seed, n);
    let f = format!("{}/sample-{tag}.txt", cfg.tmp);
    std::fs::write(&f, gen::show(&plan)).unwrap();
    let out = Command::new(&cfg.bins[0])
        .args(["replay", &f])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output();
    let text = out
        .map(|o| String::from_utf8_lossy(&o.stdout).into_owned())
        .unwrap_or_default();
    let mut s: String = text.chars().take(3000).collect();
    if s.len() < text.len() {
        s += "...";
    }
    format!("run {n}: {s}")
}

struct Report<'a> {
    totals: &'a Totals,
    wall: f64,
    sim_wall: f64,
    violations: usize,
    deterministic: &'a str,
    notes: Vec<String>,
}

fn evidence(cfg: &Cfg, r: &Report) {
    let t = r.totals;
    let runs = t.runs[0] + t.runs[1];
    let get = |k: &str| t.stat.get(k).copied().unwrap_or(0);
    let mut faults: BTreeMap<String, u64> = t
        .stat
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("f_").map(|k| (format!("allocator_{k}"), *v)))
        .collect();
    for (k, (_, fired)) in &t.cb {
        faults.insert(format!("caller_code_fails_at_{k}"), *fired);
    }
    let samples: Vec<String> = (0..2)
        .map(|i| esc(&sample(cfg, i, &i.to_string())))
        .collect();
    let n = |v: u64| v.to_string();
    let coverage = obj([
        ("evaluations", n(runs)),
        ("distinct_nontrivial", n(t.distinct.len() as u64)),
        ("rule", esc("One evaluation is one simulated run: a program of 4 to 70 operations on up to three vectors of one element type, generated from one seed with swarm-style weights for this property, together with the faults (allocator refusals, caller code unwinding or failing) it meets. It counts as non-trivial if at least one injected fault took effect; runs are distinct if their hashes over every operation, its outcome, every heap request and the resulting capacities differ.")),
        ("samples", format!("[{}]", samples.join(", "))),
        ("runs_checked_profile", n(t.runs[0])),
        ("runs_shipped_profile", n(t.runs[1])),
        ("seeds_per_hour", n((runs as f64 / r.sim_wall.max(0.001) * 3600.0) as u64)),
        ("simulated_time_logical_steps", obj([
            ("operations", n(get("steps"))),
            ("heap_requests", n(get("heap_requests"))),
            ("caller_code_events", n(t.cb.values().map(|x| x.0).sum())),
            ("longest_program", n(get("longest"))),
        ])),
        ("faults_fired", obj(faults.into_iter().map(|(k, v)| (k, n(v))))),
        ("caller_code_events_seen", obj(t.cb.iter().map(|(k, v)| (k, n(v.0))))),
        ("distinct_situations", n(t.states.len() as u64)),
        ("distinct_situations_measure", esc("distinct (element type, operation and form, length class, spare room class, alignment class, position class, faults fired, outcome) tuples")),
        ("rare_situations_reached", obj(t.probe.iter().map(|(k, v)| (k, n(*v))))),
        ("runs_per_element_type", obj(t.kind.iter().map(|(k, v)| (k, n(*v))))),
        ("determinism_self_check", esc(r.deterministic)),
        ("real_components", "[\"unsized-vec (all of src)\", \"emplacable (all of src)\", \"alloc/std collections and smart pointers\", \"serde traits\"]".into()),
        ("stub_components", "[\"global allocator (simulated heap)\", \"element types, producers, receivers, iterators, serializers and formatters (instrumented caller code)\"]".into()),
        ("notes", format!("[{}]", r.notes.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "))),
    ]);
    let text = obj([
        ("property", esc(&cfg.prop)),
        ("tier", esc(&cfg.tier)),
        ("seed", n(cfg.seed)),
        ("level", esc("exploration")),
        ("coverage", coverage),
        ("assumptions", "[\"runs are sampled, not enumerated\", \"the code is single-threaded; the crates have no threads, clocks or I/O of their own\", \"x86-64, the pinned nightly compiler\"]".into()),
        ("wall_s", format!("{:.2}", r.wall)),
        ("violations", n(r.violations as u64)),
    ]);
    let dir = format!("{}/evidence", cfg.root);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", cfg.prop), text + "\n").unwrap();
}

fn save_replay(cfg: &Cfg, profile: usize, n: u64, plan: &Plan, end: &End, index: usize) -> String {
    let dir = format!("{}/replays", cfg.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{index}.txt", cfg.prop, cfg.seed);
    let mut s = format!(
        "# property {}\n# profile {}\n# VERIF_SEED {} run {n}\n# {} at operation {} ({}): {}\n",
        cfg.prop, PROFILES[profile], cfg.seed, end.class, end.op, end.name, end.msg
    );
    s += &format!(
        "# element type {}; replay with: /verif/replay.sh {path}\n",
        work::kind_name(plan.kind)
    );
    s += &gen::show(plan);
    std::fs::write(&path, s).unwrap();
    path
}

/// The findings on record for this property: scenario, description.
fn known(cfg: &Cfg) -> Vec<(String, String)> {
    let text =
        std::fs::read_to_string(format!("{}/known_findings.txt", cfg.root)).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("property={} ", cfg.prop))?;
            let (s, d) = l.split_once(' ')?;
            Some((s.strip_prefix("scenario=")?.to_string(), d.to_string()))
        })
        .collect()
}

fn scenarios(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["F9-length"],
        "C02" => &["F9-drop"],
        _ => &[],
    }
}

/// check PROP TIER SEED CHECKED SHIPPED ROOT
pub fn main(a: &[&str]) -> i32 {
    if a.len() < 6 {
        eprintln!("usage: sim check PROP TIER SEED CHECKED SHIPPED ROOT");
        return 2;
    }
    let t0 = Instant::now();
    let num: u32 = a[0].trim_start_matches('C').parse().unwrap();
    let cfg = Cfg {
        prop: a[0].into(),
        bit: p(num),
        tier: a[1].into(),
        seed: a[2].parse().unwrap_or(1),
        bins: [a[3].into(), a[4].into()],
        root: a[5].into(),
        tmp: format!("{}/target/run/{}-{}", a[5], a[0], std::process::id()),
    };
    std::fs::create_dir_all(&cfg.tmp).unwrap();
    let code = checked(&cfg, t0);
    let _ = std::fs::remove_dir_all(&cfg.tmp);
    code
}

fn checked(cfg: &Cfg, t0: Instant) -> i32 {
    let env = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
    let (total, secs) = if cfg.tier == "thorough" {
        (u64::MAX, env("SIM_SECONDS").unwrap_or(600))
    } else {
        (
            env("SIM_RUNS").unwrap_or(240_000),
            env("SIM_SECONDS").unwrap_or(60),
        )
    };
    println!("{} {} VERIF_SEED={}", cfg.prop, cfg.tier, cfg.seed);

    // Findings on record.
    let mut notes = Vec::new();
    let mut fatal = Vec::new();
    let listed = known(cfg);
    for s in scenarios(&cfg.prop) {
        let st = Command::new(&cfg.bins[0])
            .args(["known", s])
            .stderr(Stdio::null())
            .status();
        let fails = st.map_or(true, |s| s.code() != Some(0));
        match (fails, listed.iter().find(|(n, _)| n == s)) {
            (true, Some((_, d))) => println!("KNOWN-FINDING: property={} {d}", cfg.prop),
            (true, None) => fatal.push(s.to_string()),
            (false, Some(_)) => {
                notes.push(format!("the finding {s} on record does not show any more"))
            }
            (false, None) => {}
        }
    }

    // Seeds for the workers: both builds, in chunks.
    let chunk = 1500u64;
    let mut queue = VecDeque::new();
    if total == u64::MAX {
        for i in 0..200_000u64 {
            let (profile, base) = ((i % 2) as usize, (i % 2) << 40);
            queue.push_back(Job {
                profile,
                first: base + i / 2 * 10_000,
                count: 10_000,
            });
        }
    } else {
        for i in 0..total.div_ceil(chunk) {
            let (profile, base) = ((i % 2) as usize, (i % 2) << 40);
            queue.push_back(Job {
                profile,
                first: base + i / 2 * chunk,
                count: chunk,
            });
        }
    }
    let ts = Instant::now();
    let pool = Pool {
        cfg,
        queue: Mutex::new(queue),
        totals: Mutex::new(Totals::default()),
        found: Mutex::new(Vec::new()),
        stop: AtomicBool::new(false),
        trouble: Mutex::new(None),
        deadline: Instant::now() + Duration::from_secs(secs),
        tags: AtomicU64::new(0),
    };
    let threads = std::thread::available_parallelism()
        .map_or(4, |n| n.get())
        .min(32);
    std::thread::scope(|s| {
        for n in 0..threads {
            let pool = &pool;
            s.spawn(move || pool.work(n));
        }
    });
    let sim_wall = ts.elapsed().as_secs_f64();
    let mut found = pool.found.lock().unwrap().clone();
    let totals = std::mem::take(&mut *pool.totals.lock().unwrap());
    if let (Some(m), true) = (&*pool.trouble.lock().unwrap(), found.is_empty()) {
        eprintln!("error: {m}");
        return 2;
    }

    // Same seeds, same events?
    let mut deterministic = String::new();
    if found.is_empty() {
        for profile in 0..2 {
            let first = (profile as u64) << 40;
            let n = if cfg.tier == "thorough" { 3000 } else { 400 };
            let x = chain(cfg, profile, first, n, "a");
            let y = chain(cfg, profile, first, n, "bb");
            if x.is_none() || x != y {
                eprintln!(
                    "error: two executions of the same seeds differ ({})",
                    PROFILES[profile]
                );
                return 2;
            }
            let _ = write!(
                deterministic,
                "{n} {} runs repeated in another process: identical reports. ",
                PROFILES[profile]
            );
        }
    } else {
        deterministic = "not run: there were alarms".into();
    }

    // Those that are evidence by themselves first; in a fixed order.
    found.sort_by_key(|f| (!f.end.direct(cfg.bit), !f.end.any(cfg.bit), f.profile, f.n));
    let mut seen = HashSet::new();
    let mut confirmed: Vec<(String, End)> = Vec::new();
    let mut minimised = 0;
    for f in &found {
        if !confirmed.is_empty() {
            break;
        }
        if minimised >= MAX_MINIMISED
            || !seen.insert((f.end.class.clone(), f.end.name.clone(), f.end.domain))
        {
            continue;
        }
        minimised += 1;
        let plan = gen::plan(num_of(cfg), cfg.seed, f.n);
        let tag = pool.tags.fetch_add(1, Ordering::SeqCst).to_string();
        let (whole, end) = match attempt(cfg, f.profile, &plan, &tag) {
            Some(e) => (plan, e),
            None => {
                notes.push(format!(
                    "run {} ({}) did not fail again: {}",
                    f.n, PROFILES[f.profile], f.end.msg
                ));
                (plan, f.end.clone())
            }
        };
        let (small, e) = minimise(cfg, f, whole, end, &tag);
        // A fresh process must show the same.
        let again = attempt(cfg, f.profile, &small, &tag);
        let same = again
            .as_ref()
            .is_some_and(|x| x.class == e.class && x.op == e.op);
        if e.any(cfg.bit) && (same || f.end.direct(cfg.bit)) {
            let path = save_replay(cfg, f.profile, f.n, &small, &e, confirmed.len());
            println!(
                "# {} at operation {} ({}): {}",
                e.class, e.op, e.name, e.msg
            );
            println!(
                "# run {} of VERIF_SEED {}, {} build, {} operations after minimisation",
                f.n,
                cfg.seed,
                PROFILES[f.profile],
                small.ops.len()
            );
            confirmed.push((path, e));
        } else {
            let m = format!(
                "an alarm outside this property: {} at {}: {}",
                e.class, e.name, e.msg
            );
            println!("note: {m}");
            notes.push(m);
        }
    }
    for s in &fatal {
        let dir = format!("{}/replays", cfg.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{s}.txt", cfg.prop);
        std::fs::write(
            &path,
            format!("# property {}\n# profile checked\nscenario {s}\n", cfg.prop),
        )
        .unwrap();
        confirmed.push((
            path,
            End {
                class: "Scenario".into(),
                props: cfg.bit,
                domain: 0,
                op: 0,
                name: s.clone(),
                msg: s.clone(),
            },
        ));
    }
    evidence(
        cfg,
        &Report {
            totals: &totals,
            wall: t0.elapsed().as_secs_f64(),
            sim_wall,
            violations: confirmed.len(),
            deterministic: &deterministic,
            notes,
        },
    );
    for (path, _) in &confirmed {
        println!("VIOLATION property={} replay={path}", cfg.prop);
    }
    println!(
        "{}: {} runs, {} with faults distinct, {} situations, {:.1} s",
        cfg.prop,
        totals.runs[0] + totals.runs[1],
        totals.distinct.len(),
        totals.states.len(),
        t0.elapsed().as_secs_f64()
    );
    if confirmed.is_empty() {
        0
    } else {
        1
    }
}

fn num_of(cfg: &Cfg) -> u32 {
    cfg.bit.trailing_zeros()
}
