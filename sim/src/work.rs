//! Running programs: many from seeds (worker), or one from a file (replay).

use crate::gen::{self, Plan};
use crate::heap;
use crate::kinds::Kind;
use crate::reg::{self, Alarm, Class, CB_NAMES};
use crate::rng::mix2;
use crate::world::*;
use std::fmt::Write as _;
use std::os::fd::AsRawFd;
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}

/// Progress that outlives a crash of the process.
pub struct Status(*mut u64);
unsafe impl Send for Status {}

impl Drop for Status {
    fn drop(&mut self) {
        unsafe { munmap(self.0.cast(), 4096) };
    }
}

impl Status {
    pub fn open(path: &str) -> Status {
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .open(path)
            .unwrap();
        // PROT_READ|PROT_WRITE, MAP_SHARED
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        Status(p.cast())
    }
    pub fn get(&self, i: usize) -> u64 {
        unsafe { self.0.add(i).read_volatile() }
    }
    pub fn set(&self, i: usize, v: u64) {
        unsafe { self.0.add(i).write_volatile(v) }
    }
}

fn new_world(kind: u32, seed: u64) -> Box<dyn AnyWorld> {
    fn w<K: Kind>(seed: u64) -> Box<dyn AnyWorld> {
        Box::new(World::<K>::new(seed))
    }
    macro_rules! make {
        ($($n:literal => $k:ty, $s:literal;)*) => {
            match kind % crate::kinds::KINDS {
                $($n => w::<$k>(seed),)*
                _ => unreachable!(),
            }
        };
    }
    crate::all_kinds!(make)
}

pub fn kind_name(kind: u32) -> &'static str {
    macro_rules! name {
        ($($n:literal => $k:ty, $s:literal;)*) => {
            match kind % crate::kinds::KINDS {
                $($n => $s,)*
                _ => unreachable!(),
            }
        };
    }
    crate::all_kinds!(name)
}

/// Runs one program. `at` is told which operation is next.
pub fn run_plan(p: &Plan, at: &dyn Fn(u32)) -> Option<Alarm> {
    heap::reset();
    reg::reset();
    NEXT_UID.0.set(1);
    RUN_HASH.0.set(0);
    RUN_FAULTS.0.set(0);
    RUN_DOMAIN.0.set(0);
    let mut w = new_world(p.kind, p.seed);
    for o in &p.ops {
        if heap::exhausted() || reg::exhausted() {
            probe("run ended early: simulated memory used up");
            break;
        }
        at(o.id);
        if let Some(n) = w.exec(o) {
            w = n;
        }
        if reg::alarmed() || heap::is_bad() {
            break;
        }
    }
    at(u32::MAX);
    if !reg::alarmed() && !heap::is_bad() {
        w.finish();
    }
    alarm_bad();
    let a = reg::ALARM.0.borrow_mut().take();
    // After a violation nothing of the world can be trusted.
    std::mem::forget(w);
    RUN_HASH.0.set(mix2(RUN_HASH.0.get(), heap::run_hash()));
    a
}

fn class_name(c: Class) -> String {
    format!("{c:?}")
}

pub fn alarm_line(a: &Alarm, p: &Plan) -> String {
    let op = p
        .ops
        .iter()
        .find(|o| o.id == a.op)
        .map_or("end", |o| o.k.name());
    format!(
        "{}\t{}\t{}\t{}\t{}\t{}",
        class_name(a.class),
        a.props,
        RUN_DOMAIN.0.get(),
        a.op,
        op,
        a.msg.replace(['\n', '\t'], " ")
    )
}

fn start(prop: &str) -> u32 {
    heap::init();
    install_hooks();
    prop.trim_start_matches('C').parse().unwrap()
}

/// worker PROP BASE FIRST STRIDE COUNT SECONDS STATUS OUT
pub fn worker(a: &[&str]) -> i32 {
    let prop = start(a[0]);
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (base, first, stride, count, secs) = (n(1), n(2), n(3), n(4), n(5));
    let st = Status::open(a[6]);
    *STATES.0.borrow_mut() = Some(Default::default());
    let t = Instant::now();
    let mut out = String::new();
    let mut code = 0;
    let (mut done, mut steps_max, mut chain) = (0u64, 0usize, 0u64);
    let mut faulty = 0u64;
    let mut distinct = std::collections::HashSet::new();
    let mut kinds = [0u64; crate::kinds::KINDS as usize];
    for i in 0..count {
        if i % 16 == 0 && t.elapsed() > Duration::from_secs(secs) {
            break;
        }
        let s = first + i * stride;
        st.set(0, s);
        st.set(2, i + 1);
        let p = gen::plan(prop, base, s);
        steps_max = steps_max.max(p.ops.len());
        kinds[(p.kind % crate::kinds::KINDS) as usize] += 1;
        let r = run_plan(&p, &|o| st.set(1, o as u64));
        done += 1;
        chain = mix2(chain, RUN_HASH.0.get());
        if RUN_FAULTS.0.get() > 0 {
            faulty += 1;
            distinct.insert(RUN_HASH.0.get());
        }
        if let Some(a) = r {
            let _ = writeln!(out, "alarm\t{s}\t{}", alarm_line(&a, &p));
            code = 3;
            break;
        }
    }
    let h = heap::stats();
    for (k, v) in [
        ("runs", done),
        ("steps", STEPS.0.get()),
        ("longest", steps_max as u64),
        ("faulty", faulty),
        ("chain", chain),
        ("heap_requests", h.reqs),
        ("f_refuse_nth", h.nth),
        ("f_refuse_all", h.all),
        ("f_refuse_above_strict_need", h.limit),
        ("f_refuse_too_big_for_machine", h.natural),
        ("f_realloc_moved", h.moved),
        ("f_realloc_in_place", h.inplace),
        ("f_least_alignment_placement", h.skewed),
    ] {
        let _ = writeln!(out, "stat\t{k}\t{v}");
    }
    for (k, seen, fired) in reg::cb_stats() {
        let _ = writeln!(out, "cb\t{k}\t{seen}\t{fired}");
    }
    for (k, v) in PROBES.0.borrow().iter() {
        let _ = writeln!(out, "probe\t{k}\t{v}");
    }
    for (k, v) in kinds.iter().enumerate() {
        let _ = writeln!(out, "kind\t{}\t{v}", kind_name(k as u32));
    }
    for s in STATES.0.borrow().as_ref().unwrap() {
        let _ = writeln!(out, "s\t{s:x}");
    }
    for s in distinct {
        let _ = writeln!(out, "d\t{s:x}");
    }
    std::fs::write(a[7], out).unwrap();
    code
}

/// try FILE [STATUS] / replay FILE: one program from its file. Exit 3 on a violation.
pub fn attempt(a: &[&str], verbose: bool) -> i32 {
    heap::init();
    install_hooks();
    let text = std::fs::read_to_string(a[0]).unwrap();
    if let Some(s) = text.lines().find_map(|l| l.strip_prefix("scenario ")) {
        return crate::known::main(&[s]);
    }
    let st = a.get(1).map(|s| Status::open(s));
    let p = gen::parse(&text).expect("malformed replay file");
    if verbose {
        println!(
            "kind {} seed {} operations {}",
            kind_name(p.kind),
            p.seed,
            p.ops.len()
        );
    }
    *TRACE.0.borrow_mut() = Some(Vec::new());
    let shown = std::cell::Cell::new(0);
    let flush = |next: Option<u32>| {
        if !verbose {
            return;
        }
        let t = TRACE.0.borrow();
        let t = t.as_ref().unwrap();
        for l in &t[shown.get()..] {
            println!("    {l}");
        }
        shown.set(t.len());
        if let Some(o) = next.and_then(|n| p.ops.iter().find(|o| o.id == n)) {
            println!("{:>4} {} {:?}", o.id, o.k.name(), o.f);
        }
        use std::io::Write;
        let _ = std::io::stdout().flush();
    };
    let r = run_plan(&p, &|o| {
        if let Some(s) = &st {
            s.set(1, o as u64);
        }
        flush(Some(o))
    });
    flush(None);
    match r {
        Some(al) => {
            println!("ALARM\t{}", alarm_line(&al, &p));
            3
        }
        None => {
            println!("OK\t{}\t{:x}", RUN_DOMAIN.0.get(), RUN_HASH.0.get());
            0
        }
    }
}

#[allow(dead_code)]
const _: [&str; crate::reg::NCB] = CB_NAMES;
