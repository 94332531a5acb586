//! The explorer: runs every member of a list of finite spaces against the real code.
//!
//! A *supervisor* process starts a *worker* process; the worker explores with one thread per core.
//! Panics of the code under test are caught in the worker. Aborts, segmentation faults, stack
//! overflows and hangs end the worker; the supervisor then re-runs the members that were in flight
//! one by one in fresh processes, and only a member that fails again on its own is reported.
use crate::json::esc;
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
}

/// stack of a worker thread: what a Rust thread gets by default (frames are larger under ASan)
pub const STACK: usize = if cfg!(feature = "ub") { 8 << 20 } else { 2 << 20 };

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// what one thread carries along: scratch memory and counters
#[derive(Default)]
pub struct W {
    pub oracle: crate::oracle::Scratch,
    pub case: crate::case::Case,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    /// members of the index range that are not members of the space
    pub filtered: u64,
    outcomes: Vec<u64>,
}

impl W {
    /// records a hash of what was observed, to see how many different outcomes were reached
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.is_empty() {
            self.outcomes = vec![0; OUTCOME_BITS / 64];
        }
        let b = (h.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20) as usize % OUTCOME_BITS;
        self.outcomes[b / 64] |= 1 << (b % 64);
    }
}

const OUTCOME_BITS: usize = 1 << 22;

/// A finite set of executions, indexed 0..len.
pub trait Space: Sync + Send {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    /// Run execution `i`. Err: the property is broken by it.
    fn run(&self, i: u64, w: &mut W) -> Result<(), String>;
    /// the execution written out
    fn describe(&self, i: u64) -> String;
    /// Rust source that reproduces the execution, where that makes sense
    fn snippet(&self, _i: u64) -> String {
        String::new()
    }
    /// an execution that takes longer than this has not terminated
    fn time_limit_s(&self) -> u64 {
        20
    }
    /// whether ending the process by a signal breaks the property here
    fn abort_is_violation(&self, _stderr: &str) -> bool {
        true
    }
    /// whether not ending within the time limit breaks the property here
    fn hang_is_violation(&self) -> bool {
        true
    }
    fn chunk(&self) -> u64 {
        64
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDED: RefCell<bool> = const { RefCell::new(false) };
}

/// Runs code under test; a panic in it is an observation, not an error of the explorer.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = GUARDED.with(|g| g.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARDED.with(|g| g.replace(before));
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| {
                let f = l.file().rsplit('/').next().unwrap_or("").to_string();
                format!("{f}:{}", l.line())
            })
            .unwrap_or_default();
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") {
            // this one ends the process, whatever is guarded; the supervisor reads it
            eprintln!("{msg} at {loc}");
        } else if !GUARDED.with(|g| *g.borrow()) {
            eprintln!("engine panic: {msg} at {loc}");
        }
        PANIC.with(|p| *p.borrow_mut() = format!("panic \"{msg}\" at {loc}"));
    }));
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

fn limit_memory(gb: u64) {
    if cfg!(feature = "ub") {
        // the shadow memory of the sanitizer is larger than that
        return;
    }
    let l = [gb << 30, gb << 30];
    unsafe {
        setrlimit(9, &l); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // RLIMIT_CORE
    }
}

/// per thread: [space + 1, index] of the execution in flight, in a file shared with the supervisor
struct Slots(*mut u64);
unsafe impl Sync for Slots {}
const SLOTS: usize = 16;

impl Slots {
    fn open(path: &str) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .unwrap();
        f.set_len((SLOTS * 16) as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * 16, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap failed");
        Slots(p as *mut u64)
    }
    fn set(&self, t: usize, space: usize, i: u64) {
        unsafe {
            self.0.add(2 * t + 1).write_volatile(i);
            self.0.add(2 * t).write_volatile(space as u64 + 1);
        }
    }
    fn clear(&self, t: usize) {
        unsafe { self.0.add(2 * t).write_volatile(0) }
    }
    fn read(&self) -> Vec<(usize, u64)> {
        (0..SLOTS)
            .filter_map(|t| unsafe {
                let s = self.0.add(2 * t).read_volatile();
                (s > 0).then(|| (s as usize - 1, self.0.add(2 * t + 1).read_volatile()))
            })
            .collect()
    }
}

pub struct Plan {
    pub property: String,
    pub tier: Tier,
    pub spaces: Vec<Box<dyn Space>>,
    pub assumptions: Vec<String>,
    /// name of the build this is (release, checked, f32 ...)
    pub build: String,
}

fn known_findings(prop: &str) -> HashSet<String> {
    let mut s = HashSet::new();
    if let Ok(t) = std::fs::read_to_string("known-findings.txt") {
        for l in t.lines() {
            // known: property=C01 case=<description> -- comment
            if let Some(r) = l.strip_prefix(&format!("known: property={prop} case=")) {
                s.insert(r.split(" -- ").next().unwrap().trim().to_string());
            }
        }
    }
    s
}

#[derive(Default, Clone)]
struct SpaceResult {
    done: u64,
    members: u64,
    complete: bool,
    wall: f64,
    states: u64,
    transitions: u64,
    traces: u64,
}

impl SpaceResult {
    fn line(&self) -> String {
        format!(
            "{} {} {} {} {} {} {}",
            self.done, self.members, self.complete as u8, self.wall, self.states, self.transitions, self.traces
        )
    }
    fn parse(l: &str) -> Option<SpaceResult> {
        let v: Vec<f64> = l.split(' ').map(|x| x.parse().ok()).collect::<Option<_>>()?;
        let n = |k: usize| v.get(k).map(|x| *x as u64);
        Some(SpaceResult {
            done: n(0)?,
            members: n(1)?,
            complete: n(2)? == 1,
            wall: *v.get(3)?,
            states: n(4)?,
            transitions: n(5)?,
            traces: n(6)?,
        })
    }
}

/// the worker process; returns the exit code
pub fn worker(plan: &Plan, slot_file: &str, out_file: &str, budget_s: u64, skip: &[(usize, u64)]) -> i32 {
    limit_memory(24);
    let slots = Slots::open(slot_file);
    let nthreads = threads();
    let started = Instant::now();
    let known = known_findings(&plan.property);
    let known_hits = Mutex::new(Vec::<String>::new());
    let beat: Vec<(AtomicU64, AtomicU64)> = (0..nthreads).map(|_| Default::default()).collect();
    let total = Mutex::new(W::default());
    total.lock().unwrap().outcomes = vec![0; OUTCOME_BITS / 64];
    // the spaces that a worker before this one has finished
    let progress = format!("{out_file}.progress");
    let mut results: Vec<SpaceResult> = std::fs::read_to_string(&progress)
        .unwrap_or_default()
        .lines()
        .filter_map(SpaceResult::parse)
        .collect();
    let first = results.len();
    let mut violation: Option<(usize, u64, String)> = None;
    let limit = AtomicU64::new(20);
    let finished = AtomicBool::new(false);
    let engine_failure = AtomicBool::new(false);

    std::thread::scope(|outer| {
        // watchdog: an execution that does not end
        outer.spawn(|| {
            while !finished.load(Acquire) {
                std::thread::sleep(Duration::from_millis(50));
                let now = started.elapsed().as_millis() as u64;
                for b in &beat {
                    let t0 = b.0.load(Acquire);
                    if t0 > 0 && now > t0 + limit.load(Acquire) * 1000 {
                        eprintln!("watchdog: an execution runs for more than its time limit");
                        std::process::exit(20);
                    }
                }
            }
        });
        for (si, sp) in plan.spaces.iter().enumerate().skip(first) {
            let t0 = Instant::now();
            let before = {
                let g = total.lock().unwrap();
                (g.states, g.transitions, g.traces)
            };
            let len = sp.len();
            limit.store(sp.time_limit_s(), Release);
            let next = AtomicU64::new(0);
            let stop_at = AtomicU64::new(u64::MAX);
            let capped = AtomicBool::new(false);
            let found = Mutex::new(None::<(u64, String)>);
            let done = AtomicU64::new(0);
            let members = AtomicU64::new(0);
            let chunk = sp.chunk();
            std::thread::scope(|s| {
                for t in 0..nthreads {
                    let (next, stop_at, capped, found, done, members, slots, beat, total, known, known_hits, sp) = (
                        &next, &stop_at, &capped, &found, &done, &members, &slots, &beat[t], &total, &known,
                        &known_hits, sp,
                    );
                    let engine_failure = &engine_failure;
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s, move || {
                            let mut w = W::default();
                            let body = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| loop {
                                let a = next.fetch_add(chunk, Relaxed);
                                if a >= len || a >= stop_at.load(Acquire) {
                                    break;
                                }
                                if started.elapsed().as_secs() >= budget_s {
                                    capped.store(true, Release);
                                    break;
                                }
                                let b = (a + chunk).min(len);
                                let f0 = w.filtered;
                                for i in a..b {
                                    if skip.contains(&(si, i)) {
                                        continue;
                                    }
                                    slots.set(t, si, i);
                                    beat.0.store(started.elapsed().as_millis() as u64 + 1, Release);
                                    if let Err(m) = sp.run(i, &mut w) {
                                        let d = format!("{} :: {}", sp.name(), sp.describe(i));
                                        if known.contains(&d) {
                                            known_hits.lock().unwrap().push(d);
                                        } else {
                                            let mut g = found.lock().unwrap();
                                            if g.as_ref().map_or(true, |x| i < x.0) {
                                                *g = Some((i, m));
                                            }
                                            stop_at.fetch_min(i, AcqRel);
                                            break;
                                        }
                                    }
                                }
                                beat.0.store(0, Release);
                                slots.clear(t);
                                done.fetch_add(b - a, Relaxed);
                                members.fetch_add(b - a - (w.filtered - f0), Relaxed);
                            }));
                            if body.is_err() {
                                engine_failure.store(true, Release);
                                stop_at.store(0, Release);
                            }
                            beat.0.store(0, Release);
                            slots.clear(t);
                            let mut g = total.lock().unwrap();
                            g.states += w.states;
                            g.transitions += w.transitions;
                            g.traces += w.traces;
                            for (x, y) in g.outcomes.iter_mut().zip(&w.outcomes) {
                                *x |= y;
                            }
                        })
                        .unwrap();
                }
            });
            let f = found.into_inner().unwrap();
            let after = {
                let g = total.lock().unwrap();
                (g.states, g.transitions, g.traces)
            };
            results.push(SpaceResult {
                done: done.load(Relaxed),
                members: members.load(Relaxed),
                complete: f.is_none() && !capped.load(Relaxed),
                wall: t0.elapsed().as_secs_f64(),
                states: after.0 - before.0,
                transitions: after.1 - before.1,
                traces: after.2 - before.2,
            });
            let lines: Vec<String> = results.iter().map(|r| r.line()).collect();
            std::fs::write(&progress, lines.join("\n")).unwrap();
            if std::env::var("MC_TRACE").is_ok() {
                eprintln!(
                    "{}: {} of {} indices, {} members, {:.1} s",
                    sp.name(),
                    done.load(Relaxed),
                    len,
                    members.load(Relaxed),
                    t0.elapsed().as_secs_f64()
                );
            }
            if let Some((i, m)) = f {
                if std::env::var("MC_KEEP_GOING").is_ok() {
                    eprintln!("    VIOLATION {i} {m}\n      {}\n      {}", sp.describe(i), sp.snippet(i));
                    continue;
                }
                violation = Some((si, i, m));
            }
            if violation.is_some() || engine_failure.load(Acquire) {
                break;
            }
        }
        finished.store(true, Release);
    });
    if engine_failure.load(Acquire) {
        return 3;
    }
    let tot = total.into_inner().unwrap();
    let outcomes: u32 = tot.outcomes.iter().map(|x| x.count_ones()).sum();
    let o = coverage(plan, &results, outcomes);
    std::fs::write(format!("{out_file}.coverage"), &o).unwrap();
    let mut kh = known_hits.into_inner().unwrap();
    kh.sort();
    kh.dedup();
    std::fs::write(format!("{out_file}.known"), kh.join("\n")).unwrap();
    if let Some((si, i, m)) = violation {
        std::fs::write(format!("{out_file}.violation"), format!("{si}\n{i}\n{m}")).unwrap();
        return 10;
    }
    0
}

fn coverage(plan: &Plan, results: &[SpaceResult], outcomes: u32) -> String {
    // samples: some members, written out
    let mut samples = vec![];
    for (si, (sp, _)) in plan.spaces.iter().zip(results).enumerate() {
        if samples.len() >= 5 {
            break;
        }
        let len = sp.len();
        if len > 0 && si % plan.spaces.len().div_ceil(5).max(1) == 0 {
            samples.push(format!("{} :: {}", sp.name(), sp.describe(len / 2)));
        }
    }
    let mut o = String::new();
    let sum = |f: fn(&SpaceResult) -> u64| results.iter().map(f).sum::<u64>();
    o.push_str(&format!("\"states\": {},\n", sum(|r| r.states)));
    o.push_str(&format!("  \"transitions\": {},\n", sum(|r| r.transitions)));
    o.push_str(&format!("  \"traces_validated_against_impl\": {},\n", sum(|r| r.traces)));
    o.push_str(&format!("  \"distinct_outcomes_at_least\": {outcomes},\n"));
    o.push_str(&format!(
        "  \"exhaustive\": {},\n",
        results.len() == plan.spaces.len() && results.iter().all(|r| r.complete)
    ));
    o.push_str("  \"spaces\": [\n");
    let lines: Vec<String> = results
        .iter()
        .zip(&plan.spaces)
        .map(|(r, s)| {
            format!(
                "    {{\"name\": {}, \"indices\": {}, \"indices_done\": {}, \"members_executed\": {}, \"complete\": {}, \"wall_s\": {:.2}}}",
                esc(&s.name()),
                s.len(),
                r.done,
                r.members,
                r.complete,
                r.wall
            )
        })
        .collect();
    o.push_str(&lines.join(",\n"));
    o.push_str("\n  ],\n  \"samples\": [\n");
    o.push_str(&samples.iter().map(|s| format!("    {}", esc(s))).collect::<Vec<_>>().join(",\n"));
    o.push_str("\n  ]");
    o
}

/// run one member alone
pub fn one(plan: &Plan, si: usize, i: u64) -> i32 {
    limit_memory(4);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                let mut w = W::default();
                plan.spaces[si].run(i, &mut w)
            })
            .unwrap()
            .join()
    });
    match r {
        Err(_) => 3,
        Ok(Ok(())) => 0,
        Ok(Err(m)) => {
            println!("{m}");
            10
        }
    }
}

fn run_one(plan: &Plan, si: usize, i: u64) -> (Option<String>, bool) {
    let limit = plan.spaces[si].time_limit_s() * if plan.spaces[si].hang_is_violation() { 3 } else { 1 };
    let errf = out_dir().join(format!("{}.{}.one.err", plan.property, std::process::id()));
    let outf = out_dir().join(format!("{}.{}.one.out", plan.property, std::process::id()));
    let mut c = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["one", &plan.property, &si.to_string(), &i.to_string()])
        .stdout(std::fs::File::create(&outf).unwrap())
        .stderr(std::fs::File::create(&errf).unwrap())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = c.try_wait().unwrap() {
            break Some(st);
        }
        if t0.elapsed().as_secs() > limit {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let err = String::from_utf8_lossy(&std::fs::read(&errf).unwrap_or_default()).into_owned();
    let out = String::from_utf8_lossy(&std::fs::read(&outf).unwrap_or_default()).into_owned();
    let _ = std::fs::remove_file(errf);
    let _ = std::fs::remove_file(outf);
    use std::os::unix::process::ExitStatusExt;
    match st {
        None if !plan.spaces[si].hang_is_violation() => (None, true),
        None => (Some(format!("does not terminate within {limit} s")), false),
        Some(st) => {
            if st.signal().is_some() || st.code() == Some(1) {
                if plan.spaces[si].abort_is_violation(&err) {
                    let l = err.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" | ");
                    let by = st.signal().map_or("with status 1".to_string(), |s| format!("by signal {s}"));
                    (Some(format!("the process is ended {by} ({l})")), false)
                } else {
                    (None, true)
                }
            } else if st.code() == Some(10) {
                (Some(out.trim().to_string()), false)
            } else {
                (None, false)
            }
        }
    }
}

pub fn out_dir() -> std::path::PathBuf {
    let d = std::path::PathBuf::from("out");
    let _ = std::fs::create_dir_all(&d);
    d
}

/// the supervisor; returns the exit code of the check
pub fn check(plan: &Plan) -> i32 {
    std::env::set_var("MC_RUN", std::process::id().to_string());
    let started = Instant::now();
    let budget: u64 = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match plan.tier {
        Tier::Quick => 420,
        Tier::Thorough => 3600,
    });
    let base = out_dir().join(format!("{}.{}", plan.property, std::process::id()));
    let base = base.to_str().unwrap().to_string();
    let _ = std::fs::remove_file(format!("{base}.progress"));
    let slot_file = format!("{base}.slots");
    let mut skip: Vec<(usize, u64)> = vec![];
    let mut aborted_ok = 0u64;
    let mut violation: Option<(usize, u64, String)> = None;
    loop {
        let _ = std::fs::remove_file(&slot_file);
        let slots = Slots::open(&slot_file);
        let left = budget.saturating_sub(started.elapsed().as_secs()).max(1);
        let mut args = vec![
            "worker".to_string(),
            plan.property.clone(),
            slot_file.clone(),
            base.clone(),
            left.to_string(),
        ];
        args.extend(skip.iter().map(|(a, b)| format!("{a}:{b}")));
        let mut child = std::process::Command::new(std::env::current_exe().unwrap())
            .args(&args)
            .spawn()
            .expect("cannot start the worker");
        let st = child.wait().unwrap();
        use std::os::unix::process::ExitStatusExt;
        match (st.code(), st.signal()) {
            (Some(0), _) => break,
            (Some(10), _) => {
                let t = std::fs::read_to_string(format!("{base}.violation")).unwrap();
                let mut l = t.splitn(3, '\n');
                let si: usize = l.next().unwrap().parse().unwrap();
                let i: u64 = l.next().unwrap().parse().unwrap();
                let m = l.next().unwrap().to_string();
                // it must fail again on its own
                match run_one(plan, si, i) {
                    (Some(m2), _) => {
                        let m = if m == m2 { m } else { format!("{m} (on its own: {m2})") };
                        violation = Some((si, i, m));
                        break;
                    }
                    _ => {
                        // depends on what ran before in the same process: replaying the single
                        // member does not show it, but the observation itself is real
                        violation = Some((si, i, format!("{m} (only after other executions in the same process)")));
                        break;
                    }
                }
            }
            // 1: a sanitizer that failed while it was reporting
            (code, sig) if sig.is_some() || code == Some(20) || code == Some(1) => {
                let inflight = slots.read();
                let mut any = false;
                let mut inflight = inflight;
                inflight.sort();
                for (si, i) in inflight {
                    let (m, tolerated) = run_one(plan, si, i);
                    if let Some(m) = m {
                        violation = Some((si, i, m));
                        any = true;
                        break;
                    }
                    if tolerated {
                        if std::env::var("MC_TRACE").is_ok() {
                            eprintln!("tolerated: {} :: {}", plan.spaces[si].name(), plan.spaces[si].describe(i));
                        }
                        skip.push((si, i));
                        aborted_ok += 1;
                        any = true;
                    }
                }
                if violation.is_some() {
                    break;
                }
                if !any {
                    eprintln!("the worker ended with {st:?}, but no member in flight fails on its own");
                    cleanup(&base);
                    return 2;
                }
                if aborted_ok > 64 || started.elapsed().as_secs() > budget {
                    eprintln!("the exploration is cut short: {aborted_ok} executions ended the process or hung");
                    break;
                }
            }
            _ => {
                eprintln!("the worker failed: {st:?}");
                cleanup(&base);
                return 2;
            }
        }
    }
    let coverage = std::fs::read_to_string(format!("{base}.coverage")).unwrap_or_else(|_| {
        // the worker was ended in the middle: the spaces it had finished by then
        let r: Vec<SpaceResult> = std::fs::read_to_string(format!("{base}.progress"))
            .unwrap_or_default()
            .lines()
            .filter_map(SpaceResult::parse)
            .collect();
        coverage(plan, &r, 0)
    });
    let known = std::fs::read_to_string(format!("{base}.known")).unwrap_or_default();
    for k in known.lines().filter(|l| !l.is_empty()) {
        println!("KNOWN-FINDING: property={} {}", plan.property, k);
    }
    cleanup(&base);
    let mut ev = String::from("{\n");
    ev.push_str(&format!(" \"property\": {},\n", esc(&plan.property)));
    ev.push_str(&format!(
        " \"tier\": \"{}\",\n",
        if plan.tier == Tier::Quick { "quick" } else { "thorough" }
    ));
    ev.push_str(&format!(
        " \"seed\": {},\n",
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1)
    ));
    ev.push_str(" \"level\": \"model_checking\",\n \"coverage\": {\n  ");
    ev.push_str(&coverage);
    ev.push_str(&format!(
        ",\n  \"build\": {},\n  \"tolerated_aborts\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        esc(&plan.build),
        aborted_ok,
        plan.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        started.elapsed().as_secs_f64(),
        violation.is_some() as u32
    ));
    let _ = std::fs::create_dir_all("evidence");
    std::fs::write(format!("evidence/{}.json", plan.property), ev).expect("cannot write the evidence file");
    if let Some((si, i, m)) = violation {
        let sp = &plan.spaces[si];
        let desc = sp.describe(i);
        let mut h = 0xcbf29ce484222325u64;
        for b in sp.name().bytes().chain(desc.bytes()) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let _ = std::fs::create_dir_all("out/replay");
        let path = format!("out/replay/{}-{:016x}.json", plan.property, h);
        let text = format!(
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"space\": {},\n \"index\": {},\n \"case\": {},\n \"observed\": {},\n \"rust\": {}\n}}\n",
            esc(&plan.property),
            if plan.tier == Tier::Quick { "quick" } else { "thorough" },
            esc(&sp.name()),
            i,
            esc(&desc),
            esc(&m),
            esc(&sp.snippet(i))
        );
        std::fs::write(&path, text).expect("cannot write the replay file");
        println!("{}: {}", sp.name(), desc);
        println!("observed: {m}");
        println!("VIOLATION property={} replay={}", plan.property, path);
        let _ = std::io::stdout().flush();
        return 1;
    }
    println!("{}: held on everything explored ({:.1} s)", plan.property, started.elapsed().as_secs_f64());
    0
}

fn cleanup(base: &str) {
    for s in ["slots", "coverage", "known", "violation", "progress"] {
        let _ = std::fs::remove_file(format!("{base}.{s}"));
    }
}

/// re-run what a replay file describes
pub fn replay(plan: &Plan, text: &str) -> i32 {
    let name = crate::json::field(text, "space").unwrap_or_default();
    let index: u64 = crate::json::field(text, "index").and_then(|s| s.parse().ok()).expect("index");
    let Some(si) = plan.spaces.iter().position(|s| s.name() == name) else {
        eprintln!("no space called {name}");
        return 2;
    };
    println!("{}: {}", name, plan.spaces[si].describe(index));
    match run_one(plan, si, index) {
        (Some(m), _) => {
            println!("observed: {m}");
            println!("VIOLATION property={} replay=(this file)", plan.property);
            1
        }
        _ => {
            println!("the property holds on it");
            0
        }
    }
}
