//! Two threads that are interleaved between machine instructions (C12). A thread runs with the trap
//! flag of the processor set: after every instruction its SIGTRAP handler decides who goes on. Only
//! instructions of this program count (the code under test, the standard library it uses and a bit
//! of the harness), those of the C library do not.
//!
//! Should a thread wait for a lock that the other one holds, then nothing happens for a while; both
//! are let go at once then, and the execution goes on without control.
use crate::api::{Isolation, VALID};
use crate::engine::*;
use crate::oracle::hash;
use poly2tri_rs::{Observer, Sweeper};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, OnceLock};
use std::time::{Duration, Instant};

/// who may go on; shared by the two threads of an execution
#[derive(Default)]
struct Ctl {
    turn: AtomicU32,
    asleep: [AtomicBool; 2],
    done: [AtomicBool; 2],
    /// a lock is in the way: no more control
    free: AtomicBool,
    switches: AtomicUsize,
}

const PATIENCE: Duration = Duration::from_millis(300);

impl Ctl {
    /// the turn of the other thread, until it gives it back
    fn pass(&self, me: u32) {
        if self.done[1 - me as usize].load(SeqCst) || self.free.load(SeqCst) {
            return;
        }
        self.switches.fetch_add(1, SeqCst);
        self.give(1 - me);
        self.wait(me, true);
    }
    fn give(&self, to: u32) {
        self.turn.store(to, SeqCst);
        if self.asleep[to as usize].load(SeqCst) {
            cpu::wake(&self.turn);
        }
    }
    /// until it is the turn of this thread; `held`: the other one may be waiting for a lock of this one
    fn wait(&self, me: u32, held: bool) {
        for n in 0.. {
            if self.turn.load(SeqCst) == me || self.free.load(SeqCst) {
                return;
            }
            if n < 500 {
                std::hint::spin_loop();
                continue;
            }
            let since = Instant::now();
            self.asleep[me as usize].store(true, SeqCst);
            cpu::sleep(&self.turn, 1 - me, PATIENCE);
            self.asleep[me as usize].store(false, SeqCst);
            if held && self.turn.load(SeqCst) != me && since.elapsed() >= PATIENCE {
                self.free.store(true, SeqCst);
                cpu::wake(&self.turn);
            }
        }
    }
    fn finish(&self, me: u32) {
        self.done[me as usize].store(true, SeqCst);
        self.give(1 - me);
    }
}

#[derive(Clone, Copy)]
enum Plan {
    /// nothing but count
    Count,
    /// give the turn away after the instruction `first` and after every `every` ones from there
    Every { first: u64, every: u64 },
    /// give the turn away after this instruction, then do not step any more
    At(u64),
}

struct Me {
    ctl: *const Ctl,
    me: u32,
    n: u64,
    plan: Plan,
}

impl Me {
    /// whether to go on stepping
    fn step(&mut self) -> bool {
        self.n += 1;
        match self.plan {
            Plan::Count => true,
            Plan::Every { first, every } => {
                if self.n >= first && (self.n - first) % every == 0 {
                    unsafe { &*self.ctl }.pass(self.me);
                }
                true
            }
            Plan::At(k) if self.n == k => {
                unsafe { &*self.ctl }.pass(self.me);
                false
            }
            Plan::At(_) => true,
        }
    }
}

thread_local! {
    static ME: Cell<*mut Me> = const { Cell::new(std::ptr::null_mut()) };
}

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod cpu {
    use super::{AtomicU32, Duration, ME};
    use std::arch::asm;

    extern "C" {
        static __executable_start: u8;
        static etext: u8;
        fn syscall(n: i64, ...) -> i64;
        fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
    }
    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    const RIP: usize = 40 + 16 * 8;
    const EFLAGS: usize = 40 + 17 * 8;

    extern "C" fn trap(_: i32, _: *mut u8, context: *mut u8) {
        unsafe {
            let rip = *(context.add(RIP) as *const usize);
            if rip < &raw const __executable_start as usize || rip >= &raw const etext as usize {
                return;
            }
            let me = ME.with(|m| m.get());
            if me.is_null() || !(*me).step() {
                *(context.add(EFLAGS) as *mut u64) &= !0x100;
            }
        }
    }
    pub fn install() {
        let a = Action { handler: trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        unsafe { sigaction(5, &a, std::ptr::null_mut()) };
    }
    /// until woken up, if the word has this value; not longer than `limit`
    pub fn sleep(word: &AtomicU32, value: u32, limit: Duration) {
        let t = [limit.as_secs() as i64, limit.subsec_nanos() as i64];
        unsafe { syscall(202, word as *const AtomicU32, 128i32, value, &t, 0usize, 0u32) };
    }
    pub fn wake(word: &AtomicU32) {
        unsafe { syscall(202, word as *const AtomicU32, 129i32, 2u32, 0usize, 0usize, 0u32) };
    }
    #[inline(always)]
    pub fn on() {
        unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    }
    #[inline(always)]
    pub fn off() {
        unsafe { asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq") }
    }
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod cpu {
    pub fn install() {}
    pub fn sleep(_: &super::AtomicU32, _: u32, _: super::Duration) {}
    pub fn wake(_: &super::AtomicU32) {}
    pub fn on() {}
    pub fn off() {}
}

/// runs `f`, stepping if `on`
fn stepped<T>(me: &mut Me, on: bool, f: impl FnOnce() -> T) -> T {
    ME.with(|m| m.set(me));
    if on {
        cpu::on();
    }
    let r = f();
    cpu::off();
    ME.with(|m| m.set(std::ptr::null_mut()));
    r
}

/// whether this works here at all
fn works() -> bool {
    static WORKS: OnceLock<bool> = OnceLock::new();
    *WORKS.get_or_init(|| {
        cpu::install();
        let mut me = Me { ctl: std::ptr::null(), me: 0, n: 0, plan: Plan::Count };
        stepped(&mut me, true, || (0..10u32).map(|k| std::hint::black_box(k)).sum::<u32>());
        me.n > 10
    })
}

fn run(iso: &Isolation, k: usize) -> Result<Vec<u32>, String> {
    lib(|| iso.cases[k].builder().build().triangulate().triangle_list_indices())
}

fn same(iso: &Isolation, r: Result<Vec<u32>, String>, k: usize, who: &str) -> Result<(), String> {
    match r {
        Err(m) => Err(format!("{who} fails: {m}")),
        Ok(r) if Some(&r) != iso.of(k) => Err(format!("{who} gets other triangles than on its own")),
        Ok(_) => Ok(()),
    }
}

/// all ordered pairs of valid inputs
fn pair(i: u64) -> (usize, usize) {
    (i as usize / VALID, i as usize % VALID)
}

/// a whole run of one thread between any two instructions of the run of another thread
pub struct WholeSpace(pub Arc<Isolation>);
impl Space for WholeSpace {
    fn name(&self) -> String {
        "two threads, a whole run of one between any two instructions of the other's run".into()
    }
    fn len(&self) -> u64 {
        if works() {
            (VALID * VALID) as u64
        } else {
            0
        }
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn time_limit_s(&self) -> u64 {
        120
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let (x, y) = pair(i);
        let iso = &*self.0;
        cpu::install();
        iso.of(x);
        let ctl = Ctl::default();
        let (r0, r1) = std::thread::scope(|s| {
            let h = s.spawn(|| {
                let mut out = Ok(());
                loop {
                    ctl.wait(1, false);
                    if ctl.done[0].load(SeqCst) || ctl.free.load(SeqCst) {
                        return out;
                    }
                    let r = same(iso, run(iso, y), y, "the other thread");
                    if out.is_ok() {
                        out = r;
                    }
                    ctl.give(0);
                }
            });
            let mut me = Me { ctl: &ctl, me: 0, n: 0, plan: Plan::Every { first: 1, every: 1 } };
            let r = stepped(&mut me, true, || run(iso, x));
            ctl.finish(0);
            (r, h.join())
        });
        w.states += ctl.switches.load(SeqCst) as u64;
        w.transitions += 2 * ctl.switches.load(SeqCst) as u64;
        w.traces += 1;
        w.outcome(hash(&(i, ctl.free.load(SeqCst))));
        r1.map_err(|_| "the other thread died".to_string())??;
        same(iso, r0, x, "the first thread")
    }
    fn describe(&self, i: u64) -> String {
        let (x, y) = pair(i);
        format!("after each instruction of a run with {}, a run in another thread with {}", self.0.cases[x].describe(), self.0.cases[y].describe())
    }
}

/// two threads in turns of a few instructions each, one of them some instructions ahead
pub struct TurnSpace {
    pub iso: Arc<Isolation>,
    pub turns: &'static [(u64, u64)],
    pub ahead: u64,
    pub pairs: &'static [(usize, usize)],
}
impl TurnSpace {
    fn split(&self, i: u64) -> ((usize, usize), (u64, u64), u64) {
        let (a, i) = (i % self.ahead, i / self.ahead);
        let (t, i) = (i % self.turns.len() as u64, i / self.turns.len() as u64);
        (self.pairs[i as usize], self.turns[t as usize], a + 1)
    }
}
impl Space for TurnSpace {
    fn name(&self) -> String {
        format!("two threads in turns of {:?} instructions, one of them up to {} instructions ahead", self.turns, self.ahead)
    }
    fn len(&self) -> u64 {
        if works() {
            self.ahead * self.turns.len() as u64 * self.pairs.len() as u64
        } else {
            0
        }
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn time_limit_s(&self) -> u64 {
        120
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let ((x, y), (s, t), ahead) = self.split(i);
        let iso = &*self.iso;
        cpu::install();
        iso.of(x);
        let ctl = Ctl::default();
        let go = |who: u32, k: usize, first: u64, every: u64| {
            ctl.wait(who, false);
            let mut me = Me { ctl: &ctl, me: who, n: 0, plan: Plan::Every { first, every } };
            let r = stepped(&mut me, true, || run(iso, k));
            ctl.finish(who);
            r
        };
        let (r0, r1) = std::thread::scope(|sc| {
            let h = sc.spawn(|| go(1, y, t, t));
            let r = go(0, x, ahead, s);
            (r, h.join())
        });
        w.states += 1;
        w.transitions += ctl.switches.load(SeqCst) as u64;
        w.traces += 1;
        w.outcome(hash(&(i, ctl.free.load(SeqCst))));
        same(iso, r1.map_err(|_| "the second thread died".to_string())?, y, "the second thread")?;
        same(iso, r0, x, "the first thread")
    }
    fn describe(&self, i: u64) -> String {
        let ((x, y), (s, t), ahead) = self.split(i);
        format!(
            "thread 0: {}, {ahead} instructions, then turns of {s}; thread 1: {}, turns of {t}",
            self.iso.cases[x].describe(),
            self.iso.cases[y].describe()
        )
    }
}

/// One thread is preempted after any of its instructions, the other one then runs until any of its
/// callbacks (or to the end), the first one then goes on to its end, and the other one after it.
pub struct CrossSpace {
    pub iso: Arc<Isolation>,
    pub pairs: &'static [(usize, usize)],
    /// the other thread is preempted at any of its callbacks, or else only at the first, the last and one in the middle
    pub any: bool,
    /// the instructions between the callbacks of the runs, per pair
    pub segments: OnceLock<Vec<Vec<u64>>>,
}

struct Mon<F: FnMut()>(F);
impl<F: FnMut()> Mon<F> {
    fn hit(&mut self) {
        (self.0)();
    }
}
macro_rules! hits {
    ($($f:ident($($t:ty),*);)*) => {
        impl<F: FnMut()> Observer for Mon<F> {
            $(fn $f(&mut self, $(_: $t,)* _: &Sweeper) { self.hit(); })*
        }
    };
}
hits! {
    enter_point_event(poly2tri_rs::PointId);
    exit_point_event(poly2tri_rs::PointId);
    edge_event(poly2tri_rs::Edge);
    sweep_done();
    finalized();
    will_legalize(poly2tri_rs::TriangleId);
    legalize_step(poly2tri_rs::TriangleId);
    triangle_rotated(poly2tri_rs::TriangleId, poly2tri_rs::TriangleId);
    legalized(poly2tri_rs::TriangleId);
}

impl CrossSpace {
    fn observed(&self, k: usize, f: impl FnMut()) -> Result<Vec<u32>, String> {
        let mut m = Mon(f);
        lib(|| self.iso.cases[k].builder().build().triangulate_with_observer(&mut m).triangle_list_indices())
    }
    fn segments(&self) -> &Vec<Vec<u64>> {
        self.segments.get_or_init(|| {
            cpu::install();
            self.pairs
                .iter()
                .map(|&(x, _)| {
                    let mut me = Me { ctl: std::ptr::null(), me: 0, n: 0, plan: Plan::Count };
                    let at: *const u64 = &me.n;
                    let mut v = vec![0; 1 + self.iso.calls(x) as usize];
                    let mut c = 0;
                    let _ = stepped(&mut me, true, || {
                        self.observed(x, || {
                            c += 1;
                            v[c] = unsafe { at.read_volatile() };
                        })
                    });
                    v.push(me.n);
                    v.windows(2).map(|v| v[1] - v[0]).collect()
                })
                .collect()
        })
    }
    /// the callbacks in which the other thread may be preempted (0: none)
    fn stops(&self, y: usize) -> Vec<u32> {
        let n = self.iso.calls(y);
        if self.any {
            (0..=n).collect()
        } else {
            vec![0, 1, n / 2, n]
        }
    }
    /// pair, callback from which instructions count (0: the start), instruction, callback of the other thread (0: none)
    fn split(&self, mut i: u64) -> Option<((usize, usize), u32, u64, u32)> {
        for (p, seg) in self.pairs.iter().zip(self.segments()) {
            let stops = self.stops(p.1);
            let calls = stops.len() as u64;
            for (c, n) in seg.iter().enumerate() {
                if i < n * calls {
                    return Some((*p, c as u32, i / calls + 1, stops[(i % calls) as usize]));
                }
                i -= n * calls;
            }
        }
        None
    }
}
impl Space for CrossSpace {
    fn name(&self) -> String {
        let which = if self.any { "any callback" } else { "three of its callbacks" };
        format!("two threads, one preempted after any instruction, the other one then at {which}, inputs {:?}", self.pairs)
    }
    fn len(&self) -> u64 {
        if !works() {
            return 0;
        }
        self.pairs.iter().zip(self.segments()).map(|(p, s)| s.iter().sum::<u64>() * self.stops(p.1).len() as u64).sum()
    }
    fn chunk(&self) -> u64 {
        256
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let Some(((x, y), c, k, b)) = self.split(i) else { return Ok(()) };
        let iso = &*self.iso;
        let ctl = Ctl::default();
        let (r0, r1) = std::thread::scope(|s| {
            let h = s.spawn(|| {
                ctl.wait(1, false);
                let mut n = 0;
                let r = self.observed(y, || {
                    n += 1;
                    if n == b {
                        ctl.pass(1);
                    }
                });
                ctl.finish(1);
                r
            });
            let mut me = Me { ctl: &ctl, me: 0, n: 0, plan: Plan::At(k) };
            let mut n = 0;
            let r = stepped(&mut me, c == 0, || {
                self.observed(x, || {
                    n += 1;
                    if n == c {
                        cpu::on();
                    } else if n == c + 1 {
                        cpu::off();
                    }
                })
            });
            ctl.finish(0);
            (r, h.join())
        });
        w.states += 1;
        w.transitions += ctl.switches.load(SeqCst) as u64;
        w.traces += 1;
        w.outcome(hash(&(x, y, ctl.free.load(SeqCst))));
        same(iso, r1.map_err(|_| "the second thread died".to_string())?, y, "the second thread")?;
        same(iso, r0, x, "the first thread")
    }
    fn describe(&self, i: u64) -> String {
        let Some(((x, y), c, k, b)) = self.split(i) else { return String::new() };
        format!(
            "thread 0: {}, preempted {k} instructions after callback {c} (0: the start); thread 1: {}, preempted in callback {b} (0: not)",
            self.iso.cases[x].describe(),
            self.iso.cases[y].describe()
        )
    }
}
