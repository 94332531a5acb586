//! Memory safety (C16): the safe API must not read or write out of bounds, whatever the input. The
//! check runs in a build with AddressSanitizer and with the precondition checks of std's unchecked
//! operations; every sequence of lattice points, valid or not, is an execution.
//!
//! Panics are allowed on invalid input, and so are endless loops and running out of memory or stack
//! (nothing is promised about them); those end the execution, not the exploration.
use crate::case::*;
use crate::engine::*;
use crate::geom::P;
use crate::oracle::hash;
use poly2tri_rs::{Observer, PointId, Sweeper, TriangleId};

pub struct AnySpace {
    pub w: i64,
    pub h: i64,
    /// length of the polyline
    pub k: u32,
    /// points of one hole (0: none)
    pub hole: u32,
    /// steiner points
    pub st: u32,
    pub map: crate::families::Map,
}

/// ends runs that would go on for ever: no run of these sizes has that many steps
struct Fuse(u32);
impl Fuse {
    fn hit(&mut self) {
        self.0 += 1;
        if self.0 > 20_000 {
            panic!("too many steps");
        }
    }
}
impl Observer for Fuse {
    fn enter_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.hit()
    }
    fn legalize_step(&mut self, _: TriangleId, _: &Sweeper) {
        self.hit()
    }
    fn will_legalize(&mut self, _: TriangleId, _: &Sweeper) {
        self.hit()
    }
}

impl AnySpace {
    fn base(&self) -> u64 {
        (self.w * self.h) as u64
    }
    fn case(&self, i: u64, c: &mut Case) -> bool {
        let b = self.base();
        let mut i = i;
        let mut pt = || {
            let d = (i % b) as i64;
            i /= b;
            (self.map.f)((d % self.w, d / self.w))
        };
        c.clear();
        c.exp = self.map.exp;
        c.outer.extend((0..self.k).map(|_| pt()));
        if self.hole > 0 {
            c.holes.push((0..self.hole).map(|_| pt()).collect());
        }
        c.steiner.extend((0..self.st).map(|_| pt()));
        // the same point twice in a row is rejected at once
        let rep = |v: &[P]| (0..v.len()).any(|j| v[j] == v[(j + 1) % v.len()]);
        !rep(&c.outer) && !c.holes.iter().any(|h| rep(h))
    }
}

impl Space for AnySpace {
    fn name(&self) -> String {
        format!(
            "any polyline of {} points{}{} of a {}x{} lattice, map {}",
            self.k,
            if self.hole > 0 { format!(", hole of {}", self.hole) } else { String::new() },
            if self.st > 0 { format!(", {} steiner points", self.st) } else { String::new() },
            self.w,
            self.h,
            self.map.name
        )
    }
    fn len(&self) -> u64 {
        self.base().pow(self.k + self.hole + self.st)
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let mut c = std::mem::take(&mut w.case);
        if self.case(i, &mut c) {
            w.states += 1;
            w.traces += 1;
            let mut fuse = Fuse(0);
            let r = lib(|| {
                let t = c.builder().build().triangulate_with_observer(&mut fuse);
                let idx = t.triangle_list_indices();
                let n = t.points().len() as u32;
                let mut s = 0.0;
                for x in t {
                    s += (x.points[0].x + x.points[1].x + x.points[2].x) as f64;
                }
                (idx, n, s)
            });
            w.transitions += fuse.0 as u64;
            match r {
                Ok((idx, _, s)) => w.outcome(hash(&(idx, s.to_bits()))),
                Err(m) => w.outcome(hash(&m)),
            }
        } else {
            w.filtered += 1;
        }
        w.case = c;
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let mut c = Case::default();
        self.case(i, &mut c);
        c.describe()
    }
    fn snippet(&self, i: u64) -> String {
        let mut c = Case::default();
        self.case(i, &mut c);
        c.snippet()
    }
    fn time_limit_s(&self) -> u64 {
        3
    }
    fn chunk(&self) -> u64 {
        1024
    }
    /// what the sanitizer and the precondition checks say; everything else is no memory error
    fn abort_is_violation(&self, stderr: &str) -> bool {
        memory_error(stderr)
    }
    fn hang_is_violation(&self) -> bool {
        false
    }
}

/// Coordinates no valid input has: not a number, infinite, so large or small that sums and products
/// overflow or vanish, and both zeros.
pub struct OddSpace {
    pub values: &'static [poly2tri_rs::Float],
    pub k: u32,
    pub st: u32,
}

const NAN: poly2tri_rs::Float = poly2tri_rs::Float::NAN;
const INF: poly2tri_rs::Float = poly2tri_rs::Float::INFINITY;
const MAX: poly2tri_rs::Float = poly2tri_rs::Float::MAX;
const TINY: poly2tri_rs::Float = 5e-324;
const ODD: &[poly2tri_rs::Float] = &[0.0, -0.0, 1.0, -1.0, NAN, INF, -INF];
const MORE: &[poly2tri_rs::Float] = &[0.0, -0.0, 1.0, -1.0, NAN, INF, -INF, MAX, -MAX, poly2tri_rs::Float::MIN_POSITIVE, TINY, 1e200];
const FEW: &[poly2tri_rs::Float] = &[0.0, 1.0, NAN, INF];
const EXTREME: &[poly2tri_rs::Float] = &[0.0, MAX, -MAX, TINY];

impl OddSpace {
    fn points(&self, mut i: u64) -> Vec<poly2tri_rs::Point> {
        let b = self.values.len() as u64;
        let mut next = || {
            let v = self.values[(i % b) as usize];
            i /= b;
            v
        };
        (0..self.k + self.st).map(|_| poly2tri_rs::Point::new(next(), next())).collect()
    }
}

impl Space for OddSpace {
    fn name(&self) -> String {
        format!("polylines of {} points{}, coordinates of {:?}", self.k, if self.st > 0 { format!(", {} steiner points", self.st) } else { String::new() }, self.values)
    }
    fn len(&self) -> u64 {
        (self.values.len() as u64).pow(2 * (self.k + self.st))
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let mut p = self.points(i);
        let st = p.split_off(self.k as usize);
        w.states += 1;
        w.traces += 1;
        let mut fuse = Fuse(0);
        let r = lib(|| {
            let t = poly2tri_rs::Builder::new(p).add_steiner_points(st).build().triangulate_with_observer(&mut fuse);
            let idx = t.triangle_list_indices();
            let n = t.into_iter().count();
            (idx, n)
        });
        w.transitions += fuse.0 as u64;
        match r {
            Ok(r) => w.outcome(hash(&r)),
            Err(m) => w.outcome(hash(&m)),
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("polyline and steiner points {:?}", self.points(i).iter().map(|p| (p.x, p.y)).collect::<Vec<_>>())
    }
    fn snippet(&self, i: u64) -> String {
        self.describe(i)
    }
    fn time_limit_s(&self) -> u64 {
        3
    }
    fn chunk(&self) -> u64 {
        1024
    }
    fn abort_is_violation(&self, stderr: &str) -> bool {
        memory_error(stderr)
    }
    fn hang_is_violation(&self) -> bool {
        false
    }
}

pub fn memory_error(stderr: &str) -> bool {
    if stderr.contains("stack-overflow") || stderr.contains("has overflowed its stack") || stderr.contains("out-of-memory") || stderr.contains("allocation-size-too-big") {
        return false;
    }
    ["unsafe precondition", "AddressSanitizer", "SIGSEGV", "panic in a function that cannot unwind"].iter().any(|s| stderr.contains(s))
}

/// The executions of another check, for the memory errors in them only.
pub struct Watched(pub Box<dyn Space>);
impl Space for Watched {
    fn name(&self) -> String {
        format!("memory errors: {}", self.0.name())
    }
    fn len(&self) -> u64 {
        self.0.len()
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let _ = self.0.run(i, w);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        self.0.describe(i)
    }
    fn snippet(&self, i: u64) -> String {
        self.0.snippet(i)
    }
    fn time_limit_s(&self) -> u64 {
        self.0.time_limit_s()
    }
    fn chunk(&self) -> u64 {
        self.0.chunk()
    }
    fn abort_is_violation(&self, stderr: &str) -> bool {
        memory_error(stderr)
    }
    fn hang_is_violation(&self) -> bool {
        false
    }
}

/// every use of the rest of the API: builders, results, loaders, histories, queries of an observer
fn uses(q: bool) -> Vec<Box<dyn Space>> {
    use crate::families::*;
    use crate::props::space_of;
    use std::sync::Arc;
    let d = !q as u32;
    let mut v: Vec<Box<dyn Space>> = vec![];
    v.push(Box::new(crate::api::ResultSpace { depth: 4 + d, cases: crate::api::result_cases() }));
    v.extend((0..3).map(|o| Box::new(crate::api::BuilderSpace { depth: 3 + d, outer: o }) as Box<dyn Space>));
    v.extend(crate::api::loader_uses(q));
    let p33 = Polys::grid(3, 3, if q { 6 } else { 9 });
    let observers: &[crate::props::CaseCheck] = &[
        #[cfg(feature = "front")]
        crate::front::front_queries,
        #[cfg(feature = "store")]
        crate::store::store_queries,
        #[cfg(feature = "internals")]
        crate::obs::verification,
    ];
    for &f in observers {
        for m in [ID, ROT, JIT2] {
            v.push(space_of(Arc::new(PolyGen::new(&p33, &[m], St::Any)), f));
            v.push(space_of(Arc::new(PermGen { k: if q { 4 } else { 5 }, kind: PermKind::Points, maps: vec![m] }), f));
        }
    }
    // valid inputs, larger than the ones above
    let f: crate::props::CaseCheck = crate::props::all;
    v.push(space_of(Arc::new(LargeGen { sizes: (8..if q { 40 } else { 200 }).collect(), shapes: SHAPES.to_vec() }), f));
    v.push(space_of(Arc::new(LargeGen { sizes: vec![if q { 1000 } else { 20000 }], shapes: SHAPES.to_vec() }), f));
    v.into_iter().map(|s| Box::new(Watched(s)) as Box<dyn Space>).collect()
}

/// Small spaces whose executions are also run by the interpreter Miri, which sees what a sanitizer
/// cannot: reads of uninitialized memory, references that alias, invalid values, pointers out of
/// their allocation. They are cheap to set up, as that is interpreted, too.
pub fn slices(q: bool) -> Vec<Box<dyn Space>> {
    use crate::families::*;
    use crate::props::space_of;
    use std::sync::Arc;
    let mut v: Vec<Box<dyn Space>> = vec![];
    let mut add = |w, h, k, hole, st, map| v.push(Box::new(AnySpace { w, h, k, hole, st, map }) as Box<dyn Space>);
    add(2, 3, 3, 0, 0, ID);
    add(2, 2, 4, 0, 0, ROT);
    add(2, 2, 3, 0, 1, ID);
    add(2, 2, 3, 2, 0, JIT2);
    if !q {
        add(3, 3, 3, 0, 0, ID);
        add(2, 3, 4, 0, 0, ROT);
        add(2, 2, 4, 0, 1, ID);
        add(3, 3, 3, 0, 1, ROT);
        add(3, 3, 4, 0, 0, ID);
        add(2, 3, 5, 0, 0, ID);
        add(2, 2, 3, 3, 1, ID);
        v.push(Box::new(OddSpace { values: &[0.0, MAX, -INF], k: 3, st: 0 }));
    }
    v.push(Box::new(OddSpace { values: if q { &[0.0, NAN] } else { &[0.0, 1.0, NAN] }, k: 3, st: 0 }));
    v.push(Box::new(crate::api::BuilderSpace { depth: if q { 2 } else { 3 }, outer: 0 }));
    v.push(Box::new(crate::api::ResultSpace { depth: if q { 1 } else { 2 }, cases: crate::api::result_cases().into_iter().take(if q { 1 } else { 99 }).collect() }));
    let checks: &[crate::props::CaseCheck] = &[
        #[cfg(feature = "front")]
        crate::front::front_queries,
        #[cfg(feature = "store")]
        crate::store::store_queries,
        #[cfg(feature = "internals")]
        crate::obs::verification,
    ];
    for &f in checks {
        v.push(space_of(Arc::new(PermGen { k: if q { 1 } else { 3 }, kind: PermKind::Points, maps: vec![ID] }), f));
    }
    let k = if q { 3 } else { 5 };
    for kind in [PermKind::Upper, PermKind::Side] {
        v.push(space_of(Arc::new(PermGen { k, kind, maps: vec![ROT] }), crate::props::completes));
    }
    v.push(space_of(Arc::new(LargeGen { sizes: if q { vec![9, 14] } else { vec![9, 14, 22, 40] }, shapes: SHAPES.to_vec() }), crate::props::completes));
    v
}

/// the interpreted program: runs members `lo..hi` of a slice
pub fn slice(q: bool, si: usize, lo: u64, hi: u64) {
    let v = slices(q);
    let mut w = W::default();
    std::panic::set_hook(Box::new(|_| ()));
    for i in lo..hi {
        eprintln!("@{i}");
        let _ = v[si].run(i, &mut w);
    }
    println!("counts {} {} {}", w.states, w.transitions, w.traces);
}

/// the slices, in batches, each in an interpreter of its own
struct MiriSpace {
    slices: Vec<Box<dyn Space>>,
    /// slice and members
    batches: Vec<(usize, u64, u64)>,
    /// cargo-miri, the interpreted program, the sysroot
    tool: [String; 3],
}

impl MiriSpace {
    fn new(slices: Vec<Box<dyn Space>>, tool: [String; 3]) -> MiriSpace {
        let mut batches = vec![];
        for (si, s) in slices.iter().enumerate() {
            let step = s.len().div_ceil(16).min(48);
            batches.extend((0..s.len().div_ceil(step)).map(|b| (si, b * step, ((b + 1) * step).min(s.len()))));
        }
        // the long ones first: they are the last slices
        batches.reverse();
        MiriSpace { slices, batches, tool }
    }

    /// the output of the interpreter, and what it was at when its time was up
    fn interpret(&self, si: usize, lo: u64, hi: u64) -> (String, String, bool) {
        use std::process::*;
        let tag = format!("miri.{}.{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], "");
        let (outf, errf) = (out_dir().join(format!("{tag}.out")), out_dir().join(format!("{tag}.err")));
        let mut c = Command::new(&self.tool[0])
            .args(["runner", &self.tool[1], "slice", &si.to_string(), &lo.to_string(), &hi.to_string()])
            .env("MIRI_SYSROOT", &self.tool[2])
            .env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
            .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows")
            .env_remove("ASAN_OPTIONS")
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(&outf).unwrap())
            .stderr(std::fs::File::create(&errf).unwrap())
            .spawn()
            .expect("the interpreter starts");
        let t0 = std::time::Instant::now();
        let in_time = loop {
            if c.try_wait().unwrap().is_some() {
                break true;
            }
            if t0.elapsed().as_secs() > 120 {
                let _ = c.kill();
                let _ = c.wait();
                break false;
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        };
        let r = (std::fs::read(&outf).unwrap_or_default(), std::fs::read(&errf).unwrap_or_default());
        let _ = std::fs::remove_file(outf);
        let _ = std::fs::remove_file(errf);
        (String::from_utf8_lossy(&r.0).into(), String::from_utf8_lossy(&r.1).into(), in_time)
    }
}

impl Space for MiriSpace {
    fn name(&self) -> String {
        let l: Vec<String> = self.slices.iter().map(|s| format!("{} ({})", s.name(), s.len())).collect();
        format!("interpreted by Miri, in batches: {}", l.join("; "))
    }
    fn len(&self) -> u64 {
        self.batches.len() as u64
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let (si, mut lo, hi) = self.batches[i as usize];
        while lo < hi {
            let (out, err, _) = self.interpret(si, lo, hi);
            let at: Option<u64> = err.lines().rev().find_map(|l| l.strip_prefix('@')?.parse().ok());
            if let Some(l) = err.lines().find(|l| l.contains("Undefined Behavior")) {
                let at = at.unwrap_or(lo);
                let place = err.lines().find(|l| l.contains("-->") && l.contains("/src/")).unwrap_or("").trim();
                return Err(format!("{} {place} in execution {at}: {}", l.trim(), self.slices[si].describe(at)));
            }
            if let Some(l) = out.lines().find_map(|l| l.strip_prefix("counts ")) {
                let v: Vec<u64> = l.split(' ').filter_map(|x| x.parse().ok()).collect();
                w.states += v[0];
                w.transitions += v[1];
                w.traces += v[2];
                w.outcome(hash(&out));
                break;
            }
            // out of time, stack or memory: nothing is promised about that
            lo = at.unwrap_or(lo) + 1;
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (si, lo, hi) = self.batches[i as usize];
        format!("members {lo}..{hi} of: {}", self.slices[si].name())
    }
    fn time_limit_s(&self) -> u64 {
        6000
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn abort_is_violation(&self, stderr: &str) -> bool {
        memory_error(stderr)
    }
    fn hang_is_violation(&self) -> bool {
        false
    }
}

fn interpreted(q: bool) -> Vec<Box<dyn Space>> {
    // set by check.sh where the interpreter is installed and the program builds for it
    let Ok(t) = std::env::var("MC_MIRI") else { return vec![] };
    let t: Vec<String> = t.split(':').map(|s| s.to_string()).collect();
    let Ok(tool) = <[String; 3]>::try_from(t) else { return vec![] };
vec![Box::new(MiriSpace::new(slices(q), tool))]
}

pub fn spaces(q: bool) -> Vec<Box<dyn Space>> {
    use crate::families::*;
    let mut v: Vec<Box<dyn Space>> = vec![];
    let mut add = |w, h, k, hole, st, map| v.push(Box::new(AnySpace { w, h, k, hole, st, map }) as Box<dyn Space>);
    for map in [ID, ROT, JIT2] {
        for k in 1..=5 {
            add(3, 3, k, 0, 0, map);
        }
        add(3, 3, 3, 0, 1, map);
        add(3, 3, 3, 0, 2, map);
        add(3, 3, 4, 0, 1, map);
        add(3, 3, 3, 2, 0, map);
        if map.name != "jit2" {
            add(3, 3, 6, 0, 0, map);
            add(3, 3, 3, 3, 0, map);
        }
        add(2, 2, 4, 3, 1, map);
        add(2, 3, 6, 0, 1, map);
        add(4, 3, 4, 0, 1, map);
    }
    if !q {
        for map in [ID, ROT, JIT2, SHEAR, TALL, NEAR] {
            add(3, 3, 6, 0, 0, map);
            add(3, 3, 5, 0, 1, map);
            add(3, 3, 4, 3, 0, map);
            add(3, 3, 3, 3, 1, map);
            add(4, 3, 5, 0, 0, map);
            add(4, 4, 4, 0, 1, map);
            add(2, 3, 8, 0, 0, map);
        }
        add(3, 3, 7, 0, 0, ID);
    }
    let mut odd = |values, k, st| v.push(Box::new(OddSpace { values, k, st }) as Box<dyn Space>);
    // larger ones would run for ever too often
    odd(MORE, 1, 0);
    odd(MORE, 2, 0);
    odd(ODD, 3, 0);
    odd(ODD, 2, 1);
    odd(EXTREME, 2, 1);
    odd(EXTREME, 1, 2);
    odd(EXTREME, 3, 0);
    if !q {
        odd(MORE, 1, 2);
        odd(FEW, 2, 2);
        odd(FEW, 3, 1);
        odd(FEW, 1, 4);
    }
    v.extend(uses(q));
    v.extend(interpreted(q));
    v
}
