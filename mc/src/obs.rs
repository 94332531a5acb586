//! What an observer sees during a triangulation: the protocol of the callbacks (C10), the sweep
//! state at every step (C11) and the consistency helpers of the sweep context (C17).
//!
//! The state of the sweep is a triangulation, so each member of a family is one path through the
//! state space; every state an observer can see on it is checked against an exact reference.
use crate::case::Case;
use crate::engine::*;
use crate::geom::*;
use crate::oracle::hash;
use poly2tri_rs::{Edge, Observer, PointId, Sweeper, TriangleId};

/// coordinates of all points of the context, fake ones included, as integers on a common scale
pub fn exact_points(ctx: &Sweeper) -> Option<Vec<P>> {
    let dec = |v: f64| -> (i64, i32) {
        // v = m * 2^e, m odd or 0
        if v == 0.0 {
            return (0, i32::MAX);
        }
        let b = v.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let f = (b & ((1 << 52) - 1)) as i64;
        let (m, e) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
        let t = m.trailing_zeros();
        (if v < 0.0 { -(m >> t) } else { m >> t }, e + t as i32)
    };
    let raw: Vec<[(i64, i32); 2]> =
        ctx.points.iter().map(|(_, p, _)| [dec(p.x as f64), dec(p.y as f64)]).collect();
    let e = raw.iter().flatten().map(|r| r.1).min()?;
    let mut v = Vec::with_capacity(raw.len());
    for r in raw {
        let mut q = [0i64; 2];
        for k in 0..2 {
            let (m, me) = r[k];
            if m == 0 {
                continue;
            }
            let s = me - e;
            let bits = 64 - m.unsigned_abs().leading_zeros() as i32;
            if s + bits > 58 {
                return None;
            }
            q[k] = m << s;
        }
        v.push((q[0], q[1]));
    }
    Some(v)
}

/// which state checks are done at which callback
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum At {
    Enter,
    Exit,
    EdgeDone,
    SweepDone,
    Finalized,
    Legalize,
}

pub struct State {
    pts: Vec<P>,
    /// sweep order
    pub order: Vec<usize>,
    /// constraint edges, lower end first
    pub edges: Vec<(usize, usize)>,
    /// triangle and edge index + 1 per directed edge
    grid: Vec<u32>,
    used: Vec<bool>,
    done: usize,
    edges_done: Vec<bool>,
    pub skip: bool,
    started: bool,
    pub hash: u64,
}

impl State {
    pub fn new(c: &Case) -> State {
        let p = c.all_points();
        let mut order: Vec<usize> = (0..p.len()).collect();
        order.sort_by_key(|&i| (p[i].1, p[i].0));
        let mut edges = vec![];
        let mut base = 0;
        for k in 0..=c.holes.len() {
            let n = if k == 0 { c.outer.len() } else { c.holes[k - 1].len() };
            for i in 0..n {
                let (a, b) = (base + i, base + (i + 1) % n);
                let lower = (p[a].1, p[a].0) < (p[b].1, p[b].0);
                edges.push(if lower { (a, b) } else { (b, a) });
            }
            base += n;
        }
        let m = edges.len();
        State {
            pts: vec![],
            order,
            edges,
            grid: vec![],
            used: vec![],
            done: 1,
            edges_done: vec![false; m],
            skip: false,
            started: false,
            hash: 0,
        }
    }

    fn start(&mut self, ctx: &Sweeper) {
        if self.started {
            return;
        }
        self.started = true;
        match exact_points(ctx) {
            Some(p) => self.pts = p,
            None => self.skip = true,
        }
        let n = self.order.len() + 2;
        self.grid = vec![0; n * n];
        self.used = vec![false; n];
    }

    /// the structural invariants; `bad`: a message
    pub fn check(&mut self, at: At, ctx: &Sweeper) -> Result<(), String> {
        self.start(ctx);
        if self.skip {
            return Ok(());
        }
        let n = self.pts.len();
        let (head, tail) = (n - 2, n - 1);
        if n != self.order.len() + 2 {
            return Err(format!("{} points for {} input points", n, self.order.len()));
        }
        self.grid.iter_mut().for_each(|g| *g = 0);
        self.used.iter_mut().for_each(|g| *g = false);
        let mut h = 0u64;
        // counter-clockwise triangles over known points; each directed edge at most once
        for (tid, t) in ctx.triangles.iter() {
            let ids = [t.points[0].as_usize(), t.points[1].as_usize(), t.points[2].as_usize()];
            if ids.iter().any(|&i| i >= n) {
                return Err(format!("triangle {} has a vertex id out of range", tid.as_usize()));
            }
            let o = orient(self.pts[ids[0]], self.pts[ids[1]], self.pts[ids[2]]);
            // a straight stretch of the front is filled with a triangle without area, which a later
            // rotation removes
            if o < 0 {
                return Err(format!("triangle {ids:?} is clockwise"));
            }
            for k in 0..3 {
                self.used[ids[k]] = true;
                // edge k is opposite of vertex k
                let (a, b) = (ids[(k + 1) % 3], ids[(k + 2) % 3]);
                let g = &mut self.grid[a * n + b];
                if *g != 0 {
                    return Err(format!("two triangles on the same side of the edge {a} {b}"));
                }
                *g = (tid.as_usize() * 4 + k) as u32 + 1;
            }
            let mut s = ids;
            s.sort();
            h = h.wrapping_add(hash(&s));
        }
        self.hash = h;
        // neighbour links and constraint flags
        let ntri = ctx.triangles.len();
        let mut border = 0;
        for (tid, t) in ctx.triangles.iter() {
            for k in 0..3 {
                let (a, b) = (t.points[(k + 1) % 3].as_usize(), t.points[(k + 2) % 3].as_usize());
                let g = self.grid[b * n + a];
                let nb = t.neighbors[k];
                if g == 0 {
                    border += 1;
                    if !nb.invalid() {
                        return Err(format!("edge {a} {b} has no second triangle, but a neighbour is recorded"));
                    }
                } else {
                    let (o, j) = ((g - 1) as usize / 4, (g - 1) as usize % 4);
                    if nb.invalid() || nb.as_usize() != o {
                        return Err(format!(
                            "the neighbour of triangle {} across the edge {a} {b} is not the one recorded",
                            tid.as_usize()
                        ));
                    }
                    let ot = nb.get(&*ctx.triangles);
                    if ot.is_constrained(j) != t.is_constrained(k) {
                        return Err(format!("edge {a} {b} is constrained on one side only"));
                    }
                }
                if t.is_constrained(k) {
                    let e = self.edges.iter().position(|&(p, q)| (p, q) == (a, b) || (p, q) == (b, a));
                    match e {
                        None => return Err(format!("edge {a} {b} is marked as constrained, but it is no input edge")),
                        Some(_) => {}
                    }
                }
            }
        }
        let _ = ntri;
        if at == At::Legalize {
            return Ok(());
        }
        // the front is the upper border
        let mut prev: Option<(usize, Option<TriangleId>)> = None;
        let mut links = 0;
        let mut last = None;
        for node in ctx.advancing_front.iter() {
            let id = node.point_id().as_usize();
            if id >= n {
                return Err("front node with an unknown point".into());
            }
            let (p, fp) = (ctx_point(ctx, id), node.point());
            if p != (fp.x as f64, fp.y as f64) {
                return Err(format!("front node {id} does not carry the coordinates of its point"));
            }
            match prev {
                None => {
                    if id != head {
                        return Err("the front does not start at the head point".into());
                    }
                }
                Some((q, t)) => {
                    if self.pts[q].0 >= self.pts[id].0 {
                        return Err(format!("front nodes {q} {id} are not ordered from left to right"));
                    }
                    let g = self.grid[id * n + q];
                    if g == 0 || self.grid[q * n + id] != 0 {
                        return Err(format!("the front link {q} {id} is no border edge of the triangulation"));
                    }
                    if t.map(|t| t.as_usize()) != Some((g - 1) as usize / 4) {
                        return Err(format!("the triangle of front node {q} is not the one below the link {q} {id}"));
                    }
                    links += 1;
                }
            }
            prev = Some((id, node.triangle));
            last = Some(id);
        }
        if last != Some(tail) {
            return Err("the front does not end at the tail point".into());
        }
        if border != links + 1 || self.grid[head * n + tail] == 0 {
            return Err(format!("the border has {border} edges, but the front has {links} links"));
        }
        // swept points are vertices, others are not
        for (k, &i) in self.order.iter().enumerate() {
            if (k < self.done) != self.used[i] {
                return Err(if k < self.done {
                    format!("point {i} was swept but is no vertex")
                } else {
                    format!("point {i} is a vertex before it was swept")
                });
            }
        }
        // reported edges are there
        for (e, &(a, b)) in self.edges.iter().enumerate() {
            let present = self.grid[a * n + b] != 0 || self.grid[b * n + a] != 0;
            let g = self.grid[a * n + b].max(self.grid[b * n + a]);
            let flagged = present && {
                let t = TriangleId::from_index((g - 1) as usize / 4);
                t.get(&*ctx.triangles).is_constrained((g - 1) as usize % 4)
            };
            if self.edges_done[e] && !flagged {
                return Err(format!("edge {a} {b} was processed but is not a constrained edge of the triangulation"));
            }
            if !self.edges_done[e] && flagged && at != At::Exit {
                return Err(format!("edge {a} {b} is marked as constrained before it was processed"));
            }
        }
        Ok(())
    }

    /// all ordered pairs (triangle, neighbour) across an unconstrained edge where the far vertex lies
    /// strictly inside of the triangle's circumcircle
    pub fn illegal(&self, ctx: &Sweeper) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (tid, t) in ctx.triangles.iter() {
            let ids = [t.points[0].as_usize(), t.points[1].as_usize(), t.points[2].as_usize()];
            for k in 0..3 {
                let nb = t.neighbors[k];
                if nb.invalid() || t.is_constrained(k) {
                    continue;
                }
                let ot = nb.get(&*ctx.triangles);
                let far = ot.points.iter().map(|p| p.as_usize()).find(|p| !ids.contains(p));
                let Some(far) = far else { continue };
                if incircle(self.pts[ids[0]], self.pts[ids[1]], self.pts[ids[2]], self.pts[far]) > 0 {
                    v.push((tid.as_usize(), nb.as_usize()));
                }
            }
        }
        v.sort_unstable();
        v
    }
}

fn ctx_point(ctx: &Sweeper, id: usize) -> (f64, f64) {
    let p = ctx.points.points()[id];
    (p.x as f64, p.y as f64)
}

// ------------------------------------------------------------------ C11

struct StateMon {
    st: State,
    err: Option<String>,
    steps: u64,
    hashes: Vec<u64>,
    deep: bool,
}

impl StateMon {
    fn at(&mut self, at: At, what: &str, ctx: &Sweeper) {
        if self.err.is_some() {
            return;
        }
        self.steps += 1;
        if let Err(m) = self.st.check(at, ctx) {
            self.err = Some(format!("{what}: {m}"));
            return;
        }
        if self.st.skip {
            return;
        }
        self.hashes.push(self.st.hash);
        if at == At::Exit || at == At::SweepDone || at == At::Enter || at == At::EdgeDone {
            let v = self.st.illegal(ctx);
            if let Some((a, b)) = v.first() {
                self.err = Some(format!("{what}: the edge between triangles {a} and {b} is not locally Delaunay"));
            }
        }
    }
}

impl Observer for StateMon {
    fn enter_point_event(&mut self, id: PointId, ctx: &Sweeper) {
        self.at(At::Enter, &format!("before point {}", id.as_usize()), ctx);
    }
    fn exit_point_event(&mut self, id: PointId, ctx: &Sweeper) {
        self.st.done += 1;
        self.at(At::Exit, &format!("after point {}", id.as_usize()), ctx);
    }
    fn edge_event(&mut self, e: Edge, ctx: &Sweeper) {
        let (a, b) = (e.p.as_usize(), e.q.as_usize());
        match self.st.edges.iter().position(|&x| x == (a, b)) {
            Some(k) => self.st.edges_done[k] = true,
            None => {}
        }
        self.at(At::EdgeDone, &format!("after edge {a} {b}"), ctx);
    }
    fn sweep_done(&mut self, ctx: &Sweeper) {
        self.at(At::SweepDone, "after the sweep", ctx);
    }
    fn finalized(&mut self, ctx: &Sweeper) {
        self.at(At::Finalized, "after the clean-up", ctx);
        if self.err.is_some() || self.st.skip {
            return;
        }
        // the result is a region bounded by constrained edges
        let n = ctx.triangles.len();
        let mut inside = vec![false; n];
        for t in &ctx.result {
            if t.as_usize() >= n || std::mem::replace(&mut inside[t.as_usize()], true) {
                self.err = Some("the result lists a triangle twice, or one that does not exist".into());
                return;
            }
        }
        for t in &ctx.result {
            let tri = t.get(&*ctx.triangles);
            for k in 0..3 {
                let nb = tri.neighbors[k];
                if !tri.is_constrained(k) && (nb.invalid() || !inside[nb.as_usize()]) {
                    self.err = Some("the result ends at an edge that is no constraint".into());
                    return;
                }
                if tri.is_constrained(k) && !nb.invalid() && inside[nb.as_usize()] {
                    self.err = Some("the result has triangles on both sides of a constraint".into());
                    return;
                }
            }
        }
    }
    fn will_legalize(&mut self, t: TriangleId, ctx: &Sweeper) {
        if self.deep {
            self.at(At::Legalize, &format!("before legalizing triangle {}", t.as_usize()), ctx);
        }
    }
    fn legalize_step(&mut self, t: TriangleId, ctx: &Sweeper) {
        if self.deep {
            self.at(At::Legalize, &format!("while legalizing triangle {}", t.as_usize()), ctx);
        }
    }
    fn legalized(&mut self, t: TriangleId, ctx: &Sweeper) {
        if self.deep {
            self.at(At::Legalize, &format!("after legalizing triangle {}", t.as_usize()), ctx);
        }
    }
}

pub fn observed<O: Observer>(c: &Case, o: &mut O, w: &mut W) -> Result<Vec<u32>, String> {
    let idx = lib(|| c.builder().build().triangulate_with_observer(o).triangle_list_indices())
        .map_err(|m| format!("triangulate does not return: {m}"))?;
    w.traces += 1;
    Ok(idx)
}

pub fn sweep_state(c: &Case, w: &mut W) -> Result<(), String> {
    let mut o = StateMon { st: State::new(c), err: None, steps: 0, hashes: vec![], deep: true };
    let r = observed(c, &mut o, w);
    if o.st.skip {
        w.filtered += 1;
        w.states -= 1;
        return Ok(());
    }
    // the states of this path; the initial case itself was counted by the caller
    w.states += o.steps.saturating_sub(1);
    w.transitions += o.steps;
    for h in o.hashes {
        w.outcome(h);
    }
    match o.err {
        Some(m) => Err(m),
        None => r.map(|_| ()),
    }
}

// ------------------------------------------------------------------ C17

struct VerifyMon {
    st: State,
    err: Option<String>,
    steps: u64,
    nonempty: u64,
}

impl VerifyMon {
    fn at(&mut self, what: &str, ctx: &Sweeper) {
        if self.err.is_some() {
            return;
        }
        self.st.start(ctx);
        if self.st.skip {
            return;
        }
        self.steps += 1;
        let want = self.st.illegal(ctx);
        let mut got: Vec<(usize, usize)> =
            ctx.illegal_triangles().iter().map(|(a, b)| (a.as_usize(), b.as_usize())).collect();
        got.sort_unstable();
        if got != want {
            self.err = Some(format!("{what}: illegal_triangles reports {got:?}, the exact answer is {want:?}"));
        } else if ctx.verify_triangles() != want.is_empty() {
            self.err = Some(format!("{what}: verify_triangles is wrong, the illegal pairs are {want:?}"));
        }
        self.nonempty += !want.is_empty() as u64;
    }
}

impl Observer for VerifyMon {
    fn enter_point_event(&mut self, id: PointId, ctx: &Sweeper) {
        self.at(&format!("before point {}", id.as_usize()), ctx);
    }
    fn exit_point_event(&mut self, id: PointId, ctx: &Sweeper) {
        self.at(&format!("after point {}", id.as_usize()), ctx);
    }
    fn edge_event(&mut self, e: Edge, ctx: &Sweeper) {
        self.at(&format!("after edge {} {}", e.p.as_usize(), e.q.as_usize()), ctx);
    }
    fn sweep_done(&mut self, ctx: &Sweeper) {
        self.at("after the sweep", ctx);
    }
    fn finalized(&mut self, ctx: &Sweeper) {
        self.at("after the clean-up", ctx);
    }
    fn will_legalize(&mut self, t: TriangleId, ctx: &Sweeper) {
        self.at(&format!("before legalizing triangle {}", t.as_usize()), ctx);
    }
    fn legalize_step(&mut self, t: TriangleId, ctx: &Sweeper) {
        self.at(&format!("while legalizing triangle {}", t.as_usize()), ctx);
    }
    fn triangle_rotated(&mut self, t: TriangleId, o: TriangleId, ctx: &Sweeper) {
        self.at(&format!("rotation of {} {}", t.as_usize(), o.as_usize()), ctx);
    }
    fn legalized(&mut self, t: TriangleId, ctx: &Sweeper) {
        self.at(&format!("after legalizing triangle {}", t.as_usize()), ctx);
    }
}

pub fn verification(c: &Case, w: &mut W) -> Result<(), String> {
    let mut o = VerifyMon { st: State::new(c), err: None, steps: 0, nonempty: 0 };
    let r = observed(c, &mut o, w);
    if o.st.skip {
        w.filtered += 1;
        w.states -= 1;
        return Ok(());
    }
    w.states += o.steps.saturating_sub(1);
    w.transitions += o.steps;
    w.outcome(hash(&(o.steps, o.nonempty)));
    match o.err {
        Some(m) => Err(m),
        None => r.map(|_| ()),
    }
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ph {
    /// between points
    Idle,
    InPoint,
    /// after exit of this position in the order
    AfterPoint,
    SweepDone,
    Finalized,
}

struct ProtoMon {
    ph: Ph,
    order: Vec<usize>,
    edges: Vec<(usize, usize)>,
    edge_seen: Vec<bool>,
    /// next position of the sweep order
    pos: usize,
    bracket: Option<usize>,
    err: Option<String>,
    events: u64,
    log: Vec<u32>,
    /// triangles at the last callback inside of a bracket
    tri: Vec<[u32; 3]>,
    /// an announced rotation, and the vertices of the two triangles before it
    pending: Option<(usize, usize, bool)>,
    base: Vec<[u32; 3]>,
    result: Vec<u32>,
}

impl ProtoMon {
    fn new(c: &Case) -> ProtoMon {
        let s = State::new(c);
        let m = s.edges.len();
        ProtoMon {
            ph: Ph::Idle,
            order: s.order,
            edges: s.edges,
            edge_seen: vec![false; m],
            pos: 1,
            bracket: None,
            err: None,
            events: 0,
            log: vec![],
            tri: vec![],
            pending: None,
            base: vec![],
            result: vec![],
        }
    }
    fn bad(&mut self, m: String) {
        if self.err.is_none() {
            self.err = Some(m);
        }
    }
    fn event(&mut self, code: u32, id: usize, ctx: &Sweeper) {
        self.events += 1;
        self.log.push(code << 24 | id as u32);
        if self.ph != Ph::SweepDone && self.ph != Ph::Finalized && !ctx.result.is_empty() {
            self.bad("the result is not empty during the sweep".into());
        }
    }
    fn outside(&mut self, what: &str) {
        if self.bracket.is_some() {
            self.bad(format!("{what} between will_legalize and legalized"));
        }
    }
    fn shot(ctx: &Sweeper) -> Vec<[u32; 3]> {
        ctx.triangles
            .iter()
            .map(|(_, t)| {
                let mut v = [t.points[0].as_u32(), t.points[1].as_u32(), t.points[2].as_u32()];
                v.sort();
                v
            })
            .collect()
    }
    /// compares with the state at the last callback: only an announced rotation may change triangles
    fn step(&mut self, ctx: &Sweeper) {
        let now = Self::shot(ctx);
        if let Some((a, b, done)) = self.pending.take() {
            if !done {
                self.flipped(a, b, &now);
            } else if now != self.tri {
                self.bad("triangles change during a legalization without a triangle_rotated call".into());
            }
        } else if now != self.tri {
            self.bad("triangles change during a legalization without a triangle_rotated call".into());
        }
        self.tri = now;
    }
    fn flipped(&mut self, a: usize, b: usize, now: &[[u32; 3]]) {
        let old = &self.tri;
        if now.len() != old.len() || a >= now.len() || b >= now.len() || a == b {
            return self.bad("triangles are added or removed during a legalization".into());
        }
        if (0..now.len()).any(|i| i != a && i != b && now[i] != old[i]) {
            return self.bad("a rotation changes a triangle that it does not name".into());
        }
        let common = |x: &[u32; 3], y: &[u32; 3]| -> Vec<u32> { x.iter().filter(|v| y.contains(v)).copied().collect() };
        let (c0, c1) = (common(&old[a], &old[b]), common(&now[a], &now[b]));
        let all = |x: &[u32; 3], y: &[u32; 3]| {
            let mut v: Vec<u32> = x.iter().chain(y).copied().collect();
            v.sort();
            v.dedup();
            v
        };
        if c0.len() != 2
            || c1.len() != 2
            || all(&old[a], &old[b]) != all(&now[a], &now[b])
            || c0.iter().any(|v| c1.contains(v))
        {
            self.bad(format!("the rotation of triangles {a} and {b} does not swap the diagonal between them"));
        }
    }
}

impl Observer for ProtoMon {
    fn enter_point_event(&mut self, id: PointId, ctx: &Sweeper) {
        self.event(1, id.as_usize(), ctx);
        self.outside("enter_point_event");
        if self.ph != Ph::Idle && self.ph != Ph::AfterPoint {
            self.bad(format!("enter_point_event for {} comes in phase {:?}", id.as_usize(), self.ph));
        }
        self.edges_complete();
        if self.order.get(self.pos) != Some(&id.as_usize()) {
            self.bad(format!(
                "point event for {}, the next one in sweep order is {:?}",
                id.as_usize(),
                self.order.get(self.pos)
            ));
        }
        self.ph = Ph::InPoint;
    }
    fn exit_point_event(&mut self, id: PointId, ctx: &Sweeper) {
        self.event(2, id.as_usize(), ctx);
        self.outside("exit_point_event");
        if self.ph != Ph::InPoint || self.order.get(self.pos) != Some(&id.as_usize()) {
            self.bad(format!("exit_point_event for {} without its enter_point_event", id.as_usize()));
        }
        self.pos += 1;
        self.ph = Ph::AfterPoint;
    }
    fn edge_event(&mut self, e: Edge, ctx: &Sweeper) {
        self.event(3, e.q.as_usize(), ctx);
        self.outside("edge_event");
        let (a, b) = (e.p.as_usize(), e.q.as_usize());
        if self.ph != Ph::AfterPoint || self.pos == 0 || self.order[self.pos - 1] != b {
            self.bad(format!("edge event for {a} {b} does not follow the point event of its upper end"));
        }
        match self.edges.iter().position(|&x| x == (a, b)) {
            None => self.bad(format!("edge event for {a} {b}, which is no input edge given lower end first")),
            Some(k) if self.edge_seen[k] => self.bad(format!("second edge event for {a} {b}")),
            Some(k) => self.edge_seen[k] = true,
        }
    }
    fn sweep_done(&mut self, ctx: &Sweeper) {
        self.event(4, 0, ctx);
        self.outside("sweep_done");
        self.edges_complete();
        if self.pos != self.order.len() || (self.ph != Ph::AfterPoint && self.ph != Ph::Idle) {
            self.bad(format!("sweep_done in phase {:?} after {} of {} points", self.ph, self.pos, self.order.len()));
        }
        self.ph = Ph::SweepDone;
        if !ctx.result.is_empty() {
            self.bad("the result is not empty before the clean-up".into());
        }
    }
    fn finalized(&mut self, ctx: &Sweeper) {
        self.event(5, 0, ctx);
        if self.ph != Ph::SweepDone {
            self.bad(format!("finalized in phase {:?}", self.ph));
        }
        self.ph = Ph::Finalized;
        for t in &ctx.result {
            match t.try_get(&*ctx.triangles) {
                Some(t) => self.result.extend(t.points.iter().map(|p| p.as_u32())),
                None => return self.bad("unknown triangle in the result".into()),
            }
        }
    }
    fn will_legalize(&mut self, t: TriangleId, ctx: &Sweeper) {
        self.event(6, t.as_usize(), ctx);
        if self.bracket.is_some() {
            self.bad("nested will_legalize".into());
        }
        if self.ph != Ph::InPoint && self.ph != Ph::AfterPoint {
            self.bad(format!("legalization in phase {:?}", self.ph));
        }
        self.bracket = Some(t.as_usize());
        self.pending = None;
        self.tri = Self::shot(ctx);
        if t.as_usize() >= self.tri.len() {
            self.bad("will_legalize for an unknown triangle".into());
        }
    }
    fn legalize_step(&mut self, t: TriangleId, ctx: &Sweeper) {
        self.event(7, t.as_usize(), ctx);
        if self.bracket.is_none() {
            return self.bad("legalize_step outside of a legalization".into());
        }
        self.step(ctx);
        if t.as_usize() >= self.tri.len() {
            self.bad("legalize_step for an unknown triangle".into());
        }
    }
    fn triangle_rotated(&mut self, t: TriangleId, o: TriangleId, ctx: &Sweeper) {
        self.event(8, t.as_usize(), ctx);
        if self.bracket.is_none() {
            return self.bad("triangle_rotated outside of a legalization".into());
        }
        // an earlier rotation must have happened by now
        if self.pending.is_some() {
            self.step(ctx);
        }
        let now = Self::shot(ctx);
        let (a, b) = (t.as_usize(), o.as_usize());
        // the call may come right before or right after the change
        if now != self.tri {
            self.flipped(a, b, &now);
            self.tri = now;
            self.pending = Some((a, b, true));
        } else {
            self.pending = Some((a, b, false));
        }
    }
    fn legalized(&mut self, t: TriangleId, ctx: &Sweeper) {
        self.event(9, t.as_usize(), ctx);
        match self.bracket.take() {
            None => return self.bad("legalized without will_legalize".into()),
            Some(b) if b != t.as_usize() => {
                self.bad(format!("legalized names triangle {}, will_legalize named {b}", t.as_usize()))
            }
            _ => {}
        }
        self.step(ctx);
    }
}

impl ProtoMon {
    fn edges_complete(&mut self) {
        if self.pos == 0 || self.pos > self.order.len() {
            return;
        }
        let b = self.order[self.pos - 1];
        for (k, &(p, q)) in self.edges.iter().enumerate() {
            if q == b && !self.edge_seen[k] {
                let m = format!("no edge event for the edge {p} {q} after the point event of {q}");
                if self.err.is_none() {
                    self.err = Some(m);
                }
            }
        }
    }
}

pub fn protocol(c: &Case, w: &mut W) -> Result<(), String> {
    let mut o = ProtoMon::new(c);
    let idx = observed(c, &mut o, w)?;
    w.transitions += o.events;
    w.outcome(hash(&o.log));
    if let Some(m) = o.err {
        return Err(m);
    }
    if o.ph != Ph::Finalized {
        return Err("finalized was never called".into());
    }
    if o.bracket.is_some() {
        return Err("will_legalize without legalized".into());
    }
    if o.result != idx {
        return Err("the result seen by finalized is not the result returned".into());
    }
    let plain = lib(|| c.builder().build().triangulate().triangle_list_indices())
        .map_err(|m| format!("without an observer: {m}"))?;
    if plain != idx {
        return Err("the result is another one without the observer".into());
    }
    let twice = lib(|| c.builder().build().triangulate_with_observer(&mut ()).triangle_list_indices())
        .map_err(|m| format!("with the blank observer: {m}"))?;
    if twice != idx {
        return Err("the result is another one with the blank observer".into());
    }
    Ok(())
}

#[macro_export]
macro_rules! at_every_callback {
    ($t:ty) => {
        impl Observer for $t {
            fn enter_point_event(&mut self, id: PointId, ctx: &Sweeper) {
                self.at(false, || format!("before point {}", id.as_usize()), ctx);
            }
            fn exit_point_event(&mut self, id: PointId, ctx: &Sweeper) {
                self.at(true, || format!("after point {}", id.as_usize()), ctx);
            }
            fn edge_event(&mut self, e: Edge, ctx: &Sweeper) {
                self.at(true, || format!("after edge {} {}", e.p.as_usize(), e.q.as_usize()), ctx);
            }
            fn sweep_done(&mut self, ctx: &Sweeper) {
                self.at(true, || "after the sweep".to_string(), ctx);
            }
            fn finalized(&mut self, ctx: &Sweeper) {
                self.at(true, || "after the clean-up".to_string(), ctx);
            }
            fn will_legalize(&mut self, t: TriangleId, ctx: &Sweeper) {
                self.at(false, || format!("before legalizing triangle {}", t.as_usize()), ctx);
            }
            fn legalize_step(&mut self, t: TriangleId, ctx: &Sweeper) {
                self.at(false, || format!("while legalizing triangle {}", t.as_usize()), ctx);
            }
            fn triangle_rotated(&mut self, t: TriangleId, o: TriangleId, ctx: &Sweeper) {
                self.at(false, || format!("at the rotation of triangles {} and {}", t.as_usize(), o.as_usize()), ctx);
            }
            fn legalized(&mut self, t: TriangleId, ctx: &Sweeper) {
                self.at(false, || format!("after legalizing triangle {}", t.as_usize()), ctx);
            }
        }
    };
}
