//! The queries on the stores of points and triangles (C20).
use crate::case::Case;
use crate::engine::*;
use crate::obs::*;
use crate::oracle::hash;
use poly2tri_rs::{Edge, Observer, PointId, Sweeper, TriangleId};

struct StoreMon {
    case: Case,
    order: Vec<usize>,
    /// the edges of each point that end there
    ends: Vec<Vec<usize>>,
    err: Option<String>,
    steps: u64,
    queries: u64,
    hash: u64,
}

impl StoreMon {
    fn points(&mut self, ctx: &Sweeper) -> Result<(), String> {
        let c = &self.case;
        let all = c.all_points();
        let n = all.len();
        let p = ctx.points;
        let fl = |i: usize| (to(all[i].0, c.exp), to(all[i].1, c.exp));
        fn to(v: i64, e: i32) -> f64 {
            crate::case::to_float(v, e) as f64
        }
        if p.len() != n + 2 || p.points().len() != n + 2 || p.points_without_fake().len() != n {
            return Err(format!("the point store has {} points for {n} input points", p.len()));
        }
        if p.iter().count() != n + 2 || p.iter_without_fake().count() != n {
            return Err("iter or iter_without_fake lists another number of points".into());
        }
        for (i, (id, q, e)) in p.iter().enumerate() {
            let want = if i < n { fl(i) } else { (p.points()[i].x as f64, p.points()[i].y as f64) };
            let g = p.get_point(id).map(|g| (g.x as f64, g.y as f64));
            if id.as_usize() != i || id.as_u32() as usize != i || (q.x as f64, q.y as f64) != want || g != Some(want) {
                return Err(format!("iter or get_point gives another point for id {i}"));
            }
            let mut got: Vec<usize> = e.map(|e| e.as_usize()).collect();
            got.sort();
            if i < n && got != self.ends[i] {
                return Err(format!("point {i} lists edges to {got:?}, the ones that end there come from {:?}", self.ends[i]));
            }
        }
        for (i, (id, q, e)) in p.iter_without_fake().enumerate() {
            let mut got: Vec<usize> = e.map(|e| e.as_usize()).collect();
            got.sort();
            if id.as_usize() != i || (q.x as f64, q.y as f64) != fl(i) || got != self.ends[i] {
                return Err(format!("iter_without_fake gives another point for id {i}"));
            }
        }
        for k in 0..=n {
            let got: Vec<usize> = p.iter_point_by_y(k).map(|x| x.0.as_usize()).collect();
            if got != self.order[k..] || p.get_id_by_y(k).map(|x| x.as_usize()) != self.order.get(k).copied() {
                return Err(format!("the points from position {k} of the sweep order are not sorted by y, then x"));
            }
        }
        for (id, q, e) in p.iter_point_by_y(0) {
            let i = id.as_usize();
            let mut got: Vec<usize> = e.map(|e| e.as_usize()).collect();
            got.sort();
            if (q.x as f64, q.y as f64) != fl(i) || got != self.ends[i] {
                return Err(format!("iter_point_by_y gives other coordinates or edges for point {i}"));
            }
        }
        // the two fake points: left and right of all points, and below or at the lowest one
        let (h, t) = (p.get_point(p.head).ok_or("no head point")?, p.get_point(p.tail).ok_or("no tail point")?);
        for i in 0..n {
            let (x, y) = fl(i);
            if !((h.x as f64) < x && x < t.x as f64 && h.y as f64 <= y && t.y as f64 <= y) {
                return Err(format!("point {i} is not between and above the two auxiliary points"));
            }
        }
        Ok(())
    }
    fn state(&mut self, full: bool, ctx: &Sweeper) -> Result<(), String> {
        if self.steps == 1 {
            self.points(ctx)?;
        }
        let tr = &*ctx.triangles;
        let n = tr.len();
        let mut h = 0u64;
        for (k, (id, t)) in tr.iter().enumerate() {
            if id.as_usize() != k || id.invalid() || !std::ptr::eq(id.get(tr), t) {
                return Err(format!("the {k}th triangle of iter has another id"));
            }
            if !tr.get(id).map_or(false, |o| std::ptr::eq(o, t)) || !id.try_get(tr).map_or(false, |o| std::ptr::eq(o, t)) || id.into_option() != Some(id) || TriangleId::from_index(k) != id {
                return Err(format!("get or try_get of triangle {k} is another triangle"));
            }
            let v = t.points;
            h = h.wrapping_mul(31).wrapping_add(hash(&[v[0].as_u32(), v[1].as_u32(), v[2].as_u32()]));
            for i in 0..3 {
                let (a, b, c) = (v[i], v[(i + 1) % 3], v[(i + 2) % 3]);
                let bad = |what: &str| Err(format!("{what} of triangle {k} at its point {i} is wrong"));
                if t.point_index(a) != Some(i) {
                    return bad("point_index");
                }
                if t.point_ccw(a) != b {
                    return bad("point_ccw");
                }
                if t.point_cw(a) != c {
                    return bad("point_cw");
                }
                if t.neighbor_across(a) != t.neighbors[i] {
                    return bad("neighbor_across");
                }
                // edge k is the one opposite of point k
                if t.neighbor_ccw(a) != t.neighbors[(i + 2) % 3] {
                    return bad("neighbor_ccw");
                }
                if t.neighbor_cw(a) != t.neighbors[(i + 1) % 3] {
                    return bad("neighbor_cw");
                }
                if t.constrained_edge_cw(a) != t.is_constrained((i + 1) % 3) {
                    return bad("constrained_edge_cw");
                }
                if t.edge_index(b, c) != Some(i) || t.edge_index(c, b) != Some(i) {
                    return bad("edge_index");
                }
                let nb = t.neighbors[i];
                if let Some(o) = tr.get(nb) {
                    if t.neighbor_index(nb) != i {
                        return bad("neighbor_index");
                    }
                    let Some((p, q)) = t.common_edge_index(o) else { return bad("common_edge_index") };
                    if p != i || o.points[q] == b || o.points[q] == c {
                        return bad("common_edge_index");
                    }
                    let far = o.opposite_point(t, a);
                    if o.points[q] != far {
                        return bad("opposite_point");
                    }
                }
                // edges that are none of the triangle
                for (oid, o) in tr.iter().take(if full { n } else { 0 }) {
                    let common = o.points.iter().filter(|p| v.contains(p)).count();
                    if common < 2 && oid != id {
                        if t.common_edge_index(o).is_some() {
                            return bad("common_edge_index");
                        }
                        for p in o.points {
                            if !v.contains(&p) && (t.edge_index(a, p).is_some() || t.point_index(p).is_some()) {
                                return bad("edge_index or point_index of a foreign point");
                            }
                        }
                    }
                }
                self.queries += 12;
            }
        }
        if tr.get(TriangleId::from_index(n)).is_some()
            || tr.get(TriangleId::INVALID).is_some()
            || TriangleId::INVALID.try_get(tr).is_some()
            || TriangleId::INVALID.into_option().is_some()
            || !TriangleId::INVALID.invalid()
        {
            return Err("get gives a triangle for an id that none has".into());
        }
        self.hash = hash(&(self.hash, h));
        Ok(())
    }
    fn at(&mut self, full: bool, what: impl FnOnce() -> String, ctx: &Sweeper) {
        if self.err.is_none() {
            self.steps += 1;
            let r = lib(|| self.state(full, ctx)).unwrap_or_else(|m| Err(format!("a query panics: {m}")));
            self.err = r.err().map(|m| format!("{}: {m}", what()));
        }
    }
}

crate::at_every_callback!(StoreMon);

pub fn store_queries(c: &Case, w: &mut W) -> Result<(), String> {
    let s = State::new(c);
    let mut ends = vec![vec![]; c.n()];
    for &(a, b) in &s.edges {
        ends[b].push(a);
    }
    ends.iter_mut().for_each(|e| e.sort());
    let mut o = StoreMon { case: c.clone(), order: s.order, ends, err: None, steps: 0, queries: 0, hash: 0 };
    let r = observed(c, &mut o, w);
    w.states += o.steps.saturating_sub(1);
    w.transitions += o.queries;
    w.outcome(o.hash);
    match o.err {
        Some(m) => Err(m),
        None => r.map(|_| ()),
    }
}
