//! The queries on the advancing front (C19).
use crate::case::Case;
use crate::engine::*;
use crate::obs::*;
use crate::oracle::hash;
use poly2tri_rs::{Edge, Observer, PointId, Sweeper, TriangleId};

type Node = (usize, f64, f64);
/// what a node id remembered from an earlier state gives now: the node, the next and the previous one
type Ask = Box<dyn Fn(&Sweeper) -> [Option<Node>; 3]>;

struct FrontMon {
    kept: Vec<(Node, usize, Ask)>,
    max: usize,
    err: Option<String>,
    steps: u64,
    queries: u64,
    hash: u64,
}

macro_rules! node {
    ($n:expr) => {{
        let n = $n;
        (n.point_id().as_usize(), n.point().x as f64, n.point().y as f64)
    }};
}

impl FrontMon {
    fn state(&mut self, full: bool, ctx: &Sweeper) -> Result<(), String> {
        let af = &*ctx.advancing_front;
        let l: Vec<Node> = af.iter().map(|n| node!(n)).collect();
        let n = ctx.points.len();
        let less = |a: &Node, x: f64, y: f64| a.1 < x || (a.1 == x && a.2 < y);
        if l.len() < 2 || l[0].0 != n - 2 || l[l.len() - 1].0 != n - 1 {
            return Err("the front does not reach from the head to the tail point".into());
        }
        for w in l.windows(2) {
            if !less(&w[0], w[1].1, w[1].2) {
                return Err(format!("iter lists node {} before {}", w[0].0, w[1].0));
            }
        }
        // by position
        for (i, want) in l.iter().enumerate() {
            let Some(r) = af.nth(i) else { return Err(format!("nth({i}) of {} nodes is None", l.len())) };
            if node!(&r) != *want {
                return Err(format!("nth({i}) is not the node that iter lists there"));
            }
            if r.next().map(|n| node!(n)) != l.get(i + 1).copied() {
                return Err(format!("next() of node {i} is not node {}", i + 1));
            }
            if r.prev().map(|n| node!(n)) != i.checked_sub(1).map(|k| l[k]) {
                return Err(format!("prev() of node {i} is not the node before it"));
            }
            let far = [r.next().and_then(|a| a.next().map(|b| node!(b))), r.next().and_then(|a| a.prev().map(|b| node!(b)))];
            let want = [l.get(i + 2).copied(), l.get(i + 1).map(|_| l[i])];
            if far != want {
                return Err(format!("next().next() or next().prev() of node {i} is wrong"));
            }
            self.queries += 5;
            let key = (l[i], i);
            if self.kept.len() < self.max && !self.kept.iter().any(|k| (k.0, k.1) == key) {
                let id = r.get_node_id();
                if (id.point_id().as_usize(), id.point().x as f64, id.point().y as f64) != l[i] {
                    return Err(format!("get_node_id of node {i} names another node"));
                }
                let ask = move |ctx: &Sweeper| {
                    let af = &*ctx.advancing_front;
                    [
                        af.get_node_with_id(id).map(|n| node!(n)),
                        af.locate_next_node(id).map(|n| node!(n)),
                        af.locate_prev_node(id).map(|n| node!(n)),
                    ]
                };
                self.kept.push((l[i], i, Box::new(ask)));
            }
        }
        if af.nth(l.len()).is_some() {
            return Err("nth gives a node after the last one".into());
        }
        // by coordinates
        let find = |x: f64, y: f64| l.iter().find(|m| (m.1, m.2) == (x, y)).copied();
        let mut q: Vec<(f64, f64)> = vec![];
        let p = ctx.points.points();
        for a in p {
            if full {
                q.extend(p.iter().map(|b| (a.x as f64, b.y as f64)));
            } else {
                q.push((a.x as f64, a.y as f64));
            }
        }
        for w in l.windows(2) {
            q.push(((w[0].1 + w[1].1) / 2.0, w[0].2));
        }
        let (h, t) = (l[0], l[l.len() - 1]);
        let d = t.1 - h.1;
        q.extend([(h.1 - d, h.2), (h.1, h.2 - d), (t.1 + d, t.2), (t.1, t.2 + d)]);
        for (x, y) in q {
            let at = poly2tri_rs::Point::new(x as poly2tri_rs::Float, y as poly2tri_rs::Float);
            let (got, want) = (af.get_node(at).map(|n| node!(n)), find(x, y));
            if got != want {
                return Err(format!("get_node(({x:?}, {y:?})) is {got:?}, the front has {want:?}"));
            }
            let want = l.iter().rev().find(|m| !less(&(0, x, y), m.1, m.2)).copied();
            let got = af.locate_node(at).map(|n| node!(n));
            if got != want {
                return Err(format!("locate_node(({x:?}, {y:?})) is {got:?}, the last node up to there is {want:?}"));
            }
            self.queries += 2;
        }
        // by id, from this state and from earlier ones
        for (k, i, ask) in &self.kept {
            let want = [
                find(k.1, k.2),
                l.iter().find(|m| less(k, m.1, m.2)).copied(),
                l.iter().rev().find(|m| less(m, k.1, k.2)).copied(),
            ];
            let got = ask(ctx);
            for (j, what) in ["get_node_with_id", "locate_next_node", "locate_prev_node"].iter().enumerate() {
                if got[j] != want[j] {
                    return Err(format!(
                        "{what} of the id of point {} (node {i} when it was taken) is {:?}, the front has {:?}",
                        k.0, got[j], want[j]
                    ));
                }
            }
            self.queries += 3;
        }
        self.hash = hash(&(self.hash, l.iter().map(|n| n.0).collect::<Vec<_>>()));
        Ok(())
    }
    fn at(&mut self, full: bool, what: impl FnOnce() -> String, ctx: &Sweeper) {
        if self.err.is_none() {
            self.steps += 1;
            let r = lib(|| self.state(full, ctx)).unwrap_or_else(|m| Err(format!("a query panics: {m}")));
            self.err = r.err().map(|m| format!("{}: {m}", what()));
        }
    }
}

crate::at_every_callback!(FrontMon);

pub fn front_queries(c: &Case, w: &mut W) -> Result<(), String> {
    let mut o = FrontMon { kept: vec![], max: 60, err: None, steps: 0, queries: 0, hash: 0 };
    let r = observed(c, &mut o, w);
    w.states += o.steps.saturating_sub(1);
    w.transitions += o.queries;
    w.outcome(o.hash);
    match o.err {
        Some(m) => Err(m),
        None => r.map(|_| ()),
    }
}
