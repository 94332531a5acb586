//! The properties that are decided through the public API alone.
use crate::case::*;
use crate::engine::*;
use crate::geom::*;
use crate::oracle::{self, canon, Verdict, CONSTRAINT, COUNT, DELAUNAY, INDEX, ORIENT, TILING, USAGE};
use std::sync::Arc;

pub type CaseCheck = fn(&Case, &mut W) -> Result<(), String>;

/// every member of a family under one check
pub struct CaseSpace {
    pub gen: Arc<dyn Gen>,
    pub check: CaseCheck,
    pub limit_s: u64,
    pub chunk: u64,
}

impl Space for CaseSpace {
    fn name(&self) -> String {
        self.gen.name()
    }
    fn len(&self) -> u64 {
        self.gen.len()
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let mut c = std::mem::take(&mut w.case);
        let r = if self.gen.get(i, &mut c) {
            w.states += 1;
            (self.check)(&c, w)
        } else {
            w.filtered += 1;
            Ok(())
        };
        w.case = c;
        r
    }
    fn describe(&self, i: u64) -> String {
        if let Some(s) = self.gen.label(i) {
            return s;
        }
        let mut c = Case::default();
        for k in 0..self.len().min(10000) {
            if self.gen.get((i + k) % self.len(), &mut c) {
                break;
            }
        }
        c.describe()
    }
    fn snippet(&self, i: u64) -> String {
        let mut c = Case::default();
        if self.gen.get(i, &mut c) {
            c.snippet()
        } else {
            String::new()
        }
    }
    fn time_limit_s(&self) -> u64 {
        self.limit_s
    }
    fn chunk(&self) -> u64 {
        self.chunk
    }
}

pub fn space_of(gen: Arc<dyn Gen>, check: CaseCheck) -> Box<dyn Space> {
    Box::new(CaseSpace { gen, check, limit_s: 20, chunk: 64 })
}

/// one complete execution of the library; the number of sweep steps it takes is known: one per
/// point and per constraint edge, and the final clean-up
pub fn triangulate(c: &Case, w: &mut W) -> Result<Vec<u32>, String> {
    let r = lib(|| c.builder().build().triangulate().triangle_list_indices())
        .map_err(|m| format!("triangulate does not return: {m}"))?;
    let edges = c.outer.len() + c.holes.iter().map(|h| h.len()).sum::<usize>();
    w.transitions += (c.n() - 1 + edges + 1) as u64;
    w.traces += 1;
    w.outcome(oracle::hash(&r));
    Ok(r)
}

pub fn reference(c: &Case, idx: &[u32], w: &mut W) -> Verdict {
    let mut s = std::mem::take(&mut w.oracle);
    let v = oracle::check(c, idx, &mut s);
    w.oracle = s;
    v
}

// C01
pub fn completes(c: &Case, w: &mut W) -> Result<(), String> {
    triangulate(c, w).map(|_| ())
}
// C02
pub fn tiles(c: &Case, w: &mut W) -> Result<(), String> {
    let idx = triangulate(c, w)?;
    reference(c, &idx, w).only(INDEX | ORIENT | TILING)
}
// C03
pub fn constraints(c: &Case, w: &mut W) -> Result<(), String> {
    let idx = triangulate(c, w)?;
    reference(c, &idx, w).only(INDEX | CONSTRAINT)
}
// C04
pub fn delaunay(c: &Case, w: &mut W) -> Result<(), String> {
    let idx = triangulate(c, w)?;
    reference(c, &idx, w).only(INDEX | DELAUNAY)
}
// C05
pub fn vertices(c: &Case, w: &mut W) -> Result<(), String> {
    let idx = triangulate(c, w)?;
    reference(c, &idx, w).only(INDEX | USAGE | COUNT)
}
/// everything at once
pub fn all(c: &Case, w: &mut W) -> Result<(), String> {
    let idx = triangulate(c, w)?;
    reference(c, &idx, w).only(!0)
}

// C06: leave the outside points out: same triangles
pub fn outside(c: &Case, w: &mut W) -> Result<(), String> {
    let sb = (c.n() - c.steiner.len()) as u32;
    let mut inner = c.clone();
    inner.steiner.clear();
    // new id of the steiner points that stay
    let mut keep = vec![];
    for (k, &p) in c.steiner.iter().enumerate() {
        if c.side(p) == Side::In {
            keep.push(sb + k as u32);
            inner.steiner.push(p);
        }
    }
    if inner.steiner.len() == c.steiner.len() {
        w.filtered += 1;
        w.states -= 1;
        return Ok(());
    }
    let with = triangulate(c, w)?;
    let without = triangulate(&inner, w).map_err(|m| format!("without the outside points: {m}"))?;
    for &i in &with {
        if i as usize >= c.n() {
            return Err(format!("vertex id {i} is no input point"));
        }
        if i >= sb && !keep.contains(&i) {
            return Err(format!("point {i} lies outside of the domain but is a vertex of the output"));
        }
    }
    let v = reference(&inner, &without, w);
    let v2 = reference(c, &with, w);
    if v.bits == 0 && v2.bits != 0 {
        return Err(format!("with the outside points: {}", v2.msgs[0].1));
    }
    if v.bits != 0 || v.unique {
        let mapped: Vec<u32> =
            without.iter().map(|&i| if i < sb { i } else { keep[(i - sb) as usize] }).collect();
        if canon(&mapped) != canon(&with) {
            return Err("the triangles differ from those without the outside points".into());
        }
    }
    Ok(())
}

// C07: other ways to write down the same input
pub fn representation(c: &Case, w: &mut W) -> Result<(), String> {
    let base = triangulate(c, w)?;
    let v = reference(c, &base, w);
    let n = c.n();
    let geo = |c: &Case, idx: &[u32]| -> Option<Vec<[P; 3]>> {
        let p = c.all_points();
        let mut v: Vec<[P; 3]> = vec![];
        for t in idx.chunks(3) {
            let mut q = [P::default(); 3];
            for k in 0..3 {
                q[k] = *p.get(t[k] as usize)?;
            }
            // rotate the smallest point to the front: the sense of rotation counts
            let s = (0..3).min_by_key(|&k| q[k]).unwrap();
            v.push([q[s], q[(s + 1) % 3], q[(s + 2) % 3]]);
        }
        v.sort_unstable();
        Some(v)
    };
    let want = geo(c, &base).ok_or("vertex id that is no input point")?;
    let test = |d: &Case, what: &str, w: &mut W| -> Result<(), String> {
        let idx = triangulate(d, w).map_err(|m| format!("{what}: {m}"))?;
        if v.bits != 0 || v.unique {
            if geo(d, &idx).as_ref() != Some(&want) {
                return Err(format!("{what}: other triangles"));
            }
        } else {
            let r = reference(d, &idx, w);
            if r.bits != 0 {
                return Err(format!("{what}: {}", r.msgs[0].1));
            }
        }
        Ok(())
    };
    let mut d = c.clone();
    // every start of the outer ring, in both directions
    for k in 0..c.outer.len() {
        for rev in [false, true] {
            if k == 0 && !rev {
                continue;
            }
            d.outer.clone_from(&c.outer);
            if rev {
                d.outer.reverse();
            }
            d.outer.rotate_left(k);
            test(&d, &format!("outer polyline started at {k}{}", if rev { ", reversed" } else { "" }), w)?;
        }
    }
    d.outer.clone_from(&c.outer);
    for h in 0..c.holes.len() {
        for k in 0..c.holes[h].len() {
            for rev in [false, true] {
                d.holes[h].clone_from(&c.holes[h]);
                if rev {
                    d.holes[h].reverse();
                }
                d.holes[h].rotate_left(k);
                test(&d, &format!("hole {h} started at {k}{}", if rev { ", reversed" } else { "" }), w)?;
            }
        }
        d.holes[h].clone_from(&c.holes[h]);
    }
    if c.holes.len() > 1 {
        d.holes.reverse();
        test(&d, "holes in reverse order", w)?;
        d.holes.reverse();
    }
    if c.steiner.len() > 1 {
        d.steiner.reverse();
        test(&d, "steiner points in reverse order", w)?;
        d.steiner.rotate_left(1);
        test(&d, "steiner points rotated", w)?;
    }
    let _ = n;
    Ok(())
}

// C14: the same figure, moved and scaled
pub fn similarity(c: &Case, w: &mut W) -> Result<(), String> {
    let base = triangulate(c, w)?;
    let v = reference(c, &base, w);
    let want = canon(&base);
    let max = c.all_points().iter().map(|p| p.0.abs().max(p.1.abs())).max().unwrap_or(1).max(1);
    let small = max < 1 << 12;
    let f32 = cfg!(feature = "f32");
    let mut d = c.clone();
    let tr = |d: &mut Case, f: &dyn Fn(P) -> P| {
        let g = |dst: &mut Vec<P>, src: &Vec<P>| {
            for (x, y) in dst.iter_mut().zip(src) {
                *x = f(*y);
            }
        };
        g(&mut d.outer, &c.outer);
        for (a, b) in d.holes.iter_mut().zip(&c.holes) {
            g(a, b);
        }
        g(&mut d.steiner, &c.steiner);
    };
    let exps: &[i32] = if f32 { &[-20, 14] } else { &[-200, -100, -60, -52, -30, -9, 40, 120, 220] };
    let moves: &[(i64, i64)] = if f32 || !small {
        &[(1000, -3000), (-77, 5)]
    } else {
        &[(1 << 30, -(1 << 31)), (-(1 << 40), 12345), (-1000, -1000), (1 << 52, 0), (1 << 13, -(1 << 53) + (1 << 13))]
    };
    let cmp = |d: &Case, what: String, turn: bool, w: &mut W| -> Result<(), String> {
        let idx = triangulate(d, w).map_err(|m| format!("{what}: {m}"))?;
        if v.bits != 0 || v.unique {
            let mut idx = idx;
            if turn {
                for t in idx.chunks_mut(3) {
                    t.swap(1, 2);
                }
            }
            if canon(&idx) != want {
                return Err(format!("{what}: other triangles"));
            }
        } else {
            let r = reference(d, &idx, w);
            if r.bits != 0 {
                return Err(format!("{what}: {}", r.msgs[0].1));
            }
        }
        Ok(())
    };
    for &e in exps {
        if e > 120 && !small {
            continue; // the predicates would overflow
        }
        d.exp = c.exp + e;
        cmp(&d, format!("scaled by 2^{e}"), false, w)?;
    }
    d.exp = c.exp;
    for &(x, y) in moves {
        tr(&mut d, &|p| (p.0 + x, p.1 + y));
        cmp(&d, format!("moved by ({x},{y})"), false, w)?;
    }
    tr(&mut d, &|p| (-p.1, p.0));
    cmp(&d, "turned by 90 degrees".into(), false, w)?;
    tr(&mut d, &|p| (-p.0, -p.1));
    cmp(&d, "turned by 180 degrees".into(), false, w)?;
    tr(&mut d, &|p| (p.1, -p.0));
    cmp(&d, "turned by 270 degrees".into(), false, w)?;
    tr(&mut d, &|p| (-p.0, p.1));
    cmp(&d, "mirrored".into(), true, w)?;
    if small {
        tr(&mut d, &|p| (3 * p.0 - 4 * p.1, 4 * p.0 + 3 * p.1));
        cmp(&d, "turned and scaled by 3+4i".into(), false, w)?;
    }
    Ok(())
}
