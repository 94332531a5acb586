//! The reference model: what a constrained Delaunay triangulation of a case must look like.
//! All arithmetic is exact.
use crate::case::Case;
use crate::geom::*;

#[derive(Default)]
pub struct Scratch {
    pub pts: Vec<P>,
    pub bnd: Vec<(u32, u32)>,
    pub edges: Vec<(u32, u32, u32)>,
    pub used: Vec<bool>,
}

/// a vertex id that is no input point, or an incomplete triple
pub const INDEX: u32 = 1;
/// a clockwise or degenerate triangle
pub const ORIENT: u32 = 2;
/// the triangles do not cover the domain exactly once
pub const TILING: u32 = 4;
/// a constraint edge is missing or crossed
pub const CONSTRAINT: u32 = 8;
/// an unconstrained interior edge is not locally Delaunay
pub const DELAUNAY: u32 = 16;
/// a domain point is unused, or a point outside of the domain is used
pub const USAGE: u32 = 32;
/// the number of triangles is not b + 2i + 2h - 2
pub const COUNT: u32 = 64;

#[derive(Default)]
pub struct Verdict {
    pub bits: u32,
    pub msgs: Vec<(u32, String)>,
    /// no interior edge has four cocircular points: the CDT is unique
    pub unique: bool,
    pub triangles: usize,
    pub interior_edges: usize,
}

impl Verdict {
    fn bad(&mut self, k: u32, m: String) {
        if self.bits & k == 0 {
            self.msgs.push((k, m));
        }
        self.bits |= k;
    }
    /// Err if one of the kinds in `mask` was seen
    pub fn only(&self, mask: u32) -> Result<(), String> {
        match self.msgs.iter().find(|m| m.0 & mask != 0) {
            None => Ok(()),
            Some(m) => Err(m.1.clone()),
        }
    }
}

/// Directed boundary edges of the domain, interior on the left, sorted. Ids follow
/// `Case::all_points`. No steiner point lies on a polyline.
pub fn boundary_edges(c: &Case, out: &mut Vec<(u32, u32)>) {
    out.clear();
    let mut base = 0u32;
    for k in 0..=c.holes.len() {
        let ring: &[P] = if k == 0 { &c.outer } else { &c.holes[k - 1] };
        let fwd = (area2(ring) > 0) == (k == 0);
        let n = ring.len() as u32;
        for i in 0..n {
            let j = (i + 1) % n;
            out.push(if fwd { (base + i, base + j) } else { (base + j, base + i) });
        }
        base += n;
    }
    out.sort_unstable();
}

/// Checks a triangle list (vertex ids in `all_points` order).
///
/// If all triangles are counter-clockwise and the directed edges that have no partner are exactly
/// the directed boundary of the domain, then the sum of the triangles' winding numbers equals the
/// winding number of the domain boundary everywhere: the triangles cover the domain exactly once
/// and nothing else.
pub fn check(c: &Case, idx: &[u32], s: &mut Scratch) -> Verdict {
    let mut v = Verdict { unique: true, triangles: idx.len() / 3, ..Default::default() };
    let n = c.n();
    s.pts.clear();
    s.pts.extend_from_slice(&c.outer);
    for h in &c.holes {
        s.pts.extend_from_slice(h);
    }
    s.pts.extend_from_slice(&c.steiner);
    let pts = &s.pts;
    if idx.len() % 3 != 0 {
        v.bad(INDEX, format!("index count {} is not a multiple of 3", idx.len()));
        return v;
    }
    for &i in idx {
        if i as usize >= n {
            v.bad(INDEX, format!("vertex id {i} is not one of the {n} input points"));
            return v;
        }
    }
    s.edges.clear();
    s.used.clear();
    s.used.resize(n, false);
    for t in idx.chunks(3) {
        let (a, b, d) = (t[0], t[1], t[2]);
        let o = orient(pts[a as usize], pts[b as usize], pts[d as usize]);
        if o <= 0 {
            let w = if o == 0 { "degenerate" } else { "clockwise" };
            v.bad(ORIENT, format!("triangle {t:?} is {w}"));
        }
        for &x in t {
            s.used[x as usize] = true;
        }
        s.edges.push((a, b, d));
        s.edges.push((b, d, a));
        s.edges.push((d, a, b));
    }
    boundary_edges(c, &mut s.bnd);
    s.edges.sort_unstable();
    let edges = &s.edges;
    for w in edges.windows(2) {
        if w[0].0 == w[1].0 && w[0].1 == w[1].1 {
            v.bad(TILING, format!("two triangles on the same side of edge {}-{}", w[0].0, w[0].1));
        }
    }
    let find = |a: u32, b: u32| -> Option<u32> {
        edges.binary_search_by(|e| (e.0, e.1).cmp(&(a, b))).ok().map(|i| edges[i].2)
    };
    for &(a, b, d) in edges {
        if s.bnd.binary_search(&(a, b)).is_ok() {
            continue;
        }
        if s.bnd.binary_search(&(b, a)).is_ok() {
            v.bad(TILING, format!("triangle {a},{b},{d} lies on the outer side of the boundary edge {b}-{a}"));
            continue;
        }
        match find(b, a) {
            None => {
                v.bad(TILING, format!("edge {a}-{b} is a border of the output but not of the polygon"));
            }
            Some(o) => {
                if a < b {
                    v.interior_edges += 1;
                    let p = |i: u32| pts[i as usize];
                    let k = incircle(p(a), p(b), p(d), p(o));
                    if k > 0 {
                        v.bad(
                            DELAUNAY,
                            format!("point {o} is inside the circumcircle of triangle {a},{b},{d} across the free edge {a}-{b}"),
                        );
                    }
                    if k == 0 {
                        v.unique = false;
                    }
                }
            }
        }
    }
    for &(a, b) in &s.bnd {
        if find(a, b).is_none() {
            v.bad(TILING, format!("no triangle on the inner side of the boundary edge {a}-{b}"));
            v.bad(CONSTRAINT, format!("boundary edge {a}-{b} is not the edge of a triangle on its inner side"));
        }
    }
    if v.bits & TILING != 0 {
        // with an exact tiling no edge can cross the boundary; otherwise look
        'x: for &(a, b, _) in edges {
            for &(e, f) in &s.bnd {
                let p = |i: u32| pts[i as usize];
                if orient(p(a), p(b), p(e)) * orient(p(a), p(b), p(f)) < 0
                    && orient(p(e), p(f), p(a)) * orient(p(e), p(f), p(b)) < 0
                {
                    v.bad(CONSTRAINT, format!("edge {a}-{b} crosses the boundary edge {e}-{f}"));
                    break 'x;
                }
            }
        }
    }
    let sb = n - c.steiner.len();
    let mut inner = 0;
    for i in 0..n {
        let want = i < sb || c.side(pts[i]) != Side::Out;
        if i >= sb && want {
            inner += 1;
        }
        if want != s.used[i] {
            v.bad(
                USAGE,
                if want {
                    format!("point {i} is a vertex of no triangle")
                } else {
                    format!("point {i} lies outside of the domain but is a vertex of the output")
                },
            );
        }
    }
    // Euler: every interior point adds two triangles to those of the bare polygon
    let want = sb + 2 * inner + 2 * c.holes.len() - 2;
    if idx.len() / 3 != want {
        v.bad(COUNT, format!("{} triangles instead of {want}", idx.len() / 3));
    }
    v
}

/// canonical form of a triangle list: each triangle starts at its smallest id, sorted
pub fn canon(idx: &[u32]) -> Vec<[u32; 3]> {
    let mut v: Vec<[u32; 3]> = idx
        .chunks(3)
        .map(|t| {
            let (a, b, c) = (t[0], t[1], t[2]);
            if a < b && a < c {
                [a, b, c]
            } else if b < a && b < c {
                [b, c, a]
            } else {
                [c, a, b]
            }
        })
        .collect();
    v.sort_unstable();
    v
}

pub fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    // FNV, so that it does not depend on anything outside of this program
    struct F(u64);
    impl std::hash::Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    use std::hash::Hasher;
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}
