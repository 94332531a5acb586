//! Exhaustive generators of lattice polygons.
use crate::geom::*;

/// Precomputed conflicts between all segments of a W x H lattice.
pub struct Lattice {
    pub pts: Vec<P>,
    nseg: usize,
    words: usize,
    /// conflict bitsets, by segment
    conflict: Vec<u64>,
}

impl Lattice {
    pub fn grid(w: i64, h: i64) -> Lattice {
        Self::new((0..h).flat_map(|y| (0..w).map(move |x| (x, y))).collect())
    }
    pub fn new(pts: Vec<P>) -> Lattice {
        let n = pts.len();
        let nseg = n * n;
        let words = (nseg + 63) / 64;
        let mut conflict = vec![0u64; nseg * words];
        for a in 0..n {
            for b in 0..n {
                if a == b {
                    continue;
                }
                for c in 0..n {
                    for d in 0..n {
                        if c == d {
                            continue;
                        }
                        if seg_conflict(&pts, a, b, c, d) {
                            let s = a * n + b;
                            let t = c * n + d;
                            conflict[s * words + t / 64] |= 1 << (t % 64);
                        }
                    }
                }
            }
        }
        Lattice { pts, nseg, words, conflict }
    }
    pub fn n(&self) -> usize {
        self.pts.len()
    }
    pub fn seg(&self, a: u8, b: u8) -> usize {
        a as usize * self.n() + b as usize
    }
    pub fn conflicts(&self, s: usize, t: usize) -> bool {
        debug_assert!(s < self.nseg && t < self.nseg);
        self.conflict[s * self.words + t / 64] >> (t % 64) & 1 == 1
    }
    /// All simple polygons whose vertices are lattice points, with between `kmin` and `kmax`
    /// vertices; vertices with a straight angle allowed (`straight`) or not. Each polygon once,
    /// counter-clockwise, starting at its smallest lattice index. `touch`: only polygons whose
    /// bounding box starts at the lattice minimum in both axes (one per translation class).
    pub fn polygons(&self, kmin: usize, kmax: usize, straight: bool, touch: bool) -> Vec<Vec<u8>> {
        let n = self.n();
        let jobs: Vec<(u8, u8)> = (0..n as u8)
            .flat_map(|a| (a + 1..n as u8).map(move |b| (a, b)))
            .collect();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let outs: Vec<Vec<(usize, Vec<Vec<u8>>)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..crate::engine::threads())
                .map(|_| {
                    s.spawn(|| {
                        let mut all = vec![];
                        loop {
                            let j = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            if j >= jobs.len() {
                                break;
                            }
                            let mut out = vec![];
                            let mut path = vec![jobs[j].0, jobs[j].1];
                            let mut segs = vec![self.seg(jobs[j].0, jobs[j].1)];
                            self.dfs(&mut path, &mut segs, kmin, kmax, &mut out);
                            all.push((j, out));
                        }
                        all
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut flat: Vec<(usize, Vec<Vec<u8>>)> = outs.into_iter().flatten().collect();
        flat.sort_by_key(|x| x.0);
        let minx = self.pts.iter().map(|p| p.0).min().unwrap();
        let miny = self.pts.iter().map(|p| p.1).min().unwrap();
        let mut res: Vec<Vec<u8>> = flat
            .into_iter()
            .flat_map(|x| x.1)
            .filter(|p| {
                let v: Vec<P> = p.iter().map(|&i| self.pts[i as usize]).collect();
                (straight || {
                    let m = v.len();
                    (0..m).all(|i| orient(v[i], v[(i + 1) % m], v[(i + 2) % m]) != 0)
                }) && (!touch
                    || (v.iter().any(|p| p.0 == minx) && v.iter().any(|p| p.1 == miny)))
            })
            .collect();
        res.sort_by(|a, b| a.len().cmp(&b.len()).then(a.cmp(b)));
        res
    }
    fn dfs(
        &self,
        path: &mut Vec<u8>,
        segs: &mut Vec<usize>,
        kmin: usize,
        kmax: usize,
        out: &mut Vec<Vec<u8>>,
    ) {
        let first = path[0];
        let last = *path.last().unwrap();
        if path.len() >= kmin.max(3) {
            // close; each polygon is found in both directions, keep the ccw one
            let s = self.seg(last, first);
            if segs.iter().all(|&t| !self.conflicts(s, t)) {
                let v: Vec<P> = path.iter().map(|&i| self.pts[i as usize]).collect();
                if area2(&v) > 0 {
                    out.push(path.clone());
                }
            }
        }
        if path.len() == kmax {
            return;
        }
        for nx in first + 1..self.n() as u8 {
            if path.contains(&nx) {
                continue;
            }
            let s = self.seg(last, nx);
            if segs.iter().any(|&t| self.conflicts(s, t)) {
                continue;
            }
            path.push(nx);
            segs.push(s);
            self.dfs(path, segs, kmin, kmax, out);
            path.pop();
            segs.pop();
        }
    }
}

fn seg_conflict(p: &[P], a: usize, b: usize, c: usize, d: usize) -> bool {
    if (a == c && b == d) || (a == d && b == c) {
        return true;
    }
    // shared endpoint: conflict only when overlapping
    let share = |x: usize, y: usize, z: usize| on_segment(p[x], p[y], p[z]) || on_segment(p[x], p[z], p[y]);
    if a == c {
        return share(a, b, d);
    }
    if a == d {
        return share(a, b, c);
    }
    if b == c {
        return share(b, a, d);
    }
    if b == d {
        return share(b, a, c);
    }
    segments_touch(p[a], p[b], p[c], p[d])
}
