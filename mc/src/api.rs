//! Histories of API calls: the builder (C08), the result (C09), independence of runs (C12) and the
//! file loader (C13).
use crate::case::*;
use crate::engine::*;
use crate::geom::*;
use crate::oracle::{canon, hash};
use poly2tri_rs::{Builder, Observer, Point, Sweeper, Triangle, CDT};
use std::cell::Cell;
use std::rc::Rc;

/// a space given by closures over an operation sequence
fn digits(mut i: u64, base: u64, max_depth: u32) -> Vec<u8> {
    // all sequences of length 0..=max_depth
    let mut len = 0;
    while len < max_depth && i >= base.pow(len) {
        i -= base.pow(len);
        len += 1;
    }
    let mut v = vec![];
    for _ in 0..len {
        v.push((i % base) as u8);
        i /= base;
    }
    v
}

fn count(base: u64, max_depth: u32) -> u64 {
    (0..=max_depth).map(|d| base.pow(d)).sum()
}

// ------------------------------------------------------------------ C08

pub struct Tag {
    id: u32,
    live: Rc<Cell<i64>>,
}
impl Tag {
    fn new(id: u32, live: &Rc<Cell<i64>>) -> Tag {
        live.set(live.get() + 1);
        Tag { id, live: live.clone() }
    }
}
impl Clone for Tag {
    fn clone(&self) -> Tag {
        Tag::new(self.id, &self.live)
    }
}
impl Drop for Tag {
    fn drop(&mut self) {
        self.live.set(self.live.get() - 1);
    }
}

pub struct BuilderSpace {
    pub depth: u32,
    pub outer: usize,
}

const OPS: &[&str] = &[
    "add_steiner_point", "add_steiner_points[]", "add_steiner_points[2]", "add_hole", "add_holes[]", "add_holes[2]",
    "clone", "add_steiner_points[1]", "clone and keep the original",
];

/// what the builder should hold
#[derive(Clone, Default)]
struct Model {
    pts: Vec<P>,
    outer: usize,
    /// id ranges of the holes
    holes: Vec<(usize, usize)>,
    steiner: Vec<usize>,
    used_holes: i64,
    used_steiner: i64,
    /// the elementary calls
    calls: Vec<Call>,
}
#[derive(Clone)]
enum Call {
    Steiner(P),
    Hole(Vec<P>),
}

fn outers() -> Vec<Vec<P>> {
    vec![
        vec![(0, 0), (300, 0), (300, 300), (0, 300)],
        vec![(300, 300), (300, 0), (0, 0), (-50, 150), (0, 300)],
        vec![(-300, -5), (150, -400), (600, -5), (150, 900), (140, 400)],
    ]
}

impl Model {
    fn new(o: usize) -> Model {
        let pts = outers()[o].clone();
        Model { outer: pts.len(), pts, ..Default::default() }
    }
    fn steiner(&mut self) -> P {
        let k = self.used_steiner;
        self.used_steiner += 1;
        let p = (15 + 25 * (k % 11), 11 + 17 * k + (k * k) % 5);
        // the third is outside of the polyline
        let p = if k == 2 { (-350, 40) } else { p };
        self.steiner.push(self.pts.len());
        self.pts.push(p);
        self.calls.push(Call::Steiner(p));
        p
    }
    fn hole(&mut self) -> Vec<P> {
        let k = self.used_holes;
        self.used_holes += 1;
        let (x, y) = (30 + 55 * (k % 5), 130 + 50 * (k / 5));
        let mut h = vec![(x, y), (x + 31, y + 3), (x + 17, y + 29)];
        if k % 2 == 1 {
            h.push((x - 5, y + 21));
        }
        if k % 3 == 1 {
            h.reverse();
        }
        self.holes.push((self.pts.len(), h.len()));
        self.pts.extend_from_slice(&h);
        self.calls.push(Call::Hole(h.clone()));
        h
    }
    /// the same input with ids in the order of `Case::all_points`; and the map from builder ids
    fn case(&self) -> (Case, Vec<u32>) {
        let mut c = Case { outer: self.pts[..self.outer].to_vec(), ..Default::default() };
        let mut map = vec![0; self.pts.len()];
        let mut next = 0;
        for i in 0..self.outer {
            map[i] = next;
            next += 1;
        }
        for &(a, n) in &self.holes {
            c.holes.push(self.pts[a..a + n].to_vec());
            for i in a..a + n {
                map[i] = next;
                next += 1;
            }
        }
        for &i in &self.steiner {
            c.steiner.push(self.pts[i]);
            map[i] = next;
            next += 1;
        }
        (c, map)
    }
}

impl BuilderSpace {
    fn verify(&self, b: Builder<Tag>, m: &Model, w: &mut W) -> Result<(), String> {
        w.traces += 1;
        let (c, map) = m.case();
        if !c.valid() {
            panic!("the layout of the builder histories is not valid: {}", c.describe());
        }
        let t = lib(|| {
            let cdt: CDT<Tag> = b.build();
            let again = cdt.clone();
            let (t, u) = (cdt.triangulate(), again.triangulate());
            (t, u)
        })
        .map_err(|m| format!("triangulate does not return: {m}"))?;
        let (t, u) = t;
        let got = lib(|| {
            let pts: Vec<(f64, f64)> = t.points().iter().map(|p| (p.x as f64, p.y as f64)).collect();
            let tags: Vec<u32> = t.data().iter().map(|d| d.id).collect();
            (pts, tags, t.triangle_list_indices(), u.triangle_list_indices())
        })?;
        let want: Vec<(f64, f64)> = m.pts.iter().map(|p| (p.0 as f64, p.1 as f64)).collect();
        if got.0 != want {
            return Err("points() is not the points in the order in which they were added".into());
        }
        if got.1 != (0..m.pts.len() as u32).collect::<Vec<_>>() {
            return Err(format!("data() is {:?}: not the data of the points in their order", got.1));
        }
        if got.2 != got.3 {
            return Err("a clone of the CDT gives other triangles".into());
        }
        if got.2.iter().any(|&i| i as usize >= m.pts.len()) {
            return Err("vertex id out of range".into());
        }
        let mapped: Vec<u32> = got.2.iter().map(|&i| map[i as usize]).collect();
        let v = crate::props::reference(&c, &mapped, w);
        if v.bits != 0 {
            return Err(format!("with the ids in the order of the calls: {}", v.msgs[0].1));
        }
        // the same input by elementary calls, without data
        let plain = lib(|| {
            let mut b = Builder::new(pts(&m.pts[..m.outer], 0));
            for c in &m.calls {
                b = match c {
                    Call::Steiner(p) => b.add_steiner_point(pt(*p, 0), ()),
                    Call::Hole(h) => b.add_hole(pts(h, 0)),
                };
            }
            b.build().triangulate().triangle_list_indices()
        })
        .map_err(|m| format!("the elementary calls: {m}"))?;
        if plain != got.2 {
            return Err("the elementary calls for the same input give another index list".into());
        }
        w.outcome(hash(&got.2));
        Ok(())
    }
}

impl Space for BuilderSpace {
    fn name(&self) -> String {
        format!("builder histories up to {} calls, polyline {}", self.depth, self.outer)
    }
    fn len(&self) -> u64 {
        count(OPS.len() as u64, self.depth)
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let live = Rc::new(Cell::new(0));
        let r = (|| {
            let ops = digits(i, OPS.len() as u64, self.depth);
            w.states += 1;
            let mut m = Model::new(self.outer);
            let mut kept: Vec<(Builder<Tag>, Model)> = vec![];
            let tags = |from: usize, n: usize| (from..from + n).map(|i| Tag::new(i as u32, &live)).collect::<Vec<_>>();
            let mut b = lib(|| Builder::new((pts(&m.pts, 0), tags(0, m.pts.len()))))?;
            for &o in &ops {
                w.transitions += 1;
                let n0 = m.pts.len();
                b = match o {
                    0 => {
                        let p = m.steiner();
                        let t = Tag::new(n0 as u32, &live);
                        lib(|| b.add_steiner_point(pt(p, 0), t))?
                    }
                    1 => lib(|| b.add_steiner_points((vec![], vec![])))?,
                    2 | 7 => {
                        let v: Vec<P> = (0..if o == 2 { 2 } else { 1 }).map(|_| m.steiner()).collect();
                        let t = tags(n0, v.len());
                        lib(|| b.add_steiner_points((pts(&v, 0), t)))?
                    }
                    3 => {
                        let h = m.hole();
                        let t = tags(n0, h.len());
                        lib(|| b.add_hole((pts(&h, 0), t)))?
                    }
                    4 => lib(|| b.add_holes(Vec::<(Vec<Point>, Vec<Tag>)>::new()))?,
                    5 => {
                        let (h, k) = (m.hole(), m.hole());
                        let t = (tags(n0, h.len()), tags(n0 + h.len(), k.len()));
                        lib(|| b.add_holes(vec![(pts(&h, 0), t.0), (pts(&k, 0), t.1)]))?
                    }
                    6 => lib(|| b.clone())?,
                    _ => {
                        let c = lib(|| b.clone())?;
                        kept.push((b, m.clone()));
                        c
                    }
                };
            }
            for (k, (b, m)) in kept.into_iter().enumerate() {
                self.verify(b, &m, w).map_err(|e| format!("the builder kept at clone {k}: {e}"))?;
            }
            self.verify(b, &m, w)
        })();
        r?;
        if live.get() != 0 {
            return Err(format!("{} data values are leaked or dropped twice", live.get()));
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let ops = digits(i, OPS.len() as u64, self.depth);
        format!("polyline {}: {}", self.outer, ops.iter().map(|&o| OPS[o as usize]).collect::<Vec<_>>().join(", "))
    }
}

/// calls with batches of many sizes
pub struct BatchSpace {
    pub depth: u32,
    pub sizes: &'static [usize],
}

/// a source of points and data of the user's own
struct Source(Vec<Point>, u32);
impl poly2tri_rs::PointDataSource for Source {
    type Data = u32;
    fn points_and_data(self) -> (Vec<Point>, Vec<u32>) {
        let d = (self.1..self.1 + self.0.len() as u32).collect();
        (self.0, d)
    }
}

impl BatchSpace {
    /// the calls: kind and size
    fn calls(&self, i: u64) -> Vec<(u8, usize)> {
        let n = self.sizes.len() as u8;
        digits(i, 3 * n as u64, self.depth).iter().map(|d| (d / n, self.sizes[(d % n) as usize])).collect()
    }
}

impl Space for BatchSpace {
    fn name(&self) -> String {
        format!("builder histories up to {} calls with batches of {:?}", self.depth, self.sizes)
    }
    fn len(&self) -> u64 {
        count(3 * self.sizes.len() as u64, self.depth)
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let calls = self.calls(i);
        w.states += 1;
        w.transitions += calls.len() as u64;
        w.traces += 1;
        let big = 100_000i64;
        let mut m = Model { pts: vec![(0, 0), (big, 0), (big, big), (0, big)], outer: 4, ..Default::default() };
        let mut b = lib(|| Builder::new(Source(pts(&m.pts, 0), 0)))?;
        let mut rings = 0;
        for (kind, n) in calls {
            let n0 = m.pts.len() as u32;
            match kind {
                0 => {
                    let v: Vec<P> = (0..n as i64)
                        .map(|j| j + m.used_steiner)
                        .map(|k| (50 + 100 * (k % 300) + k % 7, 60 + 100 * (k / 300) + k % 5))
                        .collect();
                    m.used_steiner += n as i64;
                    m.steiner.extend(m.pts.len()..m.pts.len() + n);
                    m.pts.extend_from_slice(&v);
                    b = lib(|| b.add_steiner_points(Source(pts(&v, 0), n0)))?;
                }
                1 => {
                    let mut v = vec![];
                    for _ in 0..n {
                        let k = m.used_holes;
                        m.used_holes += 1;
                        let (x, y) = (100 + 100 * (k % 400), 50_100 + 100 * (k / 400));
                        let h = [(x, y + k % 3), (x + 30, y + 1), (x + 11, y + 30)];
                        v.push((n0 + v.len() as u32 * 3, h));
                        m.holes.push((m.pts.len(), 3));
                        m.pts.extend_from_slice(&h);
                    }
                    // an iterator that does not know how many there are
                    b = lib(|| b.add_holes(v.iter().filter(|_| true).map(|(d, h)| Source(pts(h, 0), *d))))?;
                }
                _ => {
                    // more do not fit into the square
                    if n < 3 || n > 4900 {
                        w.filtered += 1;
                        return Ok(());
                    }
                    let y = 80_000 + 3000 * rings;
                    rings += 1;
                    let n = n as i64;
                    let low = n / 2 + 1;
                    let h: Vec<P> = (0..low)
                        .map(|k| (50 + 40 * k, y + k % 3))
                        .chain((0..n - low).map(|k| (50 + 40 * (n - low - k) - 13, y + 500 + k % 4)))
                        .collect();
                    m.holes.push((m.pts.len(), h.len()));
                    m.pts.extend_from_slice(&h);
                    b = lib(|| b.add_hole(Source(pts(&h, 0), n0)))?;
                }
            }
        }
        let (c, map) = m.case();
        let t = lib(|| b.build().triangulate()).map_err(|m| format!("triangulate does not return: {m}"))?;
        let (p, d, idx) = lib(|| (t.points().to_vec(), t.data().to_vec(), t.triangle_list_indices()))?;
        if p.len() != m.pts.len() || p.iter().zip(&m.pts).any(|(a, b)| (a.x as f64, a.y as f64) != (b.0 as f64, b.1 as f64)) {
            return Err("points() is not the points in the order in which they were added".into());
        }
        if !d.iter().copied().eq(0..m.pts.len() as u32) {
            return Err("data() is not the data of the points in their order".into());
        }
        if idx.iter().any(|&i| i as usize >= map.len()) {
            return Err("vertex id out of range".into());
        }
        let mapped: Vec<u32> = idx.iter().map(|&i| map[i as usize]).collect();
        let v = crate::props::reference(&c, &mapped, w);
        if v.bits != 0 {
            return Err(format!("with the ids in the order of the calls: {}", v.msgs[0].1));
        }
        w.outcome(hash(&idx));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let what = ["steiner points", "holes of 3 points", "points in a hole"];
        let v: Vec<String> = self.calls(i).iter().map(|c| format!("{} {}", c.1, what[c.0 as usize])).collect();
        format!("square: {}", v.join(", "))
    }
    fn chunk(&self) -> u64 {
        8
    }
}

struct AdapterSpace;

impl Space for AdapterSpace {
    fn name(&self) -> String {
        "ways to give a point and its data".into()
    }
    fn len(&self) -> u64 {
        11 * 11 * 3
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        use poly2tri_rs::AsPoint;
        let v = |k: u64| [0.0, -0.0, 1.0, -2.5, 0.1, 1e-300, -1e30, 3.4e38, 7.0, 1e9, -1e-9][k as usize] as poly2tri_rs::Float;
        let (x, y) = (v(i / 3 % 11), v(i / 33));
        w.states += 1;
        w.transitions += 2;
        w.traces += 1;
        let p = Point::new(x, y);
        let (got, data) = match i % 3 {
            0 => (p.point(), {
                p.data();
                17
            }),
            1 => ((p, 17).point(), (p, 17).data()),
            _ => (([x, y], 17).point(), ([x, y], 17).data()),
        };
        w.outcome(i);
        let bits = |p: Point| ((p.x as f64).to_bits(), (p.y as f64).to_bits());
        if bits(got) != ((x as f64).to_bits(), (y as f64).to_bits()) || data != 17 {
            return Err(format!("the point is {got:?}, the data {data}"));
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{} number {}", ["Point", "(Point, data)", "([x, y], data)"][(i % 3) as usize], i / 3)
    }
}

/// data sources: vectors of points, pairs of vectors; one or many triangulations of one builder
pub fn builder_spaces(q: bool) -> Vec<Box<dyn Space>> {
    let d = if q { 5 } else { 6 };
    let mut v: Vec<Box<dyn Space>> = vec![Box::new(AdapterSpace)];
    v.push(Box::new(BatchSpace { depth: if q { 3 } else { 4 }, sizes: if q { &[0, 1, 3, 255, 256, 257, 1000] } else { &[0, 1, 2, 3, 17, 255, 256, 257, 1000] } }));
    v.push(Box::new(BatchSpace { depth: 2, sizes: &[1, 2048, 4097] }));
    v.push(Box::new(BatchSpace { depth: 1, sizes: &[10_000, 66_000] }));
    for o in 0..outers().len() {
        v.push(Box::new(BuilderSpace { depth: d + (o == 0) as u32, outer: o }));
    }
    v
}

// ------------------------------------------------------------------ C09

pub struct ResultSpace {
    pub depth: u32,
    pub cases: Vec<Case>,
}

const ROPS: &[&str] =
    &["next", "triangle_list_indices", "points", "data", "nth(1)", "size_hint", "by_ref().take(2)", "nth(1000)"];
const ENDS: &[&str] = &[
    "collect", "count", "last", "for loop", "zip with indices", "fold", "step_by(2)", "skip(1)", "for_each", "position and next",
];

pub fn result_cases() -> Vec<Case> {
    let sq = vec![(0, 0), (10, 0), (10, 10), (0, 10)];
    let tri = vec![(0, 0), (7, 1), (3, 9)];
    vec![
        Case { outer: tri.clone(), ..Default::default() },
        Case { outer: sq.clone(), ..Default::default() },
        Case { outer: tri.clone(), steiner: vec![(3, 4)], ..Default::default() },
        Case { outer: tri, steiner: vec![(30, 4), (-20, -9)], ..Default::default() },
        Case { outer: sq.clone(), holes: vec![vec![(3, 3), (6, 4), (4, 7)]], ..Default::default() },
        Case { outer: sq, holes: vec![vec![(3, 3), (6, 4), (4, 7)]], steiner: vec![(4, 5), (8, 8)], ..Default::default() },
    ]
}

impl ResultSpace {
    fn split(&self, i: u64) -> (&Case, u64, Vec<u8>) {
        let n = self.cases.len() as u64;
        let e = ENDS.len() as u64;
        (&self.cases[(i % n) as usize], i / n % e, digits(i / n / e, ROPS.len() as u64, self.depth))
    }
}

impl Space for ResultSpace {
    fn name(&self) -> String {
        format!("uses of a result, up to {} calls", self.depth)
    }
    fn len(&self) -> u64 {
        self.cases.len() as u64 * ENDS.len() as u64 * count(ROPS.len() as u64, self.depth)
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let (c, end, ops) = self.split(i);
        w.states += 1;
        w.transitions += ops.len() as u64 + 1;
        w.traces += 1;
        let data: Vec<u32> = (0..c.n() as u32).map(|k| 7 * k + 3).collect();
        let all = c.all_points();
        let build = || {
            let mut k = 0;
            let mut d = |n: usize| {
                k += n;
                data[k - n..k].to_vec()
            };
            let mut b = Builder::new((pts(&c.outer, c.exp), d(c.outer.len())));
            for h in &c.holes {
                b = b.add_hole((pts(h, c.exp), d(h.len())));
            }
            b.add_steiner_points((pts(&c.steiner, c.exp), d(c.steiner.len()))).build().triangulate()
        };
        let (mut t, idx) = lib(|| (build(), build().triangle_list_indices()))?;
        let v = crate::props::reference(c, &idx, w);
        if v.bits != 0 {
            return Err(v.msgs[0].1.clone());
        }
        let fl: Vec<(f64, f64)> = all.iter().map(|p| (to_float(p.0, c.exp) as f64, to_float(p.1, c.exp) as f64)).collect();
        let key = |t: &Triangle| -> Vec<(f64, f64)> { t.points.iter().map(|p| (p.x as f64, p.y as f64)).collect() };
        let tri: Vec<Vec<(f64, f64)>> = idx.chunks(3).map(|t| t.iter().map(|&i| fl[i as usize]).collect()).collect();
        let mut cur = 0usize;
        let expect = |got: Option<Triangle>, at: usize, what: &str| -> Result<(), String> {
            if got.as_ref().map(key) != tri.get(at).cloned() {
                return Err(format!("{what} at position {at} of {} is not the triangle given by the indices", tri.len()));
            }
            Ok(())
        };
        for &o in &ops {
            match o {
                0 => {
                    expect(lib(|| t.next())?, cur, "next")?;
                    cur = (cur + 1).min(tri.len());
                }
                1 => {
                    if lib(|| t.triangle_list_indices())? != idx {
                        return Err(format!("triangle_list_indices differs after {cur} triangles were taken"));
                    }
                }
                2 => {
                    let p: Vec<(f64, f64)> = lib(|| t.points().iter().map(|p| (p.x as f64, p.y as f64)).collect())?;
                    if p != fl {
                        return Err("points() is not the input".into());
                    }
                }
                3 => {
                    if lib(|| t.data().to_vec())? != data {
                        return Err("data() is not the input".into());
                    }
                }
                4 => {
                    expect(lib(|| t.nth(1))?, cur + 1, "nth(1)")?;
                    cur = (cur + 2).min(tri.len());
                }
                7 => {
                    expect(lib(|| t.nth(1000))?, cur + 1000, "nth(1000)")?;
                    cur = (cur + 1001).min(tri.len());
                }
                5 => {
                    let (lo, hi) = lib(|| t.size_hint())?;
                    let left = tri.len() - cur;
                    if lo > left || hi.map_or(false, |h| h < left) {
                        return Err(format!("size_hint ({lo}, {hi:?}) with {left} triangles left"));
                    }
                }
                _ => {
                    let v: Vec<Triangle> = lib(|| t.by_ref().take(2).collect())?;
                    for (k, x) in v.iter().enumerate() {
                        expect(Some(*x), cur + k, "take")?;
                    }
                    let n = (tri.len() - cur).min(2);
                    if v.len() != n {
                        return Err(format!("take(2) gives {} of {n} triangles", v.len()));
                    }
                    cur += n;
                }
            }
        }
        let left = &tri[cur..];
        match end {
            0 => {
                let v: Vec<Triangle> = lib(|| t.by_ref().collect())?;
                if v.iter().map(key).collect::<Vec<_>>() != left {
                    return Err(format!("collect gives {} triangles, {} are left", v.len(), left.len()));
                }
                for _ in 0..3 {
                    if lib(|| t.next())?.is_some() {
                        return Err("next gives a triangle after the end".into());
                    }
                }
                if lib(|| t.triangle_list_indices())? != idx {
                    return Err("triangle_list_indices differs after the end".into());
                }
            }
            1 => {
                let n = lib(|| t.count())?;
                if n != left.len() {
                    return Err(format!("count is {n}, {} are left", left.len()));
                }
            }
            2 => {
                if lib(|| t.last())?.as_ref().map(key) != left.last().cloned() {
                    return Err("last is not the last triangle".into());
                }
            }
            3 => {
                let mut v = vec![];
                lib(|| {
                    for x in t {
                        v.push(key(&x));
                    }
                })?;
                if v != left {
                    return Err("a for loop does not give the triangles that are left".into());
                }
            }
            5 => {
                let v = lib(|| t.fold(vec![], |mut v, x| (v.push(key(&x)), v).1))?;
                if v != left {
                    return Err("fold does not give the triangles that are left".into());
                }
            }
            6 => {
                let v: Vec<_> = lib(|| t.step_by(2).map(|x| key(&x)).collect())?;
                if v.iter().ne(left.iter().step_by(2)) {
                    return Err("step_by(2) does not give every second triangle that is left".into());
                }
            }
            7 => {
                let v: Vec<_> = lib(|| t.skip(1).map(|x| key(&x)).collect())?;
                if v.iter().ne(left.iter().skip(1)) {
                    return Err("skip(1) does not give the triangles that are left but the first".into());
                }
            }
            8 => {
                let mut v = vec![];
                lib(|| t.for_each(|x| v.push(key(&x))))?;
                if v != left {
                    return Err("for_each does not give the triangles that are left".into());
                }
            }
            9 => {
                if let Some(want) = left.get(1) {
                    let at = lib(|| t.position(|x| key(&x) == *want))?;
                    let next = lib(|| t.next())?.as_ref().map(key);
                    if at != Some(1) || next != left.get(2).cloned() {
                        return Err("position does not find the second triangle that is left, or next not the third".into());
                    }
                }
            }
            _ => {
                let ids = lib(|| t.triangle_list_indices())?;
                let p: Vec<(f64, f64)> = lib(|| t.points().iter().map(|p| (p.x as f64, p.y as f64)).collect())?;
                let v: Vec<Triangle> = lib(|| t.collect())?;
                for (x, k) in v.iter().zip(ids.chunks(3).skip(cur)) {
                    if key(x) != k.iter().map(|&i| p[i as usize]).collect::<Vec<_>>() {
                        return Err("indices into points() do not give the triangles".into());
                    }
                }
            }
        }
        w.outcome(hash(&(cur, end, idx)));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (c, end, ops) = self.split(i);
        let o: Vec<&str> = ops.iter().map(|&o| ROPS[o as usize]).collect();
        format!("{}: {}, {}", c.describe(), o.join(", "), ENDS[end as usize])
    }
}

// ------------------------------------------------------------------ C12

/// the inputs of the histories; the last ones are no valid inputs and may panic
pub fn alphabet() -> Vec<Case> {
    let c = |outer: &[P], holes: &[&[P]], steiner: &[P]| Case {
        outer: outer.to_vec(),
        holes: holes.iter().map(|h| h.to_vec()).collect(),
        steiner: steiner.to_vec(),
        exp: 0,
    };
    let sq: &[P] = &[(0, 0), (10, 0), (10, 10), (0, 10)];
    vec![
        c(&[(0, 0), (7, 1), (3, 9)], &[], &[]),
        c(sq, &[], &[(5, 5), (2, 7), (8, 1)]),
        c(sq, &[&[(3, 3), (6, 4), (4, 7)]], &[(4, 5), (8, 8)]),
        // needs edge flips
        c(&[(0, 0), (40, 3), (1, 7), (39, 11), (2, 40), (0, 20)], &[], &[]),
        c(&[(-1, -3), (12, -4), (10, 1), (8, 9), (6, 0), (4, 12), (2, 1), (0, 7)], &[], &[]),
        // the same figure far away, with the same ids
        c(&[(1000, 1000), (1007, 1001), (1003, 1009)], &[], &[]),
        c(&[(0, 0), (3, -2), (9, 2), (10, 6), (7, 11), (2, 12), (-3, 8), (-4, 3)], &[], &[(2, 3), (30, 30), (4, 8)]),
        // crossing edges
        c(&[(0, 0), (10, 10), (10, 0), (0, 9)], &[], &[]),
        // all points the same
        c(&[(1, 1), (1, 1), (1, 1)], &[], &[]),
        // hole outside
        c(sq, &[&[(20, 3), (26, 4), (24, 7)]], &[]),
    ]
}
pub const VALID: usize = 7;

struct CountMon {
    n: u32,
    panic_at: u32,
}
impl CountMon {
    fn hit(&mut self) {
        self.n += 1;
        if self.n == self.panic_at {
            panic!("the observer panics");
        }
    }
}

macro_rules! all_callbacks {
    ($t:ty) => {
        impl Observer for $t {
            fn enter_point_event(&mut self, _: poly2tri_rs::PointId, _: &Sweeper) {
                self.hit();
            }
            fn exit_point_event(&mut self, _: poly2tri_rs::PointId, _: &Sweeper) {
                self.hit();
            }
            fn edge_event(&mut self, _: poly2tri_rs::Edge, _: &Sweeper) {
                self.hit();
            }
            fn sweep_done(&mut self, _: &Sweeper) {
                self.hit();
            }
            fn finalized(&mut self, _: &Sweeper) {
                self.hit();
            }
            fn will_legalize(&mut self, _: poly2tri_rs::TriangleId, _: &Sweeper) {
                self.hit();
            }
            fn legalize_step(&mut self, _: poly2tri_rs::TriangleId, _: &Sweeper) {
                self.hit();
            }
            fn triangle_rotated(&mut self, _: poly2tri_rs::TriangleId, _: poly2tri_rs::TriangleId, _: &Sweeper) {
                self.hit();
            }
            fn legalized(&mut self, _: poly2tri_rs::TriangleId, _: &Sweeper) {
                self.hit();
            }
        }
    };
}
all_callbacks!(CountMon);

fn plain(c: &Case) -> Result<Vec<u32>, String> {
    lib(|| c.builder().build().triangulate().triangle_list_indices())
}

fn events(c: &Case) -> u32 {
    let mut o = CountMon { n: 0, panic_at: 0 };
    let _ = lib(|| c.builder().build().triangulate_with_observer(&mut o));
    o.n
}

pub struct Isolation {
    pub cases: Vec<Case>,
    once: std::sync::OnceLock<Base>,
    pub depth: u32,
}

/// what each input gives on its own
pub struct Base {
    base: Vec<Option<Vec<u32>>>,
    events: Vec<u32>,
}

impl std::ops::Deref for Isolation {
    type Target = Base;
    /// Computed by one thread while all others wait. `BaselineSpace` has seen that this ends.
    fn deref(&self) -> &Base {
        self.once.get_or_init(|| Base {
            base: self.cases.iter().map(|c| plain(c).ok()).collect(),
            events: self.cases.iter().map(|c| events(c)).collect(),
        })
    }
}

/// each input once; the other spaces rely on that this ends
pub struct BaselineSpace(pub std::sync::Arc<Isolation>);
impl Space for BaselineSpace {
    fn name(&self) -> String {
        "each input on its own".into()
    }
    fn len(&self) -> u64 {
        self.0.cases.len() as u64
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let c = &self.0.cases[i as usize];
        w.states += 1;
        w.transitions += 1;
        w.traces += 1;
        events(c);
        match plain(c) {
            Ok(r) if (i as usize) < VALID => crate::props::reference(c, &r, w).only(!0),
            Err(m) if (i as usize) < VALID => Err(m),
            _ => Ok(()),
        }
    }
    fn describe(&self, i: u64) -> String {
        self.0.cases[i as usize].describe()
    }
}

impl Isolation {
    pub fn new(depth: u32) -> Isolation {
        Isolation { cases: alphabet(), once: Default::default(), depth }
    }
    /// the triangles of input k on its own
    pub fn of(&self, k: usize) -> Option<&Vec<u32>> {
        self.base[k].as_ref()
    }
    /// the number of callbacks of input k
    pub fn calls(&self, k: usize) -> u32 {
        self.events[k]
    }
    /// what a step of a history is: a case, and whether the observer panics halfway
    fn steps(&self) -> u64 {
        2 * self.cases.len() as u64
    }
    fn step(&self, o: u8, w: &mut W) -> Result<(), String> {
        let k = o as usize % self.cases.len();
        let c = &self.cases[k];
        w.transitions += 1;
        if (o as usize) < self.cases.len() {
            let r = plain(c);
            match (&r, &self.base[k]) {
                (Ok(a), Some(b)) if a == b => Ok(()),
                (Err(_), None) => Ok(()),
                (Ok(_), Some(_)) => Err(format!("input {k} gives other triangles than on its own")),
                (Err(m), Some(_)) => Err(format!("input {k} fails here, but not on its own: {m}")),
                (Ok(_), None) => Err(format!("input {k} succeeds here, but not on its own")),
            }
        } else {
            // the observer panics in the middle
            let mut m = CountMon { n: 0, panic_at: self.events[k] / 2 + 1 };
            let _ = lib(|| c.builder().build().triangulate_with_observer(&mut m));
            Ok(())
        }
    }
}

/// every sequence of inputs, some of which fail or are interrupted by a panic
pub struct HistorySpace(pub std::sync::Arc<Isolation>);
impl Space for HistorySpace {
    fn name(&self) -> String {
        format!("histories of up to {} runs in one thread", self.0.depth)
    }
    fn len(&self) -> u64 {
        count(self.0.steps(), self.0.depth)
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        w.states += 1;
        w.traces += 1;
        for o in digits(i, self.0.steps(), self.0.depth) {
            self.0.step(o, w)?;
        }
        w.outcome(i);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let n = self.0.cases.len();
        let v: Vec<String> = digits(i, self.0.steps(), self.0.depth)
            .iter()
            .map(|&o| {
                let c = self.0.cases[o as usize % n].describe();
                if (o as usize) < n {
                    c
                } else {
                    format!("(observer panics) {c}")
                }
            })
            .collect();
        v.join("; then ")
    }
}

/// a run that is ended by a panic in one of its callbacks, any of them; then other runs
pub struct PanicSpace(pub std::sync::Arc<Isolation>);
impl PanicSpace {
    /// input, callback in which its observer panics, next step, last input
    fn split(&self, mut i: u64) -> (usize, u32, u8, u8) {
        let n = self.0.cases.len() as u64;
        let last = (i % n) as u8;
        i /= n;
        let next = (i % self.0.steps()) as u8;
        i /= self.0.steps();
        for k in 0..n as usize {
            let e = self.0.events[k] as u64;
            if i < e {
                return (k, i as u32 + 1, next, last);
            }
            i -= e;
        }
        unreachable!()
    }
}
impl Space for PanicSpace {
    fn name(&self) -> String {
        "a panic in each callback of a run, then two other runs".into()
    }
    fn len(&self) -> u64 {
        self.0.events.iter().map(|&e| e as u64).sum::<u64>() * self.0.steps() * self.0.cases.len() as u64
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let (k, at, next, last) = self.split(i);
        w.states += 1;
        w.traces += 1;
        w.transitions += 1;
        let mut m = CountMon { n: 0, panic_at: at };
        if lib(|| self.0.cases[k].builder().build().triangulate_with_observer(&mut m)).is_ok() {
            return Err(format!("the panic of the observer in callback {at} is lost"));
        }
        self.0.step(next, w)?;
        self.0.step(last, w)?;
        w.outcome(i);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (k, at, next, last) = self.split(i);
        let n = self.0.cases.len();
        let c = &self.0.cases;
        let how = if (next as usize) < n { "" } else { "(observer panics) " };
        format!("{} with a panic in callback {at}; then {how}{}; then {}", c[k].describe(), c[next as usize % n].describe(), c[last as usize].describe())
    }
}

/// one triangulation, and inside of its k-th callback another one
pub struct NestedSpace(pub std::sync::Arc<Isolation>);
struct NestMon<'a> {
    n: u32,
    at: u32,
    iso: &'a Isolation,
    inner: u8,
    err: Option<String>,
    w: &'a mut W,
}
impl NestMon<'_> {
    fn hit(&mut self) {
        self.n += 1;
        if self.n == self.at {
            if let Err(m) = self.iso.step(self.inner, self.w) {
                self.err = Some(m);
            }
        }
    }
}
all_callbacks!(NestMon<'_>);
impl NestedSpace {
    fn split(&self, i: u64) -> (usize, u32, u8) {
        // outer input, callback, inner step
        let mut i = i;
        for k in 0..VALID {
            let n = self.0.events[k] as u64 * self.0.steps();
            if i < n {
                return (k, (i / self.0.steps()) as u32 + 1, (i % self.0.steps()) as u8);
            }
            i -= n;
        }
        unreachable!()
    }
}
impl Space for NestedSpace {
    fn name(&self) -> String {
        "a run inside of each callback of another run".into()
    }
    fn len(&self) -> u64 {
        self.0.events[..VALID].iter().map(|&e| e as u64 * self.0.steps()).sum()
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let (k, at, inner) = self.split(i);
        w.states += 1;
        w.traces += 1;
        let iso = &*self.0;
        let mut m = NestMon { n: 0, at, iso, inner, err: None, w };
        let r = lib(|| iso.cases[k].builder().build().triangulate_with_observer(&mut m).triangle_list_indices());
        if let Some(e) = m.err {
            return Err(format!("the inner run: {e}"));
        }
        m.w.outcome(i);
        match r {
            Err(e) => Err(format!("the outer run fails: {e}")),
            Ok(r) if Some(&r) != iso.base[k].as_ref() => Err("the outer run gives other triangles than on its own".into()),
            _ => Ok(()),
        }
    }
    fn describe(&self, i: u64) -> String {
        let (k, at, inner) = self.split(i);
        let n = self.0.cases.len();
        format!(
            "{}; inside of callback {at}: {}{}",
            self.0.cases[k].describe(),
            if inner as usize >= n { "(observer panics) " } else { "" },
            self.0.cases[inner as usize % n].describe()
        )
    }
}

/// Two runs in two threads. The scheduler lets one thread run at a time and switches at callbacks;
/// every schedule with at most two preemptions is executed.
pub struct ThreadSpace {
    pub iso: std::sync::Arc<Isolation>,
    pub preemptions: u32,
}

use std::sync::{Arc, Condvar, Mutex};
struct Baton {
    /// whose turn it is; 2: both are free
    turn: Mutex<(usize, [bool; 2], u64)>,
    cv: Condvar,
}
impl Baton {
    fn wait(&self, me: usize) {
        let mut g = self.turn.lock().unwrap();
        while g.0 != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn pass(&self, me: usize) {
        let mut g = self.turn.lock().unwrap();
        if !g.1[1 - me] {
            g.0 = 1 - me;
            g.2 += 1;
            self.cv.notify_all();
            while g.0 != me {
                g = self.cv.wait(g).unwrap();
            }
        }
    }
    fn done(&self, me: usize) {
        let mut g = self.turn.lock().unwrap();
        g.1[me] = true;
        g.0 = 1 - me;
        g.2 += 1;
        self.cv.notify_all();
    }
}
struct SchedMon<'a> {
    me: usize,
    n: u32,
    /// callbacks at which this thread is preempted
    at: &'a [u32],
    baton: &'a Baton,
}
impl SchedMon<'_> {
    fn hit(&mut self) {
        self.n += 1;
        if self.at.contains(&self.n) {
            self.baton.pass(self.me);
        }
    }
}
all_callbacks!(SchedMon<'_>);

impl ThreadSpace {
    /// schedules of a pair: thread 0 runs first, is preempted after callback a (0: never), thread 1
    /// is preempted after callback b (0: never), then thread 0 again after callback c > a (0: never)
    fn per_pair(&self, x: usize, y: usize) -> u64 {
        let (ex, ey) = (self.iso.events[x] as u64, self.iso.events[y] as u64);
        match self.preemptions {
            1 => ex + 1,
            2 => 1 + ex * (ey + 1),
            _ => 1 + ex + ex * ey * (ex + 1),
        }
    }
    fn split(&self, i: u64) -> (usize, usize, Vec<u32>, Vec<u32>) {
        let mut i = i;
        for x in 0..VALID {
            for y in 0..VALID {
                let n = self.per_pair(x, y);
                if i >= n {
                    i -= n;
                    continue;
                }
                let (ex, ey) = (self.iso.events[x] as u64, self.iso.events[y] as u64);
                if i == 0 {
                    return (x, y, vec![], vec![]);
                }
                i -= 1;
                if self.preemptions == 1 {
                    return (x, y, vec![i as u32 + 1], vec![]);
                }
                if self.preemptions == 2 {
                    let (a, b) = (i / (ey + 1) + 1, i % (ey + 1));
                    return (x, y, vec![a as u32], if b == 0 { vec![] } else { vec![b as u32] });
                }
                if i < ex {
                    return (x, y, vec![i as u32 + 1], vec![]);
                }
                i -= ex;
                let (a, r) = (i / (ey * (ex + 1)) + 1, i % (ey * (ex + 1)));
                let (b, c) = (r / (ex + 1) + 1, r % (ex + 1));
                // a second preemption of thread 0 that is not later than the first one: none
                let at = if c > a { vec![a as u32, c as u32] } else { vec![a as u32] };
                return (x, y, at, vec![b as u32]);
            }
        }
        unreachable!()
    }
}

impl Space for ThreadSpace {
    fn name(&self) -> String {
        format!("two threads, all schedules with up to {} preemptions at callbacks", self.preemptions)
    }
    fn len(&self) -> u64 {
        let mut n = 0;
        for x in 0..VALID {
            for y in 0..VALID {
                n += self.per_pair(x, y);
            }
        }
        n
    }
    fn chunk(&self) -> u64 {
        1024
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let (x, y, at, bt) = self.split(i);
        w.states += 1;
        w.traces += 1;
        let iso = &self.iso;
        let baton = Baton { turn: Mutex::new((0, [false, false], 0)), cv: Condvar::new() };
        let go = |me: usize, k: usize, at: &[u32]| {
            baton.wait(me);
            let mut m = SchedMon { me, n: 0, at, baton: &baton };
            let r = lib(|| iso.cases[k].builder().build().triangulate_with_observer(&mut m).triangle_list_indices());
            baton.done(me);
            r
        };
        let go = &go;
        // the second thread is a helper that lives as long as this worker thread would be cheaper,
        // but a fresh thread also covers the creation of thread-local state
        let (r0, r1) = std::thread::scope(|s| {
            let bt = &bt;
            let h = s.spawn(move || go(1, y, bt));
            let r0 = go(0, x, &at);
            (r0, h.join())
        });
        let r1 = r1.map_err(|_| "the second thread died".to_string())?;
        let switches = baton.turn.lock().unwrap().2;
        w.transitions += switches;
        w.outcome(hash(&(x, y, switches)));
        for (r, k, t) in [(r0, x, "first"), (r1, y, "second")] {
            match r {
                Err(m) => return Err(format!("the {t} thread fails: {m}")),
                Ok(r) if Some(&r) != iso.base[k].as_ref() => {
                    return Err(format!("the {t} thread gets other triangles than on its own"))
                }
                _ => {}
            }
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (x, y, at, bt) = self.split(i);
        format!(
            "thread 0: {}, preempted after callbacks {at:?}; thread 1: {}, preempted after callbacks {bt:?}",
            self.iso.cases[x].describe(),
            self.iso.cases[y].describe()
        )
    }
}

/// a run, many times over in one thread, with other inputs in between
pub struct LongSpace {
    pub iso: std::sync::Arc<Isolation>,
    pub runs: u32,
}
impl Space for LongSpace {
    fn name(&self) -> String {
        format!("{} runs of an input in one thread, another one after each, all of the results alive for a while", self.runs)
    }
    fn len(&self) -> u64 {
        (self.iso.cases.len() * self.iso.cases.len()) as u64
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let n = self.iso.cases.len();
        let (x, y) = (i as usize / n, i as usize % n);
        w.states += 1;
        w.traces += 1;
        w.outcome(i);
        // a fresh thread: nothing else has run in it
        std::thread::scope(|s| {
            let run = || {
                let mut alive = vec![];
                for k in 0..self.runs {
                    for (who, c) in [(x, &self.iso.cases[x]), (y, &self.iso.cases[y])] {
                        let r = lib(|| c.builder().build().triangulate());
                        match (&r, &self.iso.base[who]) {
                            (Ok(t), Some(b)) if t.triangle_list_indices() == *b => (),
                            (Err(_), None) => (),
                            _ => return Err(format!("run {k} of input {who} gives something else than the first one")),
                        }
                        alive.extend(r.ok().map(|r| (who, r)));
                    }
                    if alive.len() >= 1000 || k + 1 == self.runs {
                        for (who, t) in alive.drain(..) {
                            if Some(t.triangle_list_indices()) != self.iso.base[who] {
                                return Err(format!("the result for input {who} changes while others exist (run {k})"));
                            }
                        }
                    }
                }
                Ok(())
            };
            s.spawn(run).join().map_err(|_| "the thread died".to_string())?
        })?;
        w.transitions += 2 * self.runs as u64;
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let n = self.iso.cases.len() as u64;
        format!("{} and {} in turns", self.iso.cases[(i / n) as usize].describe(), self.iso.cases[(i % n) as usize].describe())
    }
}

/// Many threads that take turns at callbacks, each for a number of callbacks
pub struct RoundSpace(pub std::sync::Arc<Isolation>);
const ROUND_THREADS: &[usize] = &[3, 4, 5, 9, 17, 33];
const ROUND_TURNS: &[u32] = &[1, 2, 3, 5, 8];
struct Round {
    turn: Mutex<(usize, Vec<bool>, u64)>,
    cv: Condvar,
}
impl Round {
    fn next(&self, g: &mut (usize, Vec<bool>, u64)) {
        let n = g.1.len();
        g.2 += 1;
        g.0 = (1..=n).map(|k| (g.0 + k) % n).find(|k| !g.1[*k]).unwrap_or(n);
        self.cv.notify_all();
    }
    fn wait(&self, me: usize) {
        let mut g = self.turn.lock().unwrap();
        while g.0 != me {
            g = self.cv.wait(g).unwrap();
        }
    }
}
struct RoundMon<'a> {
    me: usize,
    n: u32,
    every: u32,
    round: &'a Round,
}
impl RoundMon<'_> {
    fn hit(&mut self) {
        self.n += 1;
        if self.n % self.every == 0 {
            self.round.next(&mut self.round.turn.lock().unwrap());
            self.round.wait(self.me);
        }
    }
}
all_callbacks!(RoundMon<'_>);
impl RoundSpace {
    /// threads, callbacks per turn, the first input, the step from one thread's input to the next
    fn split(&self, i: u64) -> (usize, u32, usize, usize) {
        let i = i as usize;
        let (a, i) = (i % ROUND_THREADS.len(), i / ROUND_THREADS.len());
        let (b, i) = (i % ROUND_TURNS.len(), i / ROUND_TURNS.len());
        (ROUND_THREADS[a], ROUND_TURNS[b], i % VALID, i / VALID)
    }
}
impl Space for RoundSpace {
    fn name(&self) -> String {
        format!("{ROUND_THREADS:?} threads in turns of {ROUND_TURNS:?} callbacks")
    }
    fn len(&self) -> u64 {
        (ROUND_THREADS.len() * ROUND_TURNS.len() * VALID * VALID) as u64
    }
    fn chunk(&self) -> u64 {
        16
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let (n, every, first, step) = self.split(i);
        let iso = &self.0;
        w.states += 1;
        w.traces += 1;
        let round = Round { turn: Mutex::new((0, vec![false; n], 0)), cv: Condvar::new() };
        let _ = &iso.base;
        let r = std::thread::scope(|s| {
            let all: Vec<_> = (0..n)
                .map(|me| {
                    let round = &round;
                    s.spawn(move || {
                        let k = (first + me * step) % VALID;
                        round.wait(me);
                        let mut m = RoundMon { me, n: 0, every, round };
                        let r = lib(|| iso.cases[k].builder().build().triangulate_with_observer(&mut m).triangle_list_indices());
                        let mut g = round.turn.lock().unwrap();
                        g.1[me] = true;
                        round.next(&mut g);
                        match r {
                            Err(e) => Err(format!("thread {me} fails: {e}")),
                            Ok(r) if Some(&r) != iso.base[k].as_ref() => Err(format!("thread {me} gets other triangles than on its own")),
                            Ok(_) => Ok(()),
                        }
                    })
                })
                .collect();
            all.into_iter().map(|h| h.join().map_err(|_| "a thread died".to_string())?).collect::<Result<Vec<()>, String>>()
        });
        let switches = round.turn.lock().unwrap().2;
        w.transitions += switches;
        w.outcome(hash(&(n, every, switches)));
        r.map(|_| ())
    }
    fn describe(&self, i: u64) -> String {
        let (n, every, first, step) = self.split(i);
        format!("{n} threads in turns of {every} callbacks, thread k with input {first} + {step} k of {VALID}")
    }
}

// histories over a large alphabet

/// what a run gives, and a hash of the order of its events
type Outcome = Result<(Vec<u32>, u64), String>;

#[derive(Default)]
struct OrderMon(Vec<u64>);
impl Observer for OrderMon {
    fn enter_point_event(&mut self, p: poly2tri_rs::PointId, c: &Sweeper) {
        self.0.push(p.as_usize() as u64 | (c.triangles.len() as u64) << 32);
    }
    fn edge_event(&mut self, e: poly2tri_rs::Edge, _: &Sweeper) {
        self.0.push(1 << 63 | (e.p.as_usize() as u64) << 32 | e.q.as_usize() as u64);
    }
    fn triangle_rotated(&mut self, a: poly2tri_rs::TriangleId, b: poly2tri_rs::TriangleId, _: &Sweeper) {
        self.0.push(1 << 62 | (a.as_usize() as u64) << 32 | b.as_usize() as u64);
    }
}

fn observed(c: &Case) -> Outcome {
    let mut o = OrderMon::default();
    let r = lib(|| c.builder().build().triangulate_with_observer(&mut o).triangle_list_indices())?;
    Ok((r, hash(&o.0)))
}

/// every sequence of `depth` inputs of an alphabet of similar inputs, most of which share their
/// bounding box, their number of points or the order of their points
pub struct SimilarSpace {
    pub cases: std::sync::Arc<Vec<Case>>,
    pub depth: u32,
    pub what: &'static str,
    pub base: std::sync::OnceLock<Vec<Outcome>>,
}
impl Space for SimilarSpace {
    fn name(&self) -> String {
        format!("histories of {} runs in one thread over {} similar inputs ({})", self.depth, self.cases.len(), self.what)
    }
    fn len(&self) -> u64 {
        (self.cases.len() as u64).pow(self.depth)
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        // each input in a thread of its own
        let base = self.base.get_or_init(|| {
            let one = |c: &Case| std::thread::scope(|s| s.spawn(|| observed(c)).join().unwrap());
            self.cases.iter().map(one).collect()
        });
        w.states += 1;
        w.traces += 1;
        let n = self.cases.len() as u64;
        let mut i = i;
        for step in 0..self.depth {
            let k = (i % n) as usize;
            i /= n;
            w.transitions += 1;
            let r = observed(&self.cases[k]);
            if r != base[k] {
                return Err(format!("run {} of the history is not what this input gives on its own", step + 1));
            }
            if step > 0 {
                w.outcome(hash(&base[k].is_ok()));
            }
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let n = self.cases.len() as u64;
        let v: Vec<String> = (0..self.depth).map(|d| self.cases[(i / n.pow(d) % n) as usize].describe()).collect();
        v.join("; then ")
    }
}

/// Two triangulations in one thread, from the builder to the last triangle read, in every interleaving
/// of their steps.
pub struct InterleavedSpace {
    pub cases: Vec<Case>,
    pub orders: Vec<Vec<bool>>,
}

/// one triangulation, step by step
enum Life {
    Start,
    Built(Box<poly2tri_rs::Builder>, u8),
    Ready(Box<poly2tri_rs::CDT<()>>),
    Done(Box<dyn Iterator<Item = poly2tri_rs::Triangle> + Send>, Vec<u32>),
    Failed,
}
const STEPS: usize = 8;

impl Life {
    fn step(self, c: &Case, got: &mut Vec<u64>) -> Life {
        let bits = |t: &poly2tri_rs::Triangle| hash(&t.points.map(|p| ((p.x as f64).to_bits(), (p.y as f64).to_bits())));
        let r = lib(|| match self {
            Life::Start => Life::Built(Box::new(poly2tri_rs::Builder::new(pts(&c.outer, c.exp))), 0),
            Life::Built(b, 0) => Life::Built(Box::new(b.add_holes(c.holes.iter().map(|h| pts(h, c.exp)).collect::<Vec<_>>())), 1),
            Life::Built(b, 1) => Life::Built(Box::new(c.steiner.iter().fold(*b, |b, p| b.add_steiner_point(pt(*p, c.exp), ()))), 2),
            Life::Built(b, _) => Life::Ready(Box::new(b.build())),
            Life::Ready(t) => {
                let t = t.triangulate();
                let v = t.triangle_list_indices();
                Life::Done(Box::new(t), v)
            }
            Life::Done(mut t, v) => {
                // two single triangles, then the rest
                if got.len() < 2 {
                    got.push(t.next().map_or(0, |t| bits(&t)));
                } else {
                    got.extend(t.by_ref().map(|t| bits(&t)));
                }
                Life::Done(t, v)
            }
            Life::Failed => Life::Failed,
        });
        r.unwrap_or(Life::Failed)
    }
    fn indices(self) -> Option<Vec<u32>> {
        match self {
            Life::Done(_, v) => Some(v),
            _ => None,
        }
    }
}

impl InterleavedSpace {
    fn alone(c: &Case) -> (Option<Vec<u32>>, Vec<u64>) {
        let mut got = vec![];
        let l = (0..STEPS).fold(Life::Start, |l, _| l.step(c, &mut got));
        (l.indices(), got)
    }
    fn split(&self, i: u64) -> (usize, usize, &[bool]) {
        let n = self.cases.len() as u64;
        ((i % n) as usize, (i / n % n) as usize, &self.orders[(i / n / n) as usize])
    }
    pub fn orders() -> Vec<Vec<bool>> {
        (0u32..1 << (2 * STEPS)).filter(|m| m.count_ones() as usize == STEPS).map(|m| (0..2 * STEPS).map(|b| m >> b & 1 == 1).collect()).collect()
    }
}
impl Space for InterleavedSpace {
    fn name(&self) -> String {
        format!("two triangulations, {STEPS} steps each, in every interleaving in one thread, {} inputs", self.cases.len())
    }
    fn len(&self) -> u64 {
        (self.cases.len() * self.cases.len() * self.orders.len()) as u64
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let (a, b, order) = self.split(i);
        w.states += 1;
        w.traces += 1;
        w.transitions += order.len() as u64;
        let k = [&self.cases[a], &self.cases[b]];
        let mut l = [Life::Start, Life::Start];
        let mut got = [vec![], vec![]];
        for &second in order {
            let s = second as usize;
            l[s] = std::mem::replace(&mut l[s], Life::Failed).step(k[s], &mut got[s]);
        }
        for ((life, got), c) in l.into_iter().zip(got).zip(k) {
            let r = (life.indices(), got);
            w.outcome(hash(&r));
            if r != Self::alone(c) {
                return Err(format!("{} gives something else than on its own", c.describe()));
            }
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (a, b, order) = self.split(i);
        let o: String = order.iter().map(|b| if *b { 'B' } else { 'A' }).collect();
        format!("A: {}; B: {}; steps {o}", self.cases[a].describe(), self.cases[b].describe())
    }
}

/// One triangulation whose steps are done by different threads: every choice of the steps that are
/// moved to a new thread.
pub struct MigrateSpace(pub Vec<Case>);
impl Space for MigrateSpace {
    fn name(&self) -> String {
        format!("one triangulation, every choice of steps done in another thread, {} inputs", self.0.len())
    }
    fn len(&self) -> u64 {
        (self.0.len() << STEPS) as u64
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let c = &self.0[(i >> STEPS) as usize];
        w.states += 1;
        w.traces += 1;
        w.transitions += STEPS as u64;
        let mut got = vec![];
        let mut l = Life::Start;
        for s in 0..STEPS {
            l = if i >> s & 1 == 1 {
                std::thread::scope(|t| t.spawn(|| l.step(c, &mut got)).join()).map_err(|_| "the thread panics")?
            } else {
                l.step(c, &mut got)
            };
        }
        let r = (l.indices(), got);
        w.outcome(hash(&r));
        if r != InterleavedSpace::alone(c) {
            return Err("gives something else than in one thread".into());
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let v: Vec<usize> = (0..STEPS).filter(|s| i >> s & 1 == 1).collect();
        format!("{}; steps {v:?} in other threads", self.0[(i >> STEPS) as usize].describe())
    }
}

fn similar_spaces(q: bool) -> Vec<Box<dyn Space>> {
    let sq = vec![(0, 0), (8, 0), (8, 8), (0, 8)];
    let lat = |n: i64| (0..n * n).map(move |k| (2 + 4 * (k % n) / (n - 1), 2 + 4 * (k / n) / (n - 1))).collect::<Vec<P>>();
    // all ordered selections of k lattice points in a box
    let select = |n: i64, k: usize| {
        let l = lat(n);
        let mut v: Vec<Vec<P>> = vec![vec![]];
        for _ in 0..k {
            v = v.iter().flat_map(|s| l.iter().filter(|p| !s.contains(p)).map(|p| [&s[..], &[*p]].concat())).collect();
        }
        v.into_iter().map(|steiner| Case { outer: sq.clone(), steiner, ..Default::default() }).collect::<Vec<_>>()
    };
    let p33 = crate::families::Polys::grid(3, 3, if q { 7 } else { 9 });
    let mut polys = (0..p33.len()).map(|i| Case { outer: p33.pts(i).collect(), ..Default::default() }).collect::<Vec<_>>();
    // valid and invalid ones of another kind
    polys.extend(alphabet());
    let large = crate::families::LargeGen { sizes: if q { vec![8, 30, 200] } else { vec![8, 30, 100, 400, 1000] }, shapes: crate::families::SHAPES.to_vec() };
    let mut c = Case::default();
    let mut sizes: Vec<Case> = (0..crate::case::Gen::len(&large)).filter_map(|i| crate::case::Gen::get(&large, i, &mut c).then(|| c.clone())).collect();
    sizes.extend(alphabet());
    let space = |cases: Vec<Case>, depth, what| Box::new(SimilarSpace { cases: std::sync::Arc::new(cases), depth, what, base: Default::default() }) as Box<dyn Space>;
    vec![
        space(select(3, 3), 2, "three ordered steiner points of a 3x3 lattice in a square"),
        space(polys, 2, "simple polygons of a 3x3 lattice, a few others"),
        space(sizes, 2, "structured inputs of several sizes, a few others"),
        Box::new(InterleavedSpace { cases: alphabet(), orders: InterleavedSpace::orders() }),
        Box::new(MigrateSpace(alphabet())),
        space(select(2, 3), if q { 4 } else { 5 }, "three ordered steiner points of a 2x2 lattice in a square"),
        space(select(3, 2), 3, "two ordered steiner points of a 3x3 lattice in a square"),
    ]
}

pub fn isolation_spaces(q: bool) -> Vec<Box<dyn Space>> {
    let iso = Arc::new(Isolation::new(if q { 4 } else { 5 }));
    let mut v: Vec<Box<dyn Space>> = vec![
        Box::new(BaselineSpace(iso.clone())),
        Box::new(HistorySpace(iso.clone())),
        Box::new(PanicSpace(iso.clone())),
        Box::new(NestedSpace(iso.clone())),
        Box::new(ThreadSpace { iso: iso.clone(), preemptions: 1 }),
        Box::new(ThreadSpace { iso: iso.clone(), preemptions: if q { 2 } else { 3 } }),
    ];
    v.push(Box::new(RoundSpace(iso.clone())));
    v.push(Box::new(crate::step::WholeSpace(iso.clone())));
    v.push(Box::new(crate::step::TurnSpace {
        iso: iso.clone(),
        turns: if q { &[(1, 1), (1, 2), (2, 3)] } else { &[(1, 1), (1, 2), (2, 3), (1, 5), (3, 7), (11, 13), (40, 60), (200, 150)] },
        ahead: if q { 8 } else { 32 },
        pairs: if q { &[(0, 0), (0, 5), (1, 1), (3, 3)] } else { &[(0, 0), (0, 5), (5, 0), (1, 1), (2, 2), (3, 3), (4, 4), (6, 6), (1, 4), (2, 3)] },
    }));
    v.push(Box::new(crate::step::CrossSpace {
        iso: iso.clone(),
        pairs: if q { &[(0, 0), (0, 5)] } else { &[(0, 0), (0, 5), (5, 3), (0, 2), (1, 0)] },
        any: !q,
        segments: Default::default(),
    }));
    v.extend(similar_spaces(q));
    v.push(Box::new(LongSpace { iso, runs: if q { 40_000 } else { 400_000 } }));
    v
}

// ------------------------------------------------------------------ C13

use poly2tri_rs::loader::{Loader, PlainFileLoader};

fn scratch_dir() -> std::path::PathBuf {
    out_dir().join(format!("loader.{}", std::env::var("MC_RUN").unwrap_or_default()))
}

fn scratch_file(tag: &str) -> std::path::PathBuf {
    let d = scratch_dir();
    let _ = std::fs::create_dir_all(&d);
    thread_local!(static N: u64 = {
        use std::sync::atomic::*;
        static C: AtomicU64 = AtomicU64::new(0);
        C.fetch_add(1, Ordering::Relaxed)
    });
    d.join(format!("{tag}.{}.{}", std::process::id(), N.with(|n| *n)))
}

pub fn remove_scratch() {
    let _ = std::fs::remove_dir_all(scratch_dir());
}

/// numbers as they are written, and their values
const NUMS: &[(&str, f64)] = &[("", 0.0), (".0", 0.0), (".25", 0.25), ("e0", 0.0), ("0e-1", 0.0)];

pub struct DocSpace {
    pub bodies: Vec<Vec<Section>>,
    pub q: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Section {
    Hole(i64),
    Steiner(i64, usize),
}

const SEPS: &[&str] = &[" ", "\t", "   "];
const EOLS: &[&str] = &["\n", "\r\n"];
const PADS: &[(&str, &str)] = &[("", ""), ("  ", ""), ("", " "), ("\t", "\t")];

/// all sequences of up to `n` sections after the polyline
pub fn bodies(n: usize) -> Vec<Vec<Section>> {
    let mut out: Vec<Vec<Section>> = vec![vec![]];
    let mut level: Vec<Vec<Section>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for b in &level {
            let holes = b.iter().filter(|s| matches!(s, Section::Hole(_))).count() as i64;
            let st = b.iter().map(|s| if let Section::Steiner(_, n) = s { *n as i64 } else { 0 }).sum::<i64>();
            for s in [Section::Hole(holes), Section::Steiner(st, 0), Section::Steiner(st, 1), Section::Steiner(st, 2)] {
                let mut c = b.clone();
                c.push(s);
                next.push(c);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}

impl DocSpace {
    fn variants(&self) -> u64 {
        (SEPS.len() * EOLS.len() * PADS.len() * NUMS.len() * 2 * 3) as u64
    }
    /// the text, the polyline, the holes, the steiner points
    fn doc(&self, i: u64) -> (String, Vec<(f64, f64)>, Vec<Vec<(f64, f64)>>, Vec<(f64, f64)>) {
        let mut v = i % self.variants();
        let mut pick = |n: usize| {
            let r = (v % n as u64) as usize;
            v /= n as u64;
            r
        };
        let sep = SEPS[pick(SEPS.len())];
        let eol = EOLS[pick(EOLS.len())];
        let pad = PADS[pick(PADS.len())];
        let num = pick(NUMS.len());
        let last_eol = pick(2) == 1;
        let blank = pick(3);
        let body = &self.bodies[(i / self.variants()) as usize];
        let mut lines: Vec<String> = vec![];
        let fmt = |p: P| -> (String, (f64, f64)) {
            let f = |x: i64| -> (String, f64) {
                let (s, a) = NUMS[num];
                match num {
                    4 => (format!("{x}{s}"), x as f64),
                    _ => (format!("{x}{s}"), if x < 0 { x as f64 - a } else { x as f64 + a }),
                }
            };
            let (a, b) = (f(p.0), f(p.1));
            (format!("{}{}{}{}{}", pad.0, a.0, sep, b.0, pad.1), (a.1, b.1))
        };
        let mut outer = vec![];
        for p in [(-100, -90), (110, -100), (105, 100), (-98, 99)] {
            let (s, q) = fmt(p);
            lines.push(s);
            outer.push(q);
        }
        let (mut holes, mut st) = (vec![], vec![]);
        for s in body {
            match s {
                Section::Hole(k) => {
                    lines.push("HOLE".into());
                    let (x, y) = (-80 + 30 * k, 10 * k - 50);
                    let mut h = vec![];
                    for p in [(x, y), (x + 20, y + 4), (x + 9, y + 17)] {
                        let (s, q) = fmt(p);
                        lines.push(s);
                        h.push(q);
                    }
                    holes.push(h);
                }
                Section::Steiner(k, n) => {
                    lines.push("STEINER".into());
                    for j in *k..*k + *n as i64 {
                        let (s, q) = fmt((-60 + 13 * j, 60 + 7 * (j % 3)));
                        lines.push(s);
                        st.push(q);
                    }
                }
            }
        }
        if blank > 0 {
            // empty lines, or lines of blanks, between all lines
            let b = if blank == 1 { "" } else { "  " };
            lines = lines.into_iter().flat_map(|l| [l, b.to_string()]).collect();
        }
        let mut text = lines.join(eol);
        if last_eol {
            text += eol;
        }
        (text, outer, holes, st)
    }
}

impl Space for DocSpace {
    fn name(&self) -> String {
        format!("well-formed files: {} section sequences x {} ways to write them", self.bodies.len(), self.variants())
    }
    fn len(&self) -> u64 {
        self.bodies.len() as u64 * self.variants()
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let (text, outer, holes, st) = self.doc(i);
        w.states += 1;
        w.traces += 1;
        w.transitions += text.lines().count() as u64;
        let f = scratch_file("doc");
        std::fs::write(&f, &text).unwrap();
        let r = lib(|| PlainFileLoader::default().load(f.to_str().unwrap())).map_err(|m| format!("load panics: {m}"))?;
        let b = r.map_err(|e| format!("load fails: {e}"))?;
        let conv = |v: &Vec<(f64, f64)>| -> Vec<Point> { v.iter().map(|p| Point::new(p.0 as _, p.1 as _)).collect() };
        let mut e = Builder::new(conv(&outer));
        for h in &holes {
            e = e.add_hole(conv(h));
        }
        e = e.add_steiner_points(conv(&st));
        let see = |b: Builder| {
            lib(|| {
                let t = b.build().triangulate();
                let p: Vec<(f64, f64)> = t.points().iter().map(|p| (p.x as f64, p.y as f64)).collect();
                (p, t.triangle_list_indices())
            })
        };
        let (a, b) = (see(b)?, see(e)?);
        if a.0 != b.0 {
            return Err(format!("the points loaded are {:?}, the file says {:?}", a.0, b.0));
        }
        if canon(&a.1) != canon(&b.1) {
            return Err("the loaded polygon has other triangles than the one built from the same numbers".into());
        }
        w.outcome(hash(&a.1));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?}", self.doc(i).0)
    }
}

/// a well-formed file with one line replaced by, or one line inserted that is, malformed
pub struct BadLineSpace;
const BAD: &[&str] = &[
    "1", "x", "x y", "1 x", "x 1", "1,2", "--1 2", "1 2-", "hole", "Steiner", "1 0x10", "1 1_0", "HOLES", "HOLE1", "#", "1 .", "1 e5", "é 1", ". 1", "1e 2", "1;2 3",
];
const GOOD: &[&str] = &["-10 -10", "10 -10", "10 10", "-10 11", "HOLE", "0 0", "3 1", "1 4", "STEINER", "5 5", "-6 5"];
impl BadLineSpace {
    fn doc(&self, i: u64) -> String {
        let b = BAD[i as usize % BAD.len()];
        let i = i as usize / BAD.len();
        let crlf = i % 2 == 1;
        let i = i / 2;
        let replace = i % 2 == 1;
        let at = i / 2;
        let mut v: Vec<&str> = GOOD.to_vec();
        if replace && at < v.len() {
            v[at] = b;
        } else {
            v.insert(at, b);
        }
        v.join(if crlf { "\r\n" } else { "\n" })
    }
}
impl Space for BadLineSpace {
    fn name(&self) -> String {
        "files with one malformed line, at every place".into()
    }
    fn len(&self) -> u64 {
        (BAD.len() * 4 * (GOOD.len() + 1)) as u64
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let text = self.doc(i);
        w.states += 1;
        w.traces += 1;
        w.transitions += text.lines().count() as u64;
        let f = scratch_file("bad");
        std::fs::write(&f, &text).unwrap();
        let r = lib(|| PlainFileLoader::default().load(f.to_str().unwrap()).map(|_| ()).map_err(|e| e.to_string()))
            .map_err(|m| format!("load panics: {m}"))?;
        w.outcome(hash(&r));
        match r {
            Ok(()) => Err("a file with a malformed line is accepted".into()),
            Err(_) => Ok(()),
        }
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?}", self.doc(i))
    }
}

/// every short ring of a few points, as the polyline and as a hole: neighbours that are the same
/// are an error, whatever is accepted is what the file says
pub struct RingSpace {
    pub n: u32,
}
const RING: &[(&str, f64, f64)] = &[("1 1", 1.0, 1.0), ("1 2", 1.0, 2.0), ("2 1.0", 2.0, 1.0), ("0 1", 0.0, 1.0), ("-0 1e0", -0.0, 1.0)];
impl RingSpace {
    fn ring(&self, i: u64) -> Vec<(&'static str, f64, f64)> {
        digits(i / 3, RING.len() as u64, self.n).iter().map(|k| RING[*k as usize]).collect()
    }
    fn doc(&self, i: u64) -> String {
        let r = self.ring(i).iter().map(|p| p.0).collect::<Vec<_>>().join("\n");
        match i % 3 {
            0 => r,
            1 => format!("-9 -9\n9 -9\n0 9\nHOLE\n{r}\nSTEINER\n5 5\n"),
            _ => format!("-9 -9\n9 -9\n0 9\nSTEINER\n{r}\nHOLE\n3 3\n4 3\n3 5"),
        }
    }
}
impl Space for RingSpace {
    fn name(&self) -> String {
        format!("all rings of up to {} points out of {}, as a polyline, a hole, and steiner points", self.n, RING.len())
    }
    fn len(&self) -> u64 {
        count(RING.len() as u64, self.n) * 3
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let (ring, text) = (self.ring(i), self.doc(i));
        w.states += 1;
        w.traces += 1;
        w.transitions += ring.len() as u64;
        let f = scratch_file("ring");
        std::fs::write(&f, &text).unwrap();
        let r = lib(|| PlainFileLoader::default().load(f.to_str().unwrap())).map_err(|m| format!("load panics: {m}"))?;
        let n = ring.len();
        let repeated = i % 3 != 2 && (0..n).any(|k| (ring[k].1, ring[k].2) == (ring[(k + 1) % n].1, ring[(k + 1) % n].2));
        match r {
            Err(_) => w.outcome(1),
            Ok(_) if repeated => return Err("a file with a repeated point is accepted".into()),
            Ok(b) => {
                let (got, _) = input_of(b);
                // a triangulation without enough points fails before it can be looked at
                if got.is_empty() {
                    return Ok(());
                }
                let want = ring.iter().map(|p| (p.1.to_bits(), p.2.to_bits()));
                // the points of a hole come before the steiner points
                let at = [0, 3, 6][(i % 3) as usize];
                if !want.eq(got.iter().copied().skip(at).take(n)) || got.len() != n + [0, 4, 6][(i % 3) as usize] {
                    return Err("what is loaded is not what the file says".into());
                }
                w.outcome(hash(&got));
            }
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?}", self.doc(i))
    }
}

/// every short byte string as a file
pub struct BytesSpace {
    pub n: u32,
}
const BYTES: &[u8] = b"1 \n-.e\xff\rH";
impl Space for BytesSpace {
    fn name(&self) -> String {
        format!("all files of up to {} bytes out of {}", self.n, BYTES.len())
    }
    fn len(&self) -> u64 {
        count(BYTES.len() as u64, self.n) * 2
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let mut d: Vec<u8> = vec![];
        if i % 2 == 1 {
            d.extend(b"0 0\n3 0\n0 3\nHOLE\n");
        }
        d.extend(digits(i / 2, BYTES.len() as u64, self.n).iter().map(|&k| BYTES[k as usize]));
        w.states += 1;
        w.traces += 1;
        w.transitions += d.len() as u64;
        let f = scratch_file("bytes");
        std::fs::write(&f, &d).unwrap();
        let r = lib(|| PlainFileLoader::default().load(f.to_str().unwrap()).map(|_| ()).map_err(|e| e.to_string()))
            .map_err(|m| format!("load panics: {m}"))?;
        if std::str::from_utf8(&d).is_err() && r.is_ok() {
            return Err("a file that is not UTF-8 is accepted".into());
        }
        w.outcome(hash(&r));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let d: Vec<u8> = digits(i / 2, BYTES.len() as u64, self.n).iter().map(|&k| BYTES[k as usize]).collect();
        format!("{}{:?}", if i % 2 == 1 { "after a polyline and HOLE: " } else { "" }, d.escape_ascii().to_string())
    }
}

/// paths that cannot be read
pub struct PathSpace;
const BAD_PATHS: &[&str] = &["/nonexistent/file", "", ".", "out", "\0", "a\0b", "no/such/../file", "~", "/dev/null/x", "LONG", "LOOP"];
impl Space for PathSpace {
    fn name(&self) -> String {
        "paths that cannot be read".into()
    }
    fn len(&self) -> u64 {
        BAD_PATHS.len() as u64
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        w.states += 1;
        w.traces += 1;
        w.transitions += 1;
        let mut p = BAD_PATHS[i as usize].to_string();
        if p == "LONG" {
            p = "x".repeat(5000);
        } else if p == "LOOP" {
            let l = std::env::current_dir().unwrap().join(scratch_file("loop"));
            let _ = std::fs::remove_file(&l);
            std::os::unix::fs::symlink(&l, &l).unwrap();
            p = l.to_str().unwrap().into();
        }
        let r = lib(|| PlainFileLoader::default().load(&p).map(|_| ())).map_err(|m| format!("load panics: {m}"))?;
        match r {
            Err(poly2tri_rs::loader::LoaderError::Io(_)) => Ok(()),
            Err(e) => Err(format!("the error is no IO error: {e}")),
            Ok(()) => Err("load succeeds".into()),
        }
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?}", BAD_PATHS[i as usize])
    }
}

/// names of files that can be read, each given in several ways
pub struct NameSpace;
const NAMES: &[&str] = &[
    "plain", "a b", " lead", "trail ", "dot.", ".hidden", "x.dat", "X.TXT", "x.json", "x.gz", "x.svg", "HOLE", "STEINER", "hole", "0 0", "-", "--help", "~", "$HOME", "%20",
    "a%20b", "*", "?", "[a]", "{a,b}", "a,b", "a;b", "a:b", "file:x", "http:x", "a\\b", "a\nb", "a\tb", "a\rb", "'", "\"", "#x", "x#y", "a?b=c", "größe", "点", "🦀", "e\u{301}", "null", "NUL", "con",
];
const WAYS: &[&str] = &["absolute", "relative", "with ./", "with .. in it", "with // in it", "by a symbolic link", "by a hard link", "read-only", "below a directory of that name", "by a linked directory"];
const NAMED: &str = "-10 -10\n10 -10\n10 10\n-10 11\nHOLE\n0 0\n3 1\n1 4\nSTEINER\n5 5\n";
impl NameSpace {
    fn long() -> String {
        "n".repeat(255)
    }
    fn get(i: u64) -> (String, &'static str) {
        let (n, k) = (i as usize / WAYS.len(), WAYS[i as usize % WAYS.len()]);
        (NAMES.get(n).map_or_else(Self::long, |s| s.to_string()), k)
    }
}
impl Space for NameSpace {
    fn name(&self) -> String {
        "paths that can be read: names of files, each in several ways".into()
    }
    fn len(&self) -> u64 {
        ((NAMES.len() + 1) * WAYS.len()) as u64
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        use std::os::unix::fs::symlink;
        let (name, way) = Self::get(i);
        w.states += 1;
        w.traces += 1;
        w.transitions += 1;
        let here = std::env::current_dir().unwrap();
        let d = here.join(scratch_file("names"));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("sub")).unwrap();
        let mut p = d.join(&name);
        if way == "below a directory of that name" {
            std::fs::create_dir(&p).unwrap();
            p = p.join("f");
        }
        std::fs::write(&p, NAMED).unwrap();
        let up = "../".repeat(here.components().count() - 1);
        let s = |p: &std::path::Path| p.to_str().unwrap().to_string();
        let abs = s(&p);
        assert!(abs.starts_with('/'));
        let path = match way {
            "relative" => format!("{up}{}", &abs[1..]),
            "with ./" => format!("./{up}./{}", &abs[1..]),
            "with .. in it" => format!("{}/sub/../{name}", s(&d)),
            "with // in it" => format!("{}//{name}", s(&d)),
            "by a symbolic link" => {
                symlink(&p, d.join("sub/l")).unwrap();
                s(&d.join("sub/l"))
            }
            "by a hard link" => {
                std::fs::hard_link(&p, d.join("sub/l")).unwrap();
                s(&d.join("sub/l"))
            }
            "read-only" => {
                use std::os::unix::fs::PermissionsExt;
                std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o444)).unwrap();
                abs
            }
            "by a linked directory" => {
                symlink(&d, d.join("sub/d")).unwrap();
                s(&d.join("sub/d").join(&name))
            }
            _ => abs,
        };
        let r = lib(|| PlainFileLoader::default().load(&path)).map_err(|m| format!("load panics: {m}"));
        let (left, _) = (std::fs::read_to_string(&p), std::fs::remove_dir_all(&d));
        let b = r?.map_err(|e| format!("load of {path:?} fails: {e}"))?;
        if left.ok().as_deref() != Some(NAMED) {
            return Err("the file has changed".into());
        }
        let v = |l: &[(i32, i32)]| l.iter().map(|p| Point::new(p.0 as _, p.1 as _)).collect::<Vec<_>>();
        let e = Builder::new(v(&[(-10, -10), (10, -10), (10, 10), (-10, 11)]))
            .add_hole(v(&[(0, 0), (3, 1), (1, 4)]))
            .add_steiner_points(v(&[(5, 5)]));
        if input_of(b) != input_of(e) {
            return Err("what is loaded is not what the file says".into());
        }
        w.outcome(i);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (n, w) = Self::get(i);
        format!("{n:?} {w}")
    }
}

/// one loader used for several files, all sequences: nothing carries over
pub struct LoaderHistory;
const FILES: &[&str] = &[
    "-10 -10\n10 -10\n10 10\n-10 11\n",
    "-10 -10\n10 -10\n10 10\n-10 11\nHOLE\n0 0\n3 1\n1 4\n",
    "-10 -10\n10 -10\n10 10\n-10 11\nSTEINER\n5 5\n-6 5\n",
    "0 0\n5 0\n0 x\n",
    "0 0\n5 0\n1 7\nHOLE\n",
    "-10 -10\n10 -10\n10 10\n-10 11\nSTEINER\n5 5\nHOLE\n0 0\n3 1\n1 4\nSTEINER\n-7 1\n",
];
impl Space for LoaderHistory {
    fn name(&self) -> String {
        "one loader for up to 4 files".into()
    }
    fn len(&self) -> u64 {
        count(FILES.len() as u64, 4)
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        w.states += 1;
        w.traces += 1;
        let mut one = PlainFileLoader::default();
        let f = scratch_file("seq");
        for o in digits(i, FILES.len() as u64, 4) {
            w.transitions += 1;
            std::fs::write(&f, FILES[o as usize]).unwrap();
            let p = f.to_str().unwrap();
            let see = |l: &mut PlainFileLoader| {
                lib(|| {
                    l.load(p).map_err(|e| e.to_string()).map(|b| {
                        let t = b.build().triangulate();
                        (t.points().iter().map(|p| (p.x as f64, p.y as f64)).collect::<Vec<_>>(), t.triangle_list_indices())
                    })
                })
            };
            let (a, b) = (see(&mut one)?, see(&mut PlainFileLoader::default())?);
            if a != b {
                return Err(format!("a loader that was used before reads file {o} in another way"));
            }
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?}", digits(i, FILES.len() as u64, 4).iter().map(|&o| FILES[o as usize]).collect::<Vec<_>>())
    }
}

/// numbers that need correct rounding; all pairs
pub struct NumberSpace;
const EXACT: &[(&str, f64)] = &[
    ("0.1", 0.1), ("1e-7", 1e-7), ("-0", -0.0), ("+3.5", 3.5), (".5", 0.5), ("7.", 7.0), ("1E3", 1e3), ("-2.5e+2", -250.0),
    ("123456789.123456789", 123456789.12345679), ("0.30000000000000004", 0.30000000000000004),
    ("179769313486231570000", 1.7976931348623157e20), ("4.9406564584124654e-300", 4.9406564584124654e-300), ("00012", 12.0),
    ("2.2250738585072011e-3", 2.2250738585072011e-3), ("9007199254740993", 9007199254740992.0),
];
impl Space for NumberSpace {
    fn name(&self) -> String {
        "numbers in all usual notations, all pairs, in each section".into()
    }
    fn len(&self) -> u64 {
        (EXACT.len() * EXACT.len() * 3) as u64
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let (s, at, x, y) = self.doc(i);
        w.states += 1;
        w.traces += 1;
        w.transitions += 1;
        let f = scratch_file("num");
        std::fs::write(&f, &s).unwrap();
        let t = lib(|| -> Result<Vec<(f64, f64)>, String> {
            let b = PlainFileLoader::default().load(f.to_str().unwrap()).map_err(|e| e.to_string())?;
            // the points can be seen without a successful triangulation through a clone of the input
            let t = b.build().triangulate();
            Ok(t.points().iter().map(|p| (p.x as f64, p.y as f64)).collect())
        });
        match t {
            Err(m) if m.contains("loader.rs") => Err(format!("load panics: {m}")),
            // coincident or far away points: not a valid input, nothing is promised
            Err(_) => Ok(()),
            Ok(Err(m)) => Err(format!("load fails: {m}")),
            Ok(Ok(p)) => {
                if p.get(at).map(|p| (p.0.to_bits(), p.1.to_bits())) != Some((x.to_bits(), y.to_bits())) {
                    return Err(format!("point {at} is {:?}, the file says ({x:?}, {y:?})", p.get(at)));
                }
                w.outcome(hash(&(at, x.to_bits(), y.to_bits())));
                Ok(())
            }
        }
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?}", self.doc(i).0)
    }
}
impl NumberSpace {
    fn doc(&self, i: u64) -> (String, usize, f64, f64) {
        let i = i as usize;
        let (a, b) = (EXACT[i / 3 % EXACT.len()], EXACT[i / 3 / EXACT.len()]);
        let l = format!("{} {}", a.0, b.0);
        let (s, at) = match i % 3 {
            0 => (format!("{l}\n-51.5 -77\n100 -40\n101.25 300"), 0),
            1 => (format!("-5000 -5001\n5003 -5002\n1 9000\nHOLE\n-10 -11\n-2 -12\n{l}"), 5),
            _ => (format!("-5000 -5001\n5003 -5002\n1 9000\nSTEINER\n{l}\n"), 3),
        };
        (s, at, a.1, b.1)
    }
}

/// numbers of every length, with the point at every place; numbers halfway between two floats, a
/// little more and a little less. The reference is the standard library, which rounds correctly.
pub struct DigitSpace {
    pub max: u64,
}
const EXPONENTS: &[&str] = &["", "e5", "e-5", "E30", "e-30", "e+290", "e-320"];
const HALF_INT: u64 = 70;
const HALF_FRAC: u64 = 31;
impl DigitSpace {
    fn plain(&self) -> u64 {
        self.max * (self.max + 1) * EXPONENTS.len() as u64
    }
    fn numbers(&self, i: u64) -> Vec<String> {
        let mut v = vec![];
        let tails = ["", ".0", ".00000000000000000000000000000000000000000001"];
        if i < self.plain() {
            let (e, i) = (i % EXPONENTS.len() as u64, i / EXPONENTS.len() as u64);
            let (at, len) = ((i % (self.max + 1)) as usize, (i / (self.max + 1) + 1) as usize);
            if at > len {
                return v;
            }
            for k in 0..64u64 {
                // digits of a sequence of odd multiples, the first one not zero
                let mut x = (k + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
                let mut s = String::new();
                for d in 0..len {
                    let c = x % 10;
                    s.push((b'0' + if d == 0 && c == 0 { 9 } else { c as u8 }) as char);
                    x = x / 10 ^ x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                }
                if at < len || k % 2 == 0 {
                    s.insert(at, '.');
                }
                v.push(format!("{}{s}{}", ["", "-", "+"][(k % 3) as usize], EXPONENTS[e as usize]));
            }
        } else if i - self.plain() < HALF_INT {
            let j = (i - self.plain()) as u32;
            for k in 0..8u128 {
                for d in [-1, 0, 1] {
                    // between two neighbours of 53 bits
                    let h = ((1u128 << 54 | k * 0x7_5bcd_15a3 & !1) | 1) << j;
                    let n = h as i128 + d;
                    v.extend(tails.iter().map(|t| format!("{n}{t}")));
                }
            }
        } else {
            let j = (i - self.plain() - HALF_INT) as u32 + 1;
            for k in 0..8u128 {
                for d in [-1, 0, 1] {
                    let h = (1u128 << 54 | k * 0x7_5bcd_15a3 & !1) | 1;
                    let s = format!("{:0>40}", (h * 5u128.pow(j)) as i128 + d);
                    let (a, b) = s.split_at(40 - j as usize);
                    let a = a.trim_start_matches('0');
                    v.extend([format!("{a}.{b}"), format!("-0{a}.{b}0"), format!("{a}.{b}0000000000000000000000000001"), format!("{a}{b}e-{j}")]);
                }
            }
        }
        if v.len() % 2 == 1 {
            v.pop();
        }
        v
    }
}
impl Space for DigitSpace {
    fn name(&self) -> String {
        format!("numbers of up to {} digits, the point anywhere, {} exponents; numbers around halfway", self.max, EXPONENTS.len())
    }
    fn len(&self) -> u64 {
        self.plain() + HALF_INT + HALF_FRAC
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let v = self.numbers(i);
        if v.is_empty() {
            w.filtered += 1;
            return Ok(());
        }
        w.states += 1;
        w.traces += 1;
        w.transitions += v.len() as u64;
        let f = scratch_file("digits");
        let lines: Vec<String> = v.chunks(2).map(|p| p.join(" ")).collect();
        std::fs::write(&f, format!("0 0\n5 1\n2 7\nSTEINER\n{}\n", lines.join("\n"))).unwrap();
        let r = lib(|| PlainFileLoader::default().load(f.to_str().unwrap())).map_err(|m| format!("load panics: {m}"));
        let _ = std::fs::remove_file(&f);
        let (got, _) = input_of(r?.map_err(|e| format!("load fails: {e}"))?);
        for (k, p) in v.chunks(2).enumerate() {
            let want = |s: &String| (s.parse::<poly2tri_rs::Float>().unwrap() as f64).to_bits();
            let want = (want(&p[0]), want(&p[1]));
            if got.get(3 + k) != Some(&want) {
                let see = |p: (u64, u64)| (f64::from_bits(p.0), f64::from_bits(p.1));
                return Err(format!("the line {:?} is loaded as {:?}, correctly rounded it is {:?}", lines[k], got.get(3 + k).map(|p| see(*p)), see(want)));
            }
            w.outcome(hash(&want));
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?} ...", self.numbers(i).iter().take(4).collect::<Vec<_>>())
    }
}

/// what was loaded, without the need to triangulate it: points and edges
#[derive(Default)]
struct InputMon(Vec<(u64, u64)>, Vec<(usize, usize)>);
impl Observer for InputMon {
    fn enter_point_event(&mut self, _: poly2tri_rs::PointId, c: &Sweeper) {
        for (id, p, edges) in c.points.iter_without_fake() {
            self.0.push(((p.x as f64).to_bits(), (p.y as f64).to_bits()));
            self.1.extend(edges.map(|e| (id.as_usize(), e.as_usize())));
        }
        panic!("seen enough");
    }
}
type Input = (Vec<(u64, u64)>, Vec<(usize, usize)>);
fn input_of(b: Builder) -> Input {
    let mut m = InputMon::default();
    let _ = lib(|| b.build().triangulate_with_observer(&mut m));
    (m.0, m.1)
}

/// files of every size: points of the polyline, of a hole, of the steiner section, number of holes,
/// empty lines, blanks in a line, digits of a number
pub struct SizeSpace {
    pub sizes: Vec<usize>,
}
const KINDS: &[&str] = &["polyline", "hole", "holes", "steiner points", "sections", "empty lines", "blanks", "digits"];
impl SizeSpace {
    fn doc(&self, i: u64) -> (String, Vec<Point>, Vec<Vec<Point>>, Vec<Point>) {
        use std::fmt::Write;
        let n = self.sizes[i as usize / KINDS.len()];
        let kind = KINDS[i as usize % KINDS.len()];
        let mut text = String::new();
        let point = |text: &mut String, k: usize| -> Point {
            let (x, y) = (k as f64 * 0.25 - 7.0, ((k * 7919) % 1013) as f64 + k as f64 / 1024.0);
            writeln!(text, "{x} {y}").unwrap();
            Point::new(x as _, y as _)
        };
        let outer: Vec<Point> = (0..if kind == "polyline" { n + 3 } else { 4 }).map(|k| point(&mut text, k)).collect();
        let (mut holes, mut st) = (vec![], vec![]);
        match kind {
            "hole" => {
                text += "HOLE\n";
                holes.push((0..n + 3).map(|k| point(&mut text, k + 10)).collect());
            }
            "holes" => {
                for h in 0..n {
                    text += "HOLE\n";
                    holes.push((0..3).map(|k| point(&mut text, 10 + 3 * h + k)).collect());
                }
            }
            "steiner points" => {
                text += "STEINER\n";
                st = (0..n).map(|k| point(&mut text, k + 10)).collect();
            }
            "sections" => {
                for h in 0..n {
                    text += "STEINER\n";
                    st.push(point(&mut text, 10 + 4 * h));
                    text += "HOLE\n";
                    holes.push((1..4).map(|k| point(&mut text, 10 + 4 * h + k)).collect());
                }
            }
            "empty lines" => {
                text += "STEINER\n";
                text += &"\n".repeat(n);
                st.push(point(&mut text, 10));
            }
            "blanks" => {
                let b = " ".repeat(n + 1);
                writeln!(text, "STEINER\n{b}17{b}23{b}\n5 5").unwrap();
                st = vec![Point::new(17., 23.), Point::new(5., 5.)];
            }
            _ => {
                let z = "0".repeat(n);
                writeln!(text, "STEINER\n{z}1.5{z} 23.25{z}1\n5 5").unwrap();
                // the last digit is below half a unit in the last place from 20 zeros on
                let y: f64 = if n > 20 { 23.25 } else { format!("23.25{z}1").parse().unwrap() };
                st = vec![Point::new(1.5, y as _), Point::new(5., 5.)];
            }
        }
        (text, outer, holes, st)
    }
}
impl Space for SizeSpace {
    fn name(&self) -> String {
        format!("files of {} sizes, up to {}, of each part of a file", self.sizes.len(), self.sizes.iter().max().unwrap())
    }
    fn len(&self) -> u64 {
        (self.sizes.len() * KINDS.len()) as u64
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let (text, outer, holes, st) = self.doc(i);
        w.states += 1;
        w.traces += 1;
        w.transitions += text.lines().count() as u64;
        let f = scratch_file("size");
        std::fs::write(&f, &text).unwrap();
        let r = lib(|| PlainFileLoader::default().load(f.to_str().unwrap())).map_err(|m| format!("load panics: {m}"))?;
        let b = r.map_err(|e| format!("load fails: {e}"))?;
        let e = holes.iter().fold(Builder::new(outer), |b, h| b.add_hole(h.clone())).add_steiner_points(st);
        let (a, b) = (input_of(b), input_of(e));
        let _ = std::fs::remove_file(&f);
        if a.0.len() != b.0.len() {
            return Err(format!("{} points are loaded, the file has {}", a.0.len(), b.0.len()));
        }
        if let Some(k) = (0..a.0.len()).find(|k| a.0[*k] != b.0[*k]) {
            let p = |v: (u64, u64)| (f64::from_bits(v.0), f64::from_bits(v.1));
            return Err(format!("point {k} is {:?}, the file says {:?}", p(a.0[k]), p(b.0[k])));
        }
        if a.1 != b.1 {
            return Err("the polylines loaded are not the ones of the file".into());
        }
        w.outcome(hash(&a));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("a file of {} {}", self.sizes[i as usize / KINDS.len()], KINDS[i as usize % KINDS.len()])
    }
    fn chunk(&self) -> u64 {
        1
    }
}

pub fn loader_spaces(q: bool) -> Vec<Box<dyn Space>> {
    vec![
        Box::new(PathSpace),
        Box::new(NameSpace),
        Box::new(BadLineSpace),
        Box::new(RingSpace { n: if q { 6 } else { 8 } }),
        Box::new(NumberSpace),
        Box::new(DigitSpace { max: if q { 24 } else { 60 } }),
        Box::new(LoaderHistory),
        Box::new(BytesSpace { n: if q { 5 } else { 6 } }),
        Box::new(DocSpace { bodies: bodies(if q { 3 } else { 4 }), q }),
        Box::new(SizeSpace { sizes: (0..if q { 1500 } else { 6000 }).collect() }),
        Box::new(SizeSpace { sizes: if q { vec![10_000, 70_000, 300_000] } else { vec![10_000, 70_000, 300_000, 3_000_000] } }),
    ]
}

/// results of every size, one call of nth with every argument
struct NthSpace {
    max: u64,
}

impl NthSpace {
    fn split(&self, i: u64) -> (u64, u64) {
        (3 + i / (self.max + 2), i % (self.max + 2))
    }
}

impl Space for NthSpace {
    fn name(&self) -> String {
        format!("nth of results up to {} triangles", self.max - 2)
    }
    fn len(&self) -> u64 {
        (self.max - 2) * (self.max + 2)
    }
    fn run(&self, i: u64, w: &mut W) -> Result<(), String> {
        let (n, k) = self.split(i);
        if k > n + 1 {
            w.filtered += 1;
            return Ok(());
        }
        w.states += 1;
        w.transitions += 4;
        w.traces += 1;
        // a convex chain over a base
        let outer: Vec<P> = (0..n as i64).map(|x| (x, -x * (n as i64 - x))).collect();
        let mut t = lib(|| Builder::new((pts(&outer, 0), (0..n).collect())).build().triangulate())?;
        let idx = lib(|| t.triangle_list_indices())?;
        if idx.len() as u64 != 3 * (n - 2) || t.data().len() as u64 != n || t.points().len() as u64 != n {
            return Err(format!("{} indices, {} points, {} data of {n} points", idx.len(), t.points().len(), t.data().len()));
        }
        let at = |j: u64| idx.chunks(3).nth(j as usize).map(|t| t.iter().map(|&i| outer[i as usize]).collect::<Vec<P>>());
        let key = |t: Triangle| t.points.iter().map(|p| (p.x as i64, p.y as i64)).collect::<Vec<P>>();
        let (got, next) = lib(|| (t.nth(k as usize).map(key), t.next().map(key)))?;
        if got != at(k) || next != at(k + 1) {
            return Err(format!("nth({k}) or next after it is not the triangle given by the indices"));
        }
        let left = (n - 2).saturating_sub(k + 2);
        let (lo, hi) = lib(|| t.size_hint())?;
        if lo as u64 > left || hi.map_or(false, |h| (h as u64) < left) {
            return Err(format!("size_hint ({lo}, {hi:?}) with {left} triangles left"));
        }
        if lib(|| t.by_ref().count())? as u64 != left || lib(|| t.triangle_list_indices())? != idx {
            return Err("the rest or the indices are not what they were".into());
        }
        w.outcome(hash(&(n, k)));
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let (n, k) = self.split(i);
        format!("nth({k}) of the result of {n} convex points")
    }
}

pub fn result_spaces(q: bool) -> Vec<Box<dyn Space>> {
    vec![
        Box::new(NthSpace { max: if q { 300 } else { 1100 } }),
        Box::new(ResultSpace { depth: if q { 6 } else { 7 }, cases: result_cases() }),
        Box::new(ResultSpace { depth: if q { 3 } else { 4 }, cases: large_result_cases() }),
    ]
}

/// results of some hundred triangles
fn large_result_cases() -> Vec<Case> {
    let g = crate::families::LargeGen { sizes: vec![60, 400], shapes: vec!["grid_points", "holes_grid", "outside_points", "comb_left"] };
    let mut c = Case::default();
    (0..crate::case::Gen::len(&g)).map(|i| { assert!(crate::case::Gen::get(&g, i, &mut c)); c.clone() }).collect()
}

/// the parts of the loader check that do the most different things
pub fn loader_uses(q: bool) -> Vec<Box<dyn Space>> {
    vec![
        Box::new(BadLineSpace),
        Box::new(LoaderHistory),
        Box::new(BytesSpace { n: if q { 3 } else { 4 } }),
        Box::new(DocSpace { bodies: bodies(2), q: true }),
    ]
}
