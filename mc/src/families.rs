//! The finite families of inputs that are enumerated.
use crate::case::{exact, Case, Gen};
use crate::gen::Lattice;
use crate::geom::*;
use std::sync::Arc;

// ------------------------------------------------------------------ embeddings

/// A map from small lattice coordinates to the coordinates handed to the library.
#[derive(Clone, Copy)]
pub struct Map {
    pub name: &'static str,
    pub f: fn(P) -> P,
    pub exp: i32,
    /// affine maps keep a valid input valid
    pub affine: bool,
}

fn mix(x: i64, y: i64, k: u64) -> u64 {
    let mut h = (x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)
        ^ (y as u64).wrapping_mul(0xC2B2_AE3D_27D4_EB4F)
        ^ k.wrapping_mul(0x1656_67B1_9E37_79F9);
    h ^= h >> 29;
    h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    h ^= h >> 32;
    h
}

const fn m(name: &'static str, f: fn(P) -> P, exp: i32, affine: bool) -> Map {
    Map { name, f, exp, affine }
}

/// many equal coordinates
pub const ID: Map = m("id", |p| p, 0, true);
/// all coordinates different, reversed row order
pub const ROT: Map = m("rot", |p| (3 * p.0 + p.1, 3 * p.1 - p.0), 0, true);
/// no two equal ordinates, rows left to right / right to left
pub const SHEAR: Map = m("shear", |p| (p.0, 100 * p.1 + p.0), 0, true);
pub const SHEARL: Map = m("shearl", |p| (p.0, 100 * p.1 - p.0), 0, true);
/// no two equal abscissas, ties in y
pub const SLANT: Map = m("slant", |p| (100 * p.0 + p.1, p.1), 0, true);
/// general position: no ties, no collinear triples
pub const JIT: Map = m(
    "jit",
    |p| (1000 * p.0 + (mix(p.0, p.1, 1) % 41) as i64, 1000 * p.1 + (mix(p.0, p.1, 2) % 37) as i64),
    0,
    false,
);
pub const JIT2: Map = m(
    "jit2",
    |p| (1000 * p.0 + (mix(p.0, p.1, 3) % 397) as i64, 1000 * p.1 + (mix(p.0, p.1, 4) % 401) as i64),
    0,
    false,
);
pub const JIT3: Map = m(
    "jit3",
    |p| (1000 * p.0 + (mix(p.0, p.1, 5) % 397) as i64, 1000 * p.1 + (mix(p.0, p.1, 6) % 401) as i64),
    0,
    false,
);
/// flat and tall general position
pub const WIDE: Map = m(
    "wide",
    |p| (10000 * p.0 + (mix(p.0, p.1, 7) % 397) as i64, 10 * p.1 + (mix(p.0, p.1, 8) % 7) as i64),
    0,
    false,
);
pub const TALL: Map = m(
    "tall",
    |p| (10 * p.0 + (mix(p.0, p.1, 9) % 7) as i64, 10000 * p.1 + (mix(p.0, p.1, 10) % 397) as i64),
    0,
    false,
);
/// nearly degenerate: a lattice whose points are off by a few units in the 18th binary place
pub const NEAR: Map = m(
    "near",
    |p| ((p.0 << 18) + (mix(p.0, p.1, 11) % 4) as i64, (p.1 << 18) + (mix(p.0, p.1, 12) % 4) as i64),
    0,
    false,
);
/// the same in the 40th place (64 bit coordinates only)
pub const ULP: Map = m(
    "ulp",
    |p| ((p.0 << 40) + (mix(p.0, p.1, 13) % 8) as i64, (p.1 << 40) + (mix(p.0, p.1, 14) % 8) as i64),
    0,
    false,
);
/// multiples of 0.1 as they are written in source code (64 bit coordinates only)
pub const DEC: Map = m("dec", |p| (dec(p.0), dec(p.1)), -56, false);
fn dec(k: i64) -> i64 {
    // the double nearest to k/10, times 2^56
    ((k as f64 / 10.0) * (2f64).powi(56)) as i64
}
/// a lattice whose points are off by a few units in the last place of their coordinates: differences
/// and products of the coordinates round
pub const LAST: Map = m("last", |p| (last(4 * p.0 + 1, p, 15, 50, 53), last(4 * p.1 + 1, p, 16, 50, 53)), -52, false);
pub const LAST0: Map = m("last0", |p| (last(p.0, p, 17, 51, 53), last(p.1, p, 18, 51, 53)), 0, false);
pub const LAST32: Map = m("last32", |p| (last(4 * p.0 + 1, p, 15, 21, 24), last(4 * p.1 + 1, p, 16, 21, 24)), -22, false);
pub const LAST032: Map = m("last032", |p| (last(p.0, p, 17, 22, 24), last(p.1, p, 18, 22, 24)), 0, false);
fn last(b: i64, p: P, k: u64, shift: u32, digits: u32) -> i64 {
    let b = b << shift;
    let bits = 64 - b.unsigned_abs().leading_zeros();
    b + ((mix(p.0, p.1, k) % 4) as i64) * (1i64 << bits.saturating_sub(digits))
}
/// far from the origin
pub const FAR: Map = m("far", |p| (4 * p.0 + (1 << 40), 4 * p.1 - (1 << 39)), 0, true);
/// so far from the origin that neighbouring lattice points are neighbouring numbers
pub const EDGE: Map = m("edge", |p| (p.0 + (1 << 52), p.1 + (1 << 52)), 0, true);
pub const EDGEX: Map = m("edgex", |p| (p.0 - (1 << 53) + 128, p.1), 0, true);
pub const EDGEY: Map = m("edgey", |p| (p.0, p.1 + (1 << 52)), 0, true);
pub const EDGE32: Map = m("edge32", |p| (p.0 + (1 << 23), p.1 - (1 << 24) + 128), 0, true);
pub const EDGEX32: Map = m("edgex32", |p| (p.0 - (1 << 24) + 128, p.1), 0, true);
pub const EDGEY32: Map = m("edgey32", |p| (p.0, p.1 + (1 << 23)), 0, true);
pub const NEG: Map = m("neg", |p| (2 * p.0 - 5, 2 * p.1 - 7), 0, true);
/// both zeros: the axes run through the lattice, half of the zeros are negative
pub const ZERO: Map = m("zero", |p| (p.0 - 1, p.1 - 1), crate::case::MIXED_ZEROS, true);
/// convex tables: no three lattice rows or columns stay collinear
pub const QUAD: Map = m("quad", |p| (p.0 * p.0 + 3 * p.0 + p.1, 2 * p.1 * p.1 + p.1 + p.0), 0, false);
/// every row and column eight times as far out as the one before
pub const GROW: Map = m("grow", |p| (grow(p.0), grow(p.1)), 0, false);
fn grow(v: i64) -> i64 {
    let a = v.abs();
    v.signum() * ((1 << (3 * a).min(36)) + a)
}
/// scales
pub const TINY: Map = m("tiny", |p| (3 * p.0 + p.1, 3 * p.1 - p.0), -60, true);
pub const TINYJ: Map = m("tinyj", JIT.f, -70, false);
pub const SMALL: Map = m("small", |p| p, -30, true);
pub const SMALLJ: Map = m("smallj", JIT2.f, -40, false);
pub const HUGE: Map = m("huge", |p| (3 * p.0 + p.1, 3 * p.1 - p.0), 60, true);
pub const HUGEJ: Map = m("hugej", JIT.f, 80, false);

/// nearly as small and as large as the predicates can do
pub const BOTTOM: Map = m("bottom", JIT.f, -210, false);
pub const TOP: Map = m("top", JIT.f, 230, false);

/// scales within the range of 32 bit coordinates
pub const SMALL32: Map = m("small32", JIT2.f, -24, false);
pub const BIG32: Map = m("big32", |p| (3 * p.0 + p.1, 3 * p.1 - p.0), 16, true);
pub const F32_MAPS: &[Map] =
    &[ID, ROT, SHEAR, SHEARL, SLANT, JIT, JIT2, JIT3, WIDE, TALL, NEAR, NEG, ZERO, QUAD, SMALL32, BIG32, LAST32, LAST032, EDGE32, EDGEX32, EDGEY32];

pub const ALL_MAPS: &[Map] = &[
    ID, ROT, SHEAR, SHEARL, SLANT, JIT, JIT2, JIT3, WIDE, TALL, NEAR, ULP, LAST, LAST0, DEC, FAR, NEG, ZERO, QUAD, GROW, TINY, TINYJ, SMALL,
    SMALLJ, HUGE, HUGEJ, BOTTOM, TOP, EDGE, EDGEX, EDGEY,
];

// ------------------------------------------------------------------ lattice polygons

/// vertices of one polygon of a list, flat storage
pub struct Polys {
    pub name: String,
    pub lat: Arc<Lattice>,
    flat: Vec<u8>,
    off: Vec<u32>,
}

impl Polys {
    pub fn grid(w: i64, h: i64, kmax: usize) -> Arc<Polys> {
        let lat = Arc::new(Lattice::grid(w, h));
        let v = lat.polygons(3, kmax, true, true);
        let mut flat = vec![];
        let mut off = vec![0];
        for p in &v {
            flat.extend_from_slice(p);
            off.push(flat.len() as u32);
        }
        Arc::new(Polys { name: format!("{w}x{h}<={kmax}"), lat, flat, off })
    }
    pub fn len(&self) -> u64 {
        self.off.len() as u64 - 1
    }
    pub fn get(&self, i: u64) -> &[u8] {
        &self.flat[self.off[i as usize] as usize..self.off[i as usize + 1] as usize]
    }
    pub fn pts(&self, i: u64) -> impl Iterator<Item = P> + '_ {
        self.get(i).iter().map(|&j| self.lat.pts[j as usize])
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    /// no steiner point
    None,
    /// each lattice point in the domain
    In,
    /// each lattice point outside, including a ring around the lattice
    Out,
    /// each pair of lattice points not on the polygon, both orders
    Pair,
    /// none, and each point
    Any,
    /// all lattice points in the domain at once, all points outside at once, both
    All,
}

/// every polygon x every map x every choice of steiner points
pub struct PolyGen {
    pub polys: Arc<Polys>,
    pub maps: Vec<Map>,
    pub st: St,
    ext: Vec<P>,
}

impl PolyGen {
    pub fn new(polys: &Arc<Polys>, maps: &[Map], st: St) -> PolyGen {
        let (w, h) = polys.lat.pts.iter().fold((0, 0), |a, p| (a.0.max(p.0), a.1.max(p.1)));
        let ext = match st {
            St::None => vec![],
            St::In => polys.lat.pts.clone(),
            _ => (-1..=h + 1).flat_map(|y| (-1..=w + 1).map(move |x| (x, y))).collect(),
        };
        PolyGen { polys: polys.clone(), maps: maps.to_vec(), st, ext }
    }
    fn nst(&self) -> u64 {
        let e = self.ext.len() as u64;
        match self.st {
            St::None => 1,
            St::In | St::Out => e,
            St::Any => e + 1,
            St::Pair => e * e,
            St::All => 3,
        }
    }
}

impl Gen for PolyGen {
    fn name(&self) -> String {
        let maps: Vec<&str> = self.maps.iter().map(|m| m.name).collect();
        format!("poly {} steiner {:?} maps {}", self.polys.name, self.st, maps.join("+"))
    }
    fn len(&self) -> u64 {
        self.polys.len() * self.maps.len() as u64 * self.nst()
    }
    fn get(&self, i: u64, c: &mut Case) -> bool {
        let ns = self.nst();
        let s = i % ns;
        let i = i / ns;
        let map = &self.maps[(i % self.maps.len() as u64) as usize];
        let i = i / self.maps.len() as u64;
        c.clear();
        c.exp = map.exp;
        c.outer.extend(self.polys.pts(i).map(map.f));
        if !map.affine && !is_simple(&c.outer) {
            return false;
        }
        let e = self.ext.len() as u64;
        match self.st {
            St::None => return true,
            St::Any if s == 0 => return true,
            St::Any => c.steiner.push((map.f)(self.ext[s as usize - 1])),
            St::In | St::Out => c.steiner.push((map.f)(self.ext[s as usize])),
            St::Pair => {
                if s / e == s % e {
                    return false;
                }
                c.steiner.push((map.f)(self.ext[(s / e) as usize]));
                c.steiner.push((map.f)(self.ext[(s % e) as usize]));
            }
            St::All => {
                for p in &self.ext {
                    let p = (map.f)(*p);
                    match point_in_polygon(&c.outer, p) {
                        Side::In if s != 1 => c.steiner.push(p),
                        Side::Out if s != 0 => c.steiner.push(p),
                        _ => {}
                    }
                }
                return !c.steiner.is_empty();
            }
        }
        for k in 0..c.steiner.len() {
            match (point_in_polygon(&c.outer, c.steiner[k]), self.st) {
                (Side::On, _) | (Side::Out, St::In) | (Side::In, St::Out) => return false,
                _ => {}
            }
        }
        c.steiner.len() < 2 || c.steiner[0] != c.steiner[1]
    }
}

// ------------------------------------------------------------------ points far away

/// every polygon, with points far outside in 16 directions: one, two on different sides, all
pub struct FarGen {
    pub polys: Arc<Polys>,
    pub maps: Vec<Map>,
}

const DIRS: [P; 16] = [
    (1, 0), (2, 1), (1, 1), (1, 2), (0, 1), (-1, 2), (-1, 1), (-2, 1), (-1, 0), (-2, -1), (-1, -1), (-1, -2), (0, -1), (1, -2),
    (1, -1), (2, -1),
];
const DISTANCES: [i64; 6] = [5, 40, 1000, 1 << 16, 1 << 20, 1 << 28];

impl Gen for FarGen {
    fn name(&self) -> String {
        let maps: Vec<&str> = self.maps.iter().map(|m| m.name).collect();
        format!("poly {} and points far outside, maps {}", self.polys.name, maps.join("+"))
    }
    fn len(&self) -> u64 {
        self.polys.len() * self.maps.len() as u64 * (DISTANCES.len() * (2 * DIRS.len() + 1)) as u64
    }
    fn get(&self, i: u64, c: &mut Case) -> bool {
        let nd = 2 * DIRS.len() + 1;
        let k = (i % nd as u64) as usize;
        let i = i / nd as u64;
        let e = (i % DISTANCES.len() as u64) as usize;
        let i = i / DISTANCES.len() as u64;
        let map = &self.maps[(i % self.maps.len() as u64) as usize];
        let i = i / self.maps.len() as u64;
        c.clear();
        c.exp = map.exp;
        c.outer.extend(self.polys.pts(i).map(map.f));
        if !map.affine && !is_simple(&c.outer) {
            return false;
        }
        let mut at = |d: usize, e: usize| {
            let (d, l) = (DIRS[d % DIRS.len()], DISTANCES[e % DISTANCES.len()]);
            c.steiner.push((map.f)((1 + l * d.0, 1 + l * d.1)));
        };
        if k < DIRS.len() {
            at(k, e);
        } else if k < 2 * DIRS.len() {
            at(k, e);
            at(k + 5, e + 1);
        } else {
            (0..DIRS.len()).for_each(|d| at(d, e));
        }
        c.steiner.iter().all(|s| crate::case::exact(*s) && point_in_polygon(&c.outer, *s) == Side::Out)
    }
}

// ------------------------------------------------------------------ holes

/// a frame with every lattice polygon as its hole
pub struct FrameGen {
    pub polys: Arc<Polys>,
    pub maps: Vec<Map>,
    /// also one steiner point anywhere in the frame
    pub st: bool,
}

impl FrameGen {
    fn dims(&self) -> (i64, i64) {
        self.polys.lat.pts.iter().fold((0, 0), |a, p| (a.0.max(p.0), a.1.max(p.1)))
    }
    fn frame(&self, k: u64) -> Vec<P> {
        let (w, h) = self.dims();
        match k {
            0 => vec![(-1, -1), (w + 1, -1), (w + 1, h + 1), (-1, h + 1)],
            // a triangle, a diamond, a frame that almost touches
            1 => vec![(-w - 3, -1), (2 * w + 3, -1), (w / 2, 2 * h + 4)],
            2 => vec![(w / 2, -h - 3), (2 * w + 3, h / 2), (w / 2, 2 * h + 3), (-w - 3, h / 2)],
            _ => vec![(w / 2, -h - 4), (2 * w + 4, h + 2), (-w - 4, h + 2)],
        }
    }
}

impl Gen for FrameGen {
    fn name(&self) -> String {
        let maps: Vec<&str> = self.maps.iter().map(|m| m.name).collect();
        format!("frame + hole {}{} maps {}", self.polys.name, if self.st { " + steiner" } else { "" }, maps.join("+"))
    }
    fn len(&self) -> u64 {
        let (w, h) = self.dims();
        let s = if self.st { ((w + 1) * (h + 1)) as u64 } else { 1 };
        self.polys.len() * self.maps.len() as u64 * 4 * s
    }
    fn get(&self, i: u64, c: &mut Case) -> bool {
        let (w, h) = self.dims();
        let ns = if self.st { ((w + 1) * (h + 1)) as u64 } else { 1 };
        let s = i % ns;
        let i = i / ns;
        let fr = i % 4;
        let i = i / 4;
        let map = &self.maps[(i % self.maps.len() as u64) as usize];
        let i = i / self.maps.len() as u64;
        c.clear();
        c.exp = map.exp;
        c.outer.extend(self.frame(fr).into_iter().map(map.f));
        c.holes.push(self.polys.pts(i).map(map.f).collect());
        if self.st {
            let p = (s as i64 % (w + 1), s as i64 / (w + 1));
            if self.polys.pts(i).any(|q| q == p) {
                return false;
            }
            c.steiner.push((map.f)(p));
        }
        if map.affine {
            c.steiner_ok()
        } else {
            c.valid()
        }
    }
}

/// every outer lattice polygon (magnified by 4), with every small triangle or square at every
/// position inside it as a hole; `two`: all pairs of such holes
pub struct HoleGen {
    pub polys: Arc<Polys>,
    pub maps: Vec<Map>,
    pub two: bool,
    spots: Vec<Vec<P>>,
}

impl HoleGen {
    pub fn new(polys: &Arc<Polys>, maps: &[Map], two: bool) -> HoleGen {
        let (w, h) = polys.lat.pts.iter().fold((0, 0), |a, p| (a.0.max(p.0), a.1.max(p.1)));
        let mut spots = vec![];
        let shapes: &[&[P]] = &[
            &[(1, 1), (3, 1), (2, 3)],
            &[(1, 3), (2, 1), (3, 3)],
            &[(1, 1), (3, 2), (1, 3)],
            &[(1, 1), (3, 1), (3, 3), (1, 3)],
        ];
        let shapes = if two { &shapes[1..3] } else { shapes };
        for y in 0..h {
            for x in 0..w {
                for s in shapes {
                    spots.push(s.iter().map(|p| (4 * x + p.0, 4 * y + p.1)).collect());
                }
            }
        }
        HoleGen { polys: polys.clone(), maps: maps.to_vec(), two, spots }
    }
}

impl Gen for HoleGen {
    fn name(&self) -> String {
        let maps: Vec<&str> = self.maps.iter().map(|m| m.name).collect();
        format!("poly {} + {} maps {}", self.polys.name, if self.two { "2 holes" } else { "hole" }, maps.join("+"))
    }
    fn len(&self) -> u64 {
        let s = self.spots.len() as u64;
        self.polys.len() * self.maps.len() as u64 * if self.two { s * s } else { s }
    }
    fn get(&self, i: u64, c: &mut Case) -> bool {
        let s = self.spots.len() as u64;
        let ns = if self.two { s * s } else { s };
        let k = i % ns;
        let i = i / ns;
        let map = &self.maps[(i % self.maps.len() as u64) as usize];
        let i = i / self.maps.len() as u64;
        if self.two && k / s == k % s {
            return false;
        }
        c.clear();
        c.exp = map.exp;
        c.outer.extend(self.polys.pts(i).map(|p| (map.f)((4 * p.0, 4 * p.1))));
        c.holes.push(self.spots[(k % s) as usize].iter().map(|p| (map.f)(*p)).collect());
        if self.two {
            c.holes.push(self.spots[(k / s) as usize].iter().map(|p| (map.f)(*p)).collect());
        }
        c.valid()
    }
}

/// a frame with a pair of lattice polygons side by side (or one above the other) as holes
pub struct PairGen {
    pub a: Arc<Polys>,
    pub b: Arc<Polys>,
    pub maps: Vec<Map>,
    pub above: bool,
}

impl Gen for PairGen {
    fn name(&self) -> String {
        let maps: Vec<&str> = self.maps.iter().map(|m| m.name).collect();
        format!(
            "frame + holes {} {} {} maps {}",
            self.a.name,
            if self.above { "below" } else { "left of" },
            self.b.name,
            maps.join("+")
        )
    }
    fn len(&self) -> u64 {
        self.a.len() * self.b.len() * self.maps.len() as u64
    }
    fn get(&self, i: u64, c: &mut Case) -> bool {
        let (w, h) = self.a.lat.pts.iter().fold((0, 0), |a, p| (a.0.max(p.0), a.1.max(p.1)));
        let (w2, h2) = self.b.lat.pts.iter().fold((0, 0), |a, p| (a.0.max(p.0), a.1.max(p.1)));
        let map = &self.maps[(i % self.maps.len() as u64) as usize];
        let i = i / self.maps.len() as u64;
        let (d, fw, fh) = if self.above {
            ((0, h + 1), w.max(w2), h + h2 + 1)
        } else {
            ((w + 1, 0), w + w2 + 1, h.max(h2))
        };
        c.clear();
        c.exp = map.exp;
        c.outer.extend([(-1, -1), (fw + 1, -1), (fw + 1, fh + 1), (-1, fh + 1)].into_iter().map(map.f));
        c.holes.push(self.a.pts(i % self.a.len()).map(map.f).collect());
        c.holes.push(self.b.pts(i / self.a.len()).map(|p| (map.f)((p.0 + d.0, p.1 + d.1))).collect());
        map.affine || c.valid()
    }
}

// ------------------------------------------------------------------ chains

/// monotone polygons: every sequence of upper (and lower) heights
pub struct ChainGen {
    /// columns
    pub k: u32,
    /// heights per column
    pub m: u64,
    /// also all lower chains (otherwise the lower border is one edge)
    pub both: bool,
    /// 0: along x, upper chain varies; 1: lower chain varies; 2, 3: along y
    pub turn: u8,
    pub maps: Vec<Map>,
}

fn turn(t: u8, p: P) -> P {
    match t {
        0 => p,
        1 => (-p.0, -p.1),
        2 => (-p.1, p.0),
        _ => (p.1, -p.0),
    }
}

impl Gen for ChainGen {
    fn name(&self) -> String {
        let maps: Vec<&str> = self.maps.iter().map(|m| m.name).collect();
        format!(
            "chain{} {} columns {} heights turn {} maps {}",
            if self.both { "s" } else { "" },
            self.k,
            self.m,
            self.turn,
            maps.join("+")
        )
    }
    fn len(&self) -> u64 {
        self.m.pow(if self.both { 2 * self.k } else { self.k }) * self.maps.len() as u64
    }
    fn get(&self, i: u64, c: &mut Case) -> bool {
        let map = &self.maps[(i % self.maps.len() as u64) as usize];
        let mut i = i / self.maps.len() as u64;
        c.clear();
        c.exp = map.exp;
        let k = self.k as i64;
        if self.both {
            for x in 0..k {
                c.outer.push((x, (i % self.m) as i64));
                i /= self.m;
            }
        } else {
            c.outer.push((-1, -1));
            c.outer.push((k, -1));
        }
        for x in (0..k).rev() {
            c.outer.push((x, (i % self.m) as i64 + if self.both { self.m as i64 } else { 0 }));
            i /= self.m;
        }
        for p in c.outer.iter_mut() {
            *p = (map.f)(turn(self.turn, *p));
        }
        map.affine || is_simple(&c.outer)
    }
}

fn nth_permutation(mut i: u64, k: usize, out: &mut Vec<i64>) {
    let mut pool: Vec<i64> = (0..k as i64).collect();
    out.clear();
    for j in (1..=k as u64).rev() {
        let f: u64 = (1..j).product();
        out.push(pool.remove((i / f) as usize));
        i %= f;
    }
}

/// what a permutation of 0..k is made into
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PermKind {
    /// upper chain of a polygon: all orders of the heights
    Upper,
    /// lower chain
    Lower,
    /// left chain: all orders of the abscissas
    Side,
    /// steiner points (i, perm(i)) in a box
    Points,
    /// zigzag strip: a chain there and back, one unit apart
    Strip,
}

pub struct PermGen {
    pub k: usize,
    pub kind: PermKind,
    pub maps: Vec<Map>,
}

impl Gen for PermGen {
    fn name(&self) -> String {
        let maps: Vec<&str> = self.maps.iter().map(|m| m.name).collect();
        format!("permutations of {} as {:?} maps {}", self.k, self.kind, maps.join("+"))
    }
    fn len(&self) -> u64 {
        (1..=self.k as u64).product::<u64>() * self.maps.len() as u64
    }
    fn get(&self, i: u64, c: &mut Case) -> bool {
        let map = &self.maps[(i % self.maps.len() as u64) as usize];
        let mut p = vec![];
        nth_permutation(i / self.maps.len() as u64, self.k, &mut p);
        c.clear();
        c.exp = map.exp;
        let k = self.k as i64;
        match self.kind {
            PermKind::Upper => {
                c.outer.extend([(-1, -2), (k, -3)]);
                c.outer.extend((0..k).rev().map(|x| (x, p[x as usize])));
            }
            PermKind::Lower => {
                c.outer.extend([(k, k + 1), (-1, k + 2)]);
                c.outer.extend((0..k).map(|x| (x, p[x as usize])));
            }
            PermKind::Side => {
                c.outer.extend([(k + 1, -1), (k + 2, k)]);
                c.outer.extend((0..k).rev().map(|y| (p[y as usize], y)));
            }
            PermKind::Points => {
                c.outer.extend([(-1, -1), (k, -1), (k, k), (-1, k)]);
                c.steiner.extend((0..k).map(|x| (x, p[x as usize])));
            }
            PermKind::Strip => {
                c.outer.extend((0..k).map(|x| (2 * x, 2 * p[x as usize])));
                c.outer.extend((0..k).rev().map(|x| (2 * x, 2 * p[x as usize] + 1)));
            }
        }
        for q in c.outer.iter_mut().chain(c.steiner.iter_mut()) {
            *q = (map.f)(*q);
        }
        map.affine || c.valid()
    }
}

/// every non-empty subset of the w x h lattice as steiner points in a box / a triangle
pub struct SubsetGen {
    pub w: i64,
    pub h: i64,
    pub maps: Vec<Map>,
    /// 0: box around; 1: big triangle; 2: the box leaves out the outermost columns (points outside)
    pub frame: u8,
}

impl Gen for SubsetGen {
    fn name(&self) -> String {
        let maps: Vec<&str> = self.maps.iter().map(|m| m.name).collect();
        format!("subsets of {}x{} in frame {} maps {}", self.w, self.h, self.frame, maps.join("+"))
    }
    fn len(&self) -> u64 {
        (1u64 << (self.w * self.h)) * self.maps.len() as u64
    }
    fn get(&self, i: u64, c: &mut Case) -> bool {
        let map = &self.maps[(i % self.maps.len() as u64) as usize];
        let bits = i / self.maps.len() as u64;
        if bits == 0 {
            return false;
        }
        c.clear();
        c.exp = map.exp;
        let (w, h) = (self.w, self.h);
        match self.frame {
            0 => c.outer.extend([(-1, -1), (w, -1), (w, h), (-1, h)]),
            1 => c.outer.extend([(-w - 1, -1), (2 * w, -1), (w / 2, 2 * h + 1)]),
            // a lozenge with half the lattice outside; its edges avoid the lattice
            _ => c.outer.extend([(-2, h / 2), (w / 2, -2), (w + 2, (h + 1) / 2), ((w + 1) / 2, h + 2)]),
        }
        for j in 0..w * h {
            if bits >> j & 1 == 1 {
                c.steiner.push((j % w, j / w));
            }
        }
        for q in c.outer.iter_mut().chain(c.steiner.iter_mut()) {
            *q = (map.f)(*q);
        }
        if self.frame == 2 {
            // drop the points that fall on the border
            let o = std::mem::take(&mut c.outer);
            c.steiner.retain(|p| point_in_polygon(&o, *p) != Side::On);
            c.outer = o;
        }
        c.valid()
    }
}

/// combs: long teeth of every height order, pointing up or down, optionally interlocking
pub struct CombGen {
    pub k: usize,
    pub turn: u8,
    pub maps: Vec<Map>,
}

impl Gen for CombGen {
    fn name(&self) -> String {
        let maps: Vec<&str> = self.maps.iter().map(|m| m.name).collect();
        format!("combs {} teeth all orders turn {} maps {}", self.k, self.turn, maps.join("+"))
    }
    fn len(&self) -> u64 {
        let f = (1..=self.k as u64).product::<u64>();
        f * f * self.maps.len() as u64
    }
    fn get(&self, i: u64, c: &mut Case) -> bool {
        let map = &self.maps[(i % self.maps.len() as u64) as usize];
        let i = i / self.maps.len() as u64;
        let f = (1..=self.k as u64).product::<u64>();
        let (mut tip, mut gap) = (vec![], vec![]);
        nth_permutation(i % f, self.k, &mut tip);
        nth_permutation(i / f, self.k, &mut gap);
        c.clear();
        c.exp = map.exp;
        let k = self.k as i64;
        // tips high above the gaps between them
        c.outer.extend([(-1, -k - 2), (4 * k, -k - 3)]);
        for t in (0..k).rev() {
            c.outer.push((4 * t + 2, gap[t as usize]));
            c.outer.push((4 * t, 3 * k + 3 * tip[t as usize]));
        }
        for q in c.outer.iter_mut() {
            *q = (map.f)(turn(self.turn, *q));
        }
        map.affine || is_simple(&c.outer)
    }
}

// ------------------------------------------------------------------ large inputs

/// One member per (shape, size): structured inputs far larger than the enumerated ones.
pub struct LargeGen {
    pub sizes: Vec<i64>,
    pub shapes: Vec<&'static str>,
}

pub const SHAPES: &[&str] = &[
    "comb_up", "comb_down", "comb_left", "comb_right", "zigzag", "staircase", "spiral", "star", "convex", "strip_x", "strip_y",
    "grid_points", "grid_points_jit", "holes_grid", "holes_row", "fan", "sawtooth_both", "parabola", "cocircular",
    "two_combs", "outside_points", "hilbert_points", "nested_v", "big_hole_comb", "sliver_up", "sliver_left", "sliver_flat",
    "dome_right", "dome_left", "dome_wide", "bowl", "saw_edge", "half_fan", "needle",
];

fn sq(c: &mut Case, x0: i64, y0: i64, x1: i64, y1: i64) {
    c.outer.extend([(x0, y0), (x1, y0), (x1, y1), (x0, y1)]);
}

impl Gen for LargeGen {
    fn name(&self) -> String {
        let (n, a, b) = (self.sizes.len(), self.sizes.first(), self.sizes.last());
        match (a, b) {
            (Some(a), Some(b)) if n > 9 && *b - *a == n as i64 - 1 => format!("structured, sizes {a}..={b}"),
            (Some(a), Some(b)) if n > 9 => format!("structured, {n} sizes from {a} to {b}"),
            _ => format!("structured, sizes {:?}", self.sizes),
        }
    }
    fn len(&self) -> u64 {
        (self.sizes.len() * self.shapes.len()) as u64
    }
    fn get(&self, i: u64, c: &mut Case) -> bool {
        let n = self.sizes[i as usize / self.shapes.len()];
        let s = self.shapes[i as usize % self.shapes.len()];
        c.clear();
        let j = |k: i64, q: u64, m: u64| (mix(k, 0, q) % m) as i64;
        match s {
            "comb_up" | "comb_down" | "comb_left" | "comb_right" => {
                let t = match s {
                    "comb_up" => 0,
                    "comb_down" => 1,
                    "comb_left" => 2,
                    _ => 3,
                };
                let k = n / 2;
                c.outer.extend([(-2, -20), (4 * k, -20)]);
                for x in (0..k).rev() {
                    c.outer.push((4 * x + 2, j(x, 1, 9)));
                    c.outer.push((4 * x, 1000 + j(x, 2, 500)));
                }
                for p in c.outer.iter_mut() {
                    *p = turn(t, *p);
                }
            }
            "zigzag" => {
                let k = n / 2;
                c.outer.extend((0..k).map(|x| (3 * x, if x % 2 == 0 { 0 } else { 50 })));
                c.outer.extend((0..k).rev().map(|x| (3 * x, if x % 2 == 0 { 5 } else { 55 })));
            }
            "staircase" => {
                let k = n / 2;
                for x in 0..k {
                    c.outer.push((2 * x, 2 * x));
                    c.outer.push((2 * x + 2, 2 * x));
                }
                c.outer.push((2 * k, 2 * k));
                c.outer.push((0, 2 * k + 1));
            }
            "spiral" => {
                let k = n / 2;
                let (mut a, mut b) = (vec![], vec![]);
                for t in 0..k {
                    let r = 40 + 12 * t;
                    let d = match t % 4 {
                        0 => (1, 0),
                        1 => (0, 1),
                        2 => (-1, 0),
                        _ => (0, -1),
                    };
                    let e = match t % 4 {
                        0 => (1, 1),
                        1 => (-1, 1),
                        2 => (-1, -1),
                        _ => (1, -1),
                    };
                    let _ = d;
                    a.push((e.0 * r, e.1 * r));
                    b.push((e.0 * (r + 6), e.1 * (r + 6)));
                }
                // the inner side of the ribbon and back along the outer side
                c.outer.extend(a);
                b.reverse();
                c.outer.extend(b);
            }
            "star" => {
                for t in 0..n {
                    let a = t as f64 / n as f64 * std::f64::consts::TAU;
                    let r = if t % 2 == 0 { 1.0e8 } else { 0.3e8 };
                    c.outer.push(((r * a.cos()) as i64, (r * a.sin()) as i64));
                }
            }
            "convex" | "cocircular" => {
                for t in 0..n {
                    let a = t as f64 / n as f64 * std::f64::consts::TAU;
                    let r = 1.0e12;
                    c.outer.push(((r * a.cos()) as i64, (r * a.sin()) as i64));
                }
                if s == "cocircular" {
                    c.steiner.push((3, 5));
                }
            }
            "strip_x" => {
                let k = n / 2;
                c.outer.extend((0..k).map(|x| (5 * x, j(x, 3, 7))));
                c.outer.extend((0..k).rev().map(|x| (5 * x + 2, 10 + j(x, 4, 7))));
            }
            "strip_y" => {
                let k = n / 2;
                c.outer.extend((0..k).map(|x| (j(x, 3, 7) + 10, 5 * x)));
                c.outer.extend((0..k).rev().map(|x| (j(x, 4, 7), 5 * x + 2)));
            }
            "grid_points" | "grid_points_jit" => {
                let k = (n as f64).sqrt() as i64;
                let jit = s != "grid_points";
                sq(c, -10, -10, 10 * k, 10 * k);
                for y in 0..k {
                    for x in 0..k {
                        let d = if jit { ((mix(x, y, 5) % 7) as i64, (mix(x, y, 6) % 7) as i64) } else { (0, 0) };
                        c.steiner.push((10 * x + d.0, 10 * y + d.1));
                    }
                }
            }
            "holes_grid" | "holes_row" => {
                let (w, h) = if s == "holes_row" { (n / 4, 1) } else { ((n as f64 / 4.0).sqrt() as i64, (n as f64 / 4.0).sqrt() as i64) };
                sq(c, -5, -5, 20 * w + 5, 20 * h + 5);
                for y in 0..h {
                    for x in 0..w {
                        let (a, b) = (20 * x + (mix(x, y, 7) % 6) as i64, 20 * y + (mix(x, y, 8) % 6) as i64);
                        let mut hole = vec![(a, b), (a + 10, b + 1), (a + 11, b + 10), (a + 1, b + 11)];
                        if (x + y) % 2 == 0 {
                            hole.reverse();
                        }
                        c.holes.push(hole);
                    }
                }
            }
            "fan" => {
                c.outer.push((0, -1000));
                c.outer.extend((0..n - 1).map(|x| (3 * (n / 2 - x), (x - n / 2) * (x - n / 2))).rev().map(|p| (p.0, -p.1 + 10 + (n / 2) * (n / 2))));
            }
            "sawtooth_both" => {
                let k = n / 2;
                c.outer.extend((0..k).map(|x| (4 * x, if x % 2 == 0 { 0 } else { 90 + j(x, 9, 5) })));
                c.outer.extend((0..k).rev().map(|x| (4 * x + 1, if x % 2 == 0 { 110 + j(x, 10, 5) } else { 200 + j(x, 11, 80) })));
            }
            "parabola" => {
                c.outer.extend((0..n).map(|x| (x - n / 2, (x - n / 2) * (x - n / 2))));
            }
            "two_combs" => {
                // interlocking teeth with a thin winding passage left out: two rows facing each other
                let k = n / 4;
                c.outer.extend((0..2 * k).map(|x| (6 * x, if x % 2 == 0 { -10 - j(x, 12, 30) } else { 300 + j(x, 13, 50) })));
                c.outer.extend((0..2 * k).rev().map(|x| (6 * x + 1, if x % 2 == 0 { 140 + j(x, 14, 20) } else { 900 + j(x, 15, 300) })));
            }
            "outside_points" => {
                sq(c, 0, 0, 1000, 1000);
                for t in 0..n {
                    let (x, y) = ((mix(t, 1, 16) % 4001) as i64 - 1500, (mix(t, 2, 17) % 4003) as i64 - 1500);
                    if !(-1..=1001).contains(&x) || !(-1..=1001).contains(&y) || ((1..1000).contains(&x) && (1..1000).contains(&y)) {
                        c.steiner.push((x, y));
                    }
                }
                c.steiner.sort();
                c.steiner.dedup();
            }
            "hilbert_points" => {
                sq(c, -100000, -100000, 1200000, 1100000);
                for t in 0..n {
                    c.steiner.push(((mix(t, 3, 18) % 1000003) as i64, (mix(t, 4, 19) % 1000033) as i64));
                }
                c.steiner.sort();
                c.steiner.dedup();
            }
            "nested_v" => {
                // a ribbon winding left and right, higher each time
                let k = n / 2;
                c.outer.extend((0..k).map(|x| if x % 2 == 0 { (-200 - x, 20 * x) } else { (200 + x, 20 * x + 3) }));
                c.outer.extend((0..k).rev().map(|x| if x % 2 == 0 { (-206 - x, 20 * x) } else { (194 + x, 20 * x + 3) }));
            }
            "big_hole_comb" => {
                let k = n / 2;
                sq(c, -100, -1000, 4 * k + 100, 3000);
                let mut h = vec![(-2, -20), (4 * k, -20)];
                for x in (0..k).rev() {
                    h.push((4 * x + 2, j(x, 1, 9)));
                    h.push((4 * x, 1000 + j(x, 2, 500)));
                }
                c.holes.push(h);
            }
            // a hole as thin as a needle through a strip of points: its edges cross n triangles each
            "sliver_up" | "sliver_left" | "sliver_flat" => {
                let k = n / 2;
                let f = |p: P| match s {
                    "sliver_up" => p,
                    "sliver_left" => (-p.0, p.1),
                    _ => (p.0, p.0 + 2 * p.1),
                };
                let e = 4 * k;
                c.outer.extend([(-8, -8), (e + 9, -7), (e + 8, e + 8), (-9, e + 9)]);
                if s == "sliver_flat" {
                    c.outer = vec![(-8, -2 * e - 30), (e + 9, -2 * e - 31), (e + 8, 2 * e + 30), (-9, 2 * e + 32)];
                }
                let strip = s != "sliver_flat";
                c.holes.push(if strip { vec![(0, 0), (e, e - 1), (e, e)] } else { vec![(0, 0), (e, 0), (e, 1)] });
                for i in 0..k {
                    let (a, b) = if strip { ((4 * i + 1, 4 * i + 3), (4 * i + 3, 4 * i)) } else { ((4 * i + 1, 1), (4 * i + 3, -1)) };
                    if !strip && i == k - 1 {
                        break;
                    }
                    c.steiner.extend([a, b]);
                }
                if !strip {
                    c.steiner.iter_mut().for_each(|p| p.1 *= 2);
                }
                c.outer.iter_mut().for_each(|p| *p = if strip { f(*p) } else { *p });
                c.holes[0].iter_mut().for_each(|p| *p = f(*p));
                c.steiner.iter_mut().for_each(|p| *p = f(*p));
            }
            // the same through points all over the place
            "needle" => {
                let e = 4 * n;
                c.outer.extend([(-e, -e), (2 * e, -e - 1), (2 * e, 2 * e), (-e - 1, 2 * e)]);
                c.holes.push(vec![(0, 0), (e, e - 1), (e, e)]);
                for t in 0..n {
                    let (x, d) = ((mix(t, 5, 21) % (e as u64 - 2)) as i64 + 1, (mix(t, 6, 22) % 97) as i64 - 48);
                    if d != 0 && d != -1 {
                        c.steiner.push((x, x + d));
                    }
                }
                c.steiner.sort();
                c.steiner.dedup();
            }
            // an edge above a dome of front nodes
            "dome_right" | "dome_left" | "dome_wide" => {
                let w = if s == "dome_wide" { 2 * n } else { 1 };
                let h = n * n / 4;
                let f = |p: P| if s == "dome_left" { (-p.0, p.1) } else { p };
                c.outer.extend([(-w * (n + 5), -20), (w * (2 * n + 5), -19), (w * (n + 1), h + 200), (-w, h + 100)].map(f));
                for i in 1..n {
                    c.steiner.push(f((w * i, i * (n - i))));
                }
            }
            // a wide bowl below an edge, its bottom flat and slightly convex
            "bowl" => {
                let k = n - 2;
                c.outer.push((-5, 3 * k));
                for i in 0..k {
                    c.outer.push((7 * i, (i - k / 2) * (i - k / 2) / 2 - 4 * k * k));
                }
                c.outer.push((7 * k + 5, 3 * k + 1));
            }
            // one long edge over n teeth, none of them on the polyline
            "saw_edge" => {
                c.outer.extend([(-10, -3000), (4 * n, -3001), (4 * n - 1, 2000 + n), (-11, 2000)]);
                for i in 0..n - 2 {
                    c.steiner.push((4 * i, i + if i % 2 == 0 { 0 } else { 900 + j(i, 20, 300) }));
                }
            }
            // all the points in a quarter circle around the first one
            "half_fan" => {
                c.outer.push((0, 0));
                for i in 1..n {
                    let a = i as f64 / n as f64 * 1.5 + 0.03;
                    let r = 1.0e11 + (i % 3) as f64 * 1.0e9;
                    c.outer.push(((r * a.cos()) as i64, (r * a.sin()) as i64));
                }
            }
            _ => unreachable!(),
        }
        true
    }
    fn label(&self, i: u64) -> Option<String> {
        Some(format!("shape {} of size {}", self.shapes[i as usize % self.shapes.len()], self.sizes[i as usize / self.shapes.len()]))
    }
}

/// Structured inputs with points added outside of the domain: in the notches of the polylines, in
/// the holes, and around everything.
pub struct LitteredGen(pub LargeGen);

impl Gen for LitteredGen {
    fn name(&self) -> String {
        format!("{}, with points in the notches, in the holes and around", self.0.name())
    }
    fn len(&self) -> u64 {
        self.0.len()
    }
    fn get(&self, i: u64, c: &mut Case) -> bool {
        if !self.0.get(i, c) {
            return false;
        }
        let mut seen: std::collections::HashSet<P> = c.all_points().into_iter().collect();
        let mut candidates = vec![];
        for ring in std::iter::once(&c.outer).chain(&c.holes) {
            let n = ring.len();
            for k in 0..n {
                let (a, b, d) = (ring[k], ring[(k + 1) % n], ring[(k + 2) % n]);
                candidates.push(((a.0 + d.0) >> 1, (a.1 + d.1) >> 1));
                candidates.push(((a.0 + b.0 + d.0).div_euclid(3), (a.1 + b.1 + d.1).div_euclid(3)));
            }
        }
        let x = |f: fn(i64, i64) -> i64| c.outer.iter().map(|p| p.0).reduce(f).unwrap();
        let y = |f: fn(i64, i64) -> i64| c.outer.iter().map(|p| p.1).reduce(f).unwrap();
        let (x0, x1, y0, y1) = (x(i64::min), x(i64::max), y(i64::min), y(i64::max));
        let (mx, my) = ((x0 + x1) >> 1, (y0 + y1) >> 1);
        candidates.extend([(x0 - 1, y0), (x1 + 1, y0), (x0, y1 + 1), (x1, y0 - 1), (mx, y1 + 7), (mx, y0 - 7), (x0 - 7, my), (x1 + 7, my), (x0 - 1, y1)]);
        for p in candidates {
            if exact(p) && c.side(p) == Side::Out && seen.insert(p) {
                c.steiner.push(p);
            }
        }
        true
    }
    fn label(&self, i: u64) -> Option<String> {
        self.0.label(i).map(|l| format!("{l}, with points outside"))
    }
}

/// Structured inputs, moved and turned: in other directions, on the axes with zeros of both signs,
/// where neighbouring numbers are one apart, and as small and large as can be.
pub struct PlacedGen {
    pub base: Arc<dyn Gen>,
    pub places: &'static [&'static str],
}

#[cfg(not(feature = "f32"))]
pub const PLACES: &[&str] = &["zeros", "zeros below", "turn 90", "turn 180", "turn 270", "mirrored", "oblique", "far", "edge", "tiny", "huge"];
#[cfg(feature = "f32")]
pub const PLACES: &[&str] = &["zeros", "zeros below", "turn 90", "turn 180", "turn 270", "mirrored", "oblique", "far", "edge"];

impl Gen for PlacedGen {
    fn name(&self) -> String {
        format!("{}, {}", self.base.name(), self.places.join(", "))
    }
    fn len(&self) -> u64 {
        self.base.len() * self.places.len() as u64
    }
    fn get(&self, i: u64, c: &mut Case) -> bool {
        let k = self.places.len() as u64;
        if !self.base.get(i / k, c) {
            return false;
        }
        let all = c.all_points();
        // the value that most points have, and the range
        let modal = |f: fn(&P) -> i64| {
            let mut v: Vec<i64> = all.iter().map(f).collect();
            v.sort_unstable();
            let most = v.chunk_by(|a, b| a == b).max_by_key(|c| c.len()).unwrap()[0];
            (most, v[0], *v.last().unwrap())
        };
        let ((mx, x0, x1), (my, y0, y1)) = (modal(|p| p.0), modal(|p| p.1));
        let bits = 64 - [x0, x1, y0, y1].iter().map(|v| v.unsigned_abs().leading_zeros()).min().unwrap() as i32;
        let digits = crate::case::DIGITS;
        let (mut exp, edge) = (0, 1i64 << (digits - 1));
        let wide = (x1 - x0).max(y1 - y0) >= edge;
        let f: Box<dyn Fn(P) -> P> = match self.places[(i % k) as usize] {
            "zeros" => {
                exp = crate::case::MIXED_ZEROS;
                Box::new(move |p| (p.0 - mx, p.1 - my))
            }
            // everything else is negative
            "zeros below" => {
                exp = crate::case::MIXED_ZEROS;
                Box::new(move |p| (p.0 - x1, p.1 - y1))
            }
            "turn 90" => Box::new(|p| turn(1, p)),
            "turn 180" => Box::new(|p| turn(2, p)),
            "turn 270" => Box::new(|p| turn(3, p)),
            "mirrored" => Box::new(|p| (-p.0, p.1)),
            "oblique" => Box::new(|p| (3 * p.0 + p.1, 3 * p.1 - p.0)),
            "far" => Box::new(move |p| (p.0 - x0 + edge / 64, p.1 - y1 - edge / 256)),
            "edge" if !wide => Box::new(move |p| (p.0 - x0 + edge, p.1 - y1 - edge)),
            "tiny" => {
                exp = -210;
                Box::new(|p| p)
            }
            "huge" if bits < 60 => {
                exp = 240 - bits;
                Box::new(|p| p)
            }
            _ => return false,
        };
        if !all.iter().all(|p| exact(f(*p))) {
            return false;
        }
        c.exp = exp;
        for p in c.outer.iter_mut().chain(c.holes.iter_mut().flatten()).chain(&mut c.steiner) {
            *p = f(*p);
        }
        true
    }
    fn label(&self, i: u64) -> Option<String> {
        let k = self.places.len() as u64;
        self.base.label(i / k).map(|l| format!("{l}, {}", self.places[(i % k) as usize]))
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn large_shapes_are_valid() {
        let g = LargeGen { sizes: vec![12, 50, 200, 1001], shapes: SHAPES.to_vec() };
        let mut c = Case::default();
        let mut bad = vec![];
        for i in 0..g.len() {
            assert!(g.get(i, &mut c));
            if !c.valid() {
                bad.push(g.label(i).unwrap());
            }
        }
        assert!(bad.is_empty(), "{bad:?}");
        let g = LitteredGen(LargeGen { sizes: vec![12, 50, 200], shapes: SHAPES.to_vec() });
        for i in 0..g.len() {
            assert!(g.get(i, &mut c) && c.valid() && c.steiner.iter().any(|p| c.side(*p) == Side::Out), "{:?}", g.label(i));
        }
    }
}
