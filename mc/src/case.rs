//! One input of the library: an outer polyline, holes, steiner points; exact integer coordinates
//! scaled by a power of two.
use crate::geom::*;
use poly2tri_rs::{Builder, Float, Point};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub outer: Vec<P>,
    pub holes: Vec<Vec<P>>,
    pub steiner: Vec<P>,
    /// the coordinate handed to the library is `v * 2^exp`
    pub exp: i32,
}

/// binary digits of a coordinate
pub const DIGITS: u32 = Float::MANTISSA_DIGITS;

/// added to `exp`: a zero coordinate is negative zero if the other coordinate of its point has an odd
/// number of binary ones
pub const MIXED_ZEROS: i32 = 1 << 20;

/// v * 2^exp, which must be exact in the coordinate type of the build
pub fn to_float(v: i64, exp: i32) -> Float {
    let exp = if exp > MIXED_ZEROS / 2 { exp - MIXED_ZEROS } else { exp };
    let f = (v as f64) * (2f64).powi(exp);
    let r = f as Float;
    debug_assert!(v as f64 as i64 == v && r as f64 == f, "inexact coordinate");
    r
}

/// whether the coordinate type of the build can represent it
pub fn exact(p: P) -> bool {
    [p.0, p.1].iter().all(|v| *v as f64 as i64 == *v && (*v as f64 as Float) as f64 == *v as f64)
}

pub fn pt(p: P, exp: i32) -> Point {
    let f = |v: i64, o: i64| if v == 0 && o.unsigned_abs().count_ones() % 2 != 0 && exp > MIXED_ZEROS / 2 { -0.0 } else { to_float(v, exp) };
    Point::new(f(p.0, p.1), f(p.1, p.0))
}

pub fn pts(ps: &[P], exp: i32) -> Vec<Point> {
    ps.iter().map(|p| pt(*p, exp)).collect()
}

impl Case {
    pub fn clear(&mut self) {
        self.outer.clear();
        self.holes.clear();
        self.steiner.clear();
        self.exp = 0;
    }
    pub fn n(&self) -> usize {
        self.outer.len() + self.steiner.len() + self.holes.iter().map(|h| h.len()).sum::<usize>()
    }
    /// all points in id order: outer, holes, steiner
    pub fn all_points(&self) -> Vec<P> {
        let mut v = self.outer.clone();
        for h in &self.holes {
            v.extend_from_slice(h);
        }
        v.extend_from_slice(&self.steiner);
        v
    }
    pub fn builder(&self) -> Builder {
        let mut b = Builder::new(pts(&self.outer, self.exp));
        for h in &self.holes {
            b = b.add_hole(pts(h, self.exp));
        }
        if !self.steiner.is_empty() {
            b = b.add_steiner_points(pts(&self.steiner, self.exp));
        }
        b
    }
    /// A documented-valid input: simple outer polyline, simple pairwise disjoint holes strictly
    /// inside it, all points distinct, no steiner point on a polyline.
    pub fn valid(&self) -> bool {
        if !is_simple(&self.outer) {
            return false;
        }
        for (i, h) in self.holes.iter().enumerate() {
            if !is_simple(h) || !boundaries_disjoint(h, &self.outer) {
                return false;
            }
            if point_in_polygon(&self.outer, h[0]) != Side::In {
                return false;
            }
            for k in &self.holes[..i] {
                if !boundaries_disjoint(h, k)
                    || point_in_polygon(k, h[0]) != Side::Out
                    || point_in_polygon(h, k[0]) != Side::Out
                {
                    return false;
                }
            }
        }
        self.steiner_ok()
    }
    /// steiner points distinct and on no polyline
    pub fn steiner_ok(&self) -> bool {
        for (i, &s) in self.steiner.iter().enumerate() {
            if self.steiner[..i].contains(&s) || self.side(s) == Side::On {
                return false;
            }
        }
        true
    }
    /// In: in the domain; Out: outside of the outer polyline or in a hole
    pub fn side(&self, p: P) -> Side {
        match point_in_polygon(&self.outer, p) {
            Side::In => {}
            s => return s,
        }
        for h in &self.holes {
            match point_in_polygon(h, p) {
                Side::In => return Side::Out,
                Side::On => return Side::On,
                Side::Out => {}
            }
        }
        Side::In
    }
    pub fn describe(&self) -> String {
        let f = |v: &[P]| v.iter().map(|p| format!("({},{})", p.0, p.1)).collect::<Vec<_>>().join(" ");
        let mut s = format!("outer {}", f(&self.outer));
        for h in &self.holes {
            s += &format!(" hole {}", f(h));
        }
        if !self.steiner.is_empty() {
            s += &format!(" steiner {}", f(&self.steiner));
        }
        match self.exp {
            0 => {}
            MIXED_ZEROS => s += " (a zero beside a coordinate with an odd number of binary ones is -0.0)",
            e => s += &format!(" *2^{e}"),
        }
        if s.len() > 1500 {
            let cut: String = s.chars().take(1500).collect();
            s = format!("{cut}... ({} points)", self.n());
        }
        s
    }
    pub fn snippet(&self) -> String {
        if self.n() > 300 {
            return String::new();
        }
        let v = |ps: &[P]| {
            ps.iter()
                .map(|p| {
                    let p = pt(*p, self.exp);
                    format!("Point::new({:?}, {:?})", p.x, p.y)
                })
                .collect::<Vec<_>>()
                .join(", ")
        };
        let mut s = format!("let t = Builder::new(vec![{}])", v(&self.outer));
        for h in &self.holes {
            s += &format!(".add_hole(vec![{}])", v(h));
        }
        if !self.steiner.is_empty() {
            s += &format!(".add_steiner_points(vec![{}])", v(&self.steiner));
        }
        s + ".build().triangulate(); println!(\"{:?}\", t.triangle_list_indices());"
    }
}

/// A finite family of cases with random access.
pub trait Gen: Sync + Send {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    /// fills `c`; false: index `i` is not a member
    fn get(&self, i: u64, c: &mut Case) -> bool;
    /// how to call a member that is too large to print
    fn label(&self, _i: u64) -> Option<String> {
        None
    }
}
