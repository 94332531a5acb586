//! Exact integer geometry. Nothing in here depends on the crate under test or on `robust`.

/// A point with integer coordinates; the coordinate handed to the crate is `v * 2^exp`.
pub type P = (i64, i64);

pub fn orient(a: P, b: P, c: P) -> i32 {
    let d = (a.0 as i128 - c.0 as i128) * (b.1 as i128 - c.1 as i128)
        - (a.1 as i128 - c.1 as i128) * (b.0 as i128 - c.0 as i128);
    d.signum() as i32
}

/// 256 bit two's complement integer: hi * 2^128 + lo
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct W {
    hi: i128,
    lo: u128,
}

impl W {
    fn mul(a: i128, b: i128) -> W {
        let neg = (a < 0) != (b < 0);
        let (x, y) = (a.unsigned_abs(), b.unsigned_abs());
        const M: u128 = (1u128 << 64) - 1;
        let (x1, x0, y1, y0) = (x >> 64, x & M, y >> 64, y & M);
        let ll = x0 * y0;
        let lh = x0 * y1;
        let hl = x1 * y0;
        let hh = x1 * y1;
        let mid = (ll >> 64) + (lh & M) + (hl & M);
        let lo = (ll & M) | (mid << 64);
        let hi = hh + (lh >> 64) + (hl >> 64) + (mid >> 64);
        let r = W { hi: hi as i128, lo };
        if neg {
            r.neg()
        } else {
            r
        }
    }
    fn neg(self) -> W {
        let lo = (!self.lo).wrapping_add(1);
        let hi = (!self.hi).wrapping_add(if lo == 0 { 1 } else { 0 });
        W { hi, lo }
    }
    fn add(self, o: W) -> W {
        let (lo, c) = self.lo.overflowing_add(o.lo);
        W {
            hi: self.hi.wrapping_add(o.hi).wrapping_add(c as i128),
            lo,
        }
    }
    fn sign(self) -> i32 {
        if self.hi < 0 {
            -1
        } else if self.hi == 0 && self.lo == 0 {
            0
        } else {
            1
        }
    }
}

/// Sign of the in-circle determinant: > 0 iff `d` is strictly inside the circle through the
/// counter-clockwise triangle `a b c`. Exact for |coordinate| < 2^60.
pub fn incircle(a: P, b: P, c: P, d: P) -> i32 {
    let ax = a.0 as i128 - d.0 as i128;
    let ay = a.1 as i128 - d.1 as i128;
    let bx = b.0 as i128 - d.0 as i128;
    let by = b.1 as i128 - d.1 as i128;
    let cx = c.0 as i128 - d.0 as i128;
    let cy = c.1 as i128 - d.1 as i128;
    let la = ax * ax + ay * ay;
    let lb = bx * bx + by * by;
    let lc = cx * cx + cy * cy;
    let ma = bx * cy - cx * by;
    let mb = cx * ay - ax * cy;
    let mc = ax * by - bx * ay;
    let m = [ax, ay, bx, by, cx, cy]
        .iter()
        .map(|v| v.unsigned_abs())
        .max()
        .unwrap();
    if m < 1 << 30 {
        return (la * ma + lb * mb + lc * mc).signum() as i32;
    }
    W::mul(la, ma)
        .add(W::mul(lb, mb))
        .add(W::mul(lc, mc))
        .sign()
}

/// `p` lies on the closed segment `a b`
pub fn on_segment(a: P, b: P, p: P) -> bool {
    orient(a, b, p) == 0
        && p.0 >= a.0.min(b.0)
        && p.0 <= a.0.max(b.0)
        && p.1 >= a.1.min(b.1)
        && p.1 <= a.1.max(b.1)
}

/// closed segments `a b` and `c d` have a common point
pub fn segments_touch(a: P, b: P, c: P, d: P) -> bool {
    let o1 = orient(a, b, c);
    let o2 = orient(a, b, d);
    let o3 = orient(c, d, a);
    let o4 = orient(c, d, b);
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Side {
    In,
    On,
    Out,
}

pub fn point_in_polygon(poly: &[P], p: P) -> Side {
    let n = poly.len();
    let mut inside = false;
    for i in 0..n {
        let a = poly[i];
        let b = poly[(i + 1) % n];
        if on_segment(a, b, p) {
            return Side::On;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            // crossing of the horizontal ray to +x
            let o = orient(a, b, p);
            if (b.1 > a.1 && o > 0) || (b.1 < a.1 && o < 0) {
                inside = !inside;
            }
        }
    }
    if inside {
        Side::In
    } else {
        Side::Out
    }
}

/// twice the signed area
pub fn area2(poly: &[P]) -> i128 {
    let n = poly.len();
    let mut s = 0i128;
    for i in 0..n {
        let a = poly[i];
        let b = poly[(i + 1) % n];
        s += a.0 as i128 * b.1 as i128 - b.0 as i128 * a.1 as i128;
    }
    s
}

/// Every pair of edges meets only where consecutive edges share their vertex.
pub fn is_simple(poly: &[P]) -> bool {
    let n = poly.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if a == b {
            return false;
        }
        // spike: next edge runs back over this one
        let c = poly[(i + 2) % n];
        if on_segment(a, b, c) || on_segment(b, c, a) {
            return false;
        }
        for j in i + 2..n {
            if i == 0 && j == n - 1 {
                continue;
            }
            if segments_touch(a, b, poly[j], poly[(j + 1) % n]) {
                return false;
            }
        }
    }
    true
}

pub fn boundaries_disjoint(a: &[P], b: &[P]) -> bool {
    for i in 0..a.len() {
        for j in 0..b.len() {
            if segments_touch(
                a[i],
                a[(i + 1) % a.len()],
                b[j],
                b[(j + 1) % b.len()],
            ) {
                return false;
            }
        }
    }
    true
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn wide() {
        let mut s = 12345u64;
        let mut r = || {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            ((s >> 33) as i64 % 1000) - 500
        };
        for _ in 0..100000 {
            let p: Vec<P> = (0..4).map(|_| (r(), r())).collect();
            let small = incircle(p[0], p[1], p[2], p[3]);
            let q: Vec<P> = p.iter().map(|v| (v.0 << 45, v.1 << 45)).collect();
            assert_eq!(small, incircle(q[0], q[1], q[2], q[3]));
        }
        assert_eq!(incircle((0, 0), (2, 0), (0, 2), (1, 1)), 1);
        assert_eq!(incircle((0, 0), (2, 0), (0, 2), (2, 2)), 0);
        assert_eq!(incircle((0, 0), (2, 0), (0, 2), (3, 2)), -1);
    }
}
