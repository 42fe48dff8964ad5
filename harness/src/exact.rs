//! Exact geometry on f64 inputs: every sign is computed exactly (float filter, then big integers).
use num::bigint::BigInt;
use num::{Signed, Zero};

pub type P = (f64, f64);

fn decode(x: f64) -> (i64, i32) {
    if x == 0.0 {
        return (0, 0);
    }
    let bits = x.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = (bits & ((1 << 52) - 1)) as i64;
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
    let tz = m.trailing_zeros() as i32;
    let m = m >> tz;
    (if x < 0.0 { -m } else { m }, e + tz)
}
/// scale all values to integers by a common power of two; returns the exponent
pub fn to_ints(v: &[f64]) -> (Vec<BigInt>, i32) {
    let d: Vec<(i64, i32)> = v.iter().map(|&x| decode(x)).collect();
    let e = d.iter().filter(|x| x.0 != 0).map(|x| x.1).min().unwrap_or(0);
    (
        d.into_iter()
            .map(|(m, ex)| if m == 0 { BigInt::zero() } else { BigInt::from(m) << (ex - e) as usize })
            .collect(),
        e,
    )
}
fn sgn(b: &BigInt) -> i32 {
    if b.is_zero() {
        0
    } else if b.is_positive() {
        1
    } else {
        -1
    }
}
pub fn orient(a: P, b: P, c: P) -> i32 {
    let l = (a.0 - c.0) * (b.1 - c.1);
    let r = (a.1 - c.1) * (b.0 - c.0);
    let det = l - r;
    let bound = 4.0e-16 * (l.abs() + r.abs());
    if det.abs() > bound {
        return if det > 0.0 { 1 } else { -1 };
    }
    let (v, _) = to_ints(&[a.0, a.1, b.0, b.1, c.0, c.1]);
    sgn(&((&v[0] - &v[4]) * (&v[3] - &v[5]) - (&v[1] - &v[5]) * (&v[2] - &v[4])))
}
/// >0 when d is strictly inside the circle through the counterclockwise triangle abc
pub fn incircle(a: P, b: P, c: P, d: P) -> i32 {
    let (v, _) = to_ints(&[a.0, a.1, b.0, b.1, c.0, c.1, d.0, d.1]);
    let ax = &v[0] - &v[6];
    let ay = &v[1] - &v[7];
    let bx = &v[2] - &v[6];
    let by = &v[3] - &v[7];
    let cx = &v[4] - &v[6];
    let cy = &v[5] - &v[7];
    let aa = &ax * &ax + &ay * &ay;
    let bb = &bx * &bx + &by * &by;
    let cc = &cx * &cx + &cy * &cy;
    sgn(&(aa * (&bx * &cy - &by * &cx) - bb * (&ax * &cy - &ay * &cx) + cc * (&ax * &by - &ay * &bx)))
}
/// 2 * signed area of a closed polygon as (integer, exponent of two): area2 * 2^exp
pub fn area2_common(polys: &[Vec<P>]) -> (Vec<BigInt>, i32) {
    let mut all = vec![];
    for p in polys {
        for q in p {
            all.push(q.0);
            all.push(q.1);
        }
    }
    let (v, e) = to_ints(&all);
    let mut out = vec![];
    let mut k = 0;
    for p in polys {
        let n = p.len();
        let mut s = BigInt::zero();
        for i in 0..n {
            let j = (i + 1) % n;
            s += &v[k + 2 * i] * &v[k + 2 * j + 1] - &v[k + 2 * j] * &v[k + 2 * i + 1];
        }
        out.push(s);
        k += 2 * n;
    }
    (out, 2 * e)
}
/// is p on the closed segment ab
pub fn on_segment(a: P, b: P, p: P) -> bool {
    orient(a, b, p) == 0
        && p.0 >= a.0.min(b.0)
        && p.0 <= a.0.max(b.0)
        && p.1 >= a.1.min(b.1)
        && p.1 <= a.1.max(b.1)
}
/// 1 inside, 0 on the boundary, -1 outside (simple polygon, any orientation)
pub fn in_polygon(poly: &[P], p: P) -> i32 {
    let n = poly.len();
    let mut inside = false;
    for i in 0..n {
        let a = poly[i];
        let b = poly[(i + 1) % n];
        if on_segment(a, b, p) {
            return 0;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            let o = orient(a, b, p);
            if (b.1 > a.1 && o > 0) || (b.1 < a.1 && o < 0) {
                inside = !inside;
            }
        }
    }
    if inside {
        1
    } else {
        -1
    }
}
/// closed segments share at least one point
pub fn segs_touch(a: P, b: P, c: P, d: P) -> bool {
    let o1 = orient(a, b, c);
    let o2 = orient(a, b, d);
    let o3 = orient(c, d, a);
    let o4 = orient(c, d, b);
    if o1 != o2 && o3 != o4 && o1 * o2 <= 0 && o3 * o4 <= 0 && !(o1 == 0 && o2 == 0) {
        // proper or touching at an end point of general position
        if o1 * o2 < 0 && o3 * o4 < 0 {
            return true;
        }
    }
    on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b)
}
/// open interiors cross at one point
pub fn segs_cross_properly(a: P, b: P, c: P, d: P) -> bool {
    orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0
}
pub fn simple_polygon(poly: &[P]) -> bool {
    let n = poly.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        for j in i + 1..n {
            let (a, b) = (poly[i], poly[(i + 1) % n]);
            let (c, d) = (poly[j], poly[(j + 1) % n]);
            if j == i + 1 || (i == 0 && j == n - 1) {
                // adjacent edges: share one end point only
                let (sh, x, y) = if j == i + 1 { (b, a, d) } else { (a, b, c) };
                if sh == x || sh == y || x == y {
                    return false;
                }
                if on_segment(sh, x, y) || on_segment(sh, y, x) {
                    return false;
                }
            } else if segs_touch(a, b, c, d) {
                return false;
            }
        }
    }
    true
}

// ---- approximate magnitudes of exact values --------------------------------------------------
fn approx(b: &BigInt, exp: i32) -> f64 {
    use num::ToPrimitive;
    let bits = b.bits() as i32;
    let (m, sh) = if bits > 60 { (b >> (bits - 60) as usize, bits - 60) } else { (b.clone(), 0) };
    m.to_f64().unwrap_or(0.0) * 2f64.powi((exp + sh).clamp(-1000, 1000))
}
/// twice the signed area of abc, computed exactly and rounded once
pub fn orient_val(a: P, b: P, c: P) -> f64 {
    let (v, e) = to_ints(&[a.0, a.1, b.0, b.1, c.0, c.1]);
    approx(&((&v[0] - &v[4]) * (&v[3] - &v[5]) - (&v[1] - &v[5]) * (&v[2] - &v[4])), 2 * e)
}
/// the incircle determinant (d's offset from the circle times twice the area), rounded once
pub fn incircle_val(a: P, b: P, c: P, d: P) -> f64 {
    let (v, e) = to_ints(&[a.0, a.1, b.0, b.1, c.0, c.1, d.0, d.1]);
    let r = |i: usize| (&v[2 * i] - &v[6], &v[2 * i + 1] - &v[7]);
    let (a, b, c) = (r(0), r(1), r(2));
    let sq = |p: &(BigInt, BigInt)| &p.0 * &p.0 + &p.1 * &p.1;
    let det = sq(&a) * (&b.0 * &c.1 - &b.1 * &c.0) - sq(&b) * (&a.0 * &c.1 - &a.1 * &c.0)
        + sq(&c) * (&a.0 * &b.1 - &a.1 * &b.0);
    approx(&det, 4 * e)
}
/// (b-a).(d-c), rounded once
pub fn dot_val(a: P, b: P, c: P, d: P) -> f64 {
    let (v, e) = to_ints(&[a.0, a.1, b.0, b.1, c.0, c.1, d.0, d.1]);
    approx(&((&v[2] - &v[0]) * (&v[6] - &v[4]) + (&v[3] - &v[1]) * (&v[7] - &v[5])), 2 * e)
}
/// the crossing point of the lines ab and cd, each coordinate rounded once; None when parallel
pub fn line_crossing(a: P, b: P, c: P, d: P) -> Option<P> {
    use num::{BigRational, ToPrimitive};
    let (v, e) = to_ints(&[a.0, a.1, b.0, b.1, c.0, c.1, d.0, d.1]);
    let den = (&v[2] - &v[0]) * (&v[7] - &v[5]) - (&v[3] - &v[1]) * (&v[6] - &v[4]);
    if den.is_zero() {
        return None;
    }
    let t = (&v[4] - &v[0]) * (&v[7] - &v[5]) - (&v[5] - &v[1]) * (&v[6] - &v[4]);
    let out = |p: &BigInt, q: &BigInt| {
        let r = BigRational::new(p * &den + &t * (q - p), den.clone());
        r.to_f64().unwrap_or(f64::NAN) * 2f64.powi(e)
    };
    Some((out(&v[0], &v[2]), out(&v[1], &v[3])))
}
