//! The geometric primitives everything else is built from.
use crate::domain::{closed, edge, vx};
use crate::engine::*;
use crate::exact::*;
use nlsn_delaunay::elements::{bounding_box::*, edge::*, polyline::*, triangle::*, vertex::*};
use nlsn_delaunay::properties as pr;
use nlsn_delaunay::properties::continence::{BoundaryInclusion, Continence};
use nlsn_delaunay::properties::orientation::Orientation;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

/// points of a grid: raw * 2^pow + off
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Grid {
    pub pow: i32,
    pub off: (i32, i32),
    pub p: Vec<(i32, i32)>,
    /// everything times 2^shift
    #[serde(default)]
    pub shift: i32,
}
impl Grid {
    pub fn pts(&self) -> Vec<P> {
        let (s, u) = (2f64.powi(self.pow), 2f64.powi(self.shift));
        self.p.iter().map(|q| ((q.0 as f64 * s + self.off.0 as f64) * u, (q.1 as f64 * s + self.off.1 as f64) * u)).collect()
    }
}
/// the same at some other scale
pub fn scaled(s: impl Strategy<Value = Grid> + 'static) -> BoxedStrategy<Grid> {
    (s, prop_oneof![4 => -24..=-1i32, 1 => 1..=16i32]).prop_map(|(g, shift)| Grid { shift, ..g }).boxed()
}
/// n points: coarse grids (many degenerate configurations) to fine ones (near-degenerate)
pub fn grid(n: usize) -> BoxedStrategy<Grid> {
    grid_between(n, n)
}
pub fn grid_between(lo: usize, hi: usize) -> BoxedStrategy<Grid> {
    let arm = move |g: i32, a: i32, b: i32, off: i32| {
        (a..=b, (-off..=off, -off..=off), prop::collection::vec((0..=g, 0..=g), lo..=hi))
            .prop_map(|(pow, off, p)| Grid { pow, off, p, shift: 0 })
    };
    prop_oneof![
        2 => arm(3, -2, 2, 3),
        2 => arm(8, -3, 3, 10),
        2 => arm(64, -6, 2, 100),
        1 => arm(1000, -10, 0, 1000),
        // offset far from the origin
        1 => arm(64, -6, 0, 1 << 20),
    ]
    .boxed()
}
/// now and then at some other scale
pub fn any_scale(s: BoxedStrategy<Grid>) -> BoxedStrategy<Grid> {
    prop_oneof![4 => s.clone(), 1 => scaled(s)].boxed()
}
/// points of full 53-bit precision
fn float_pts(n: usize) -> BoxedStrategy<Vec<P>> {
    prop_oneof![
        prop::collection::vec((-1.0..1.0f64, -1.0..1.0f64), n),
        prop::collection::vec((-100.0..100.0f64, -100.0..100.0f64), n),
        prop::collection::vec((1.0e3..1.001e3f64, -1.0e3..-0.999e3f64), n),
    ]
    .boxed()
}
/// integer points of the circle of radius 65 around the origin
const CIRCLE: [(i32, i32); 9] =
    [(65, 0), (63, 16), (60, 25), (56, 33), (52, 39), (39, 52), (33, 56), (25, 60), (16, 63)];
fn on_circle() -> impl Strategy<Value = (i32, i32)> {
    (0usize..9, 0..4).prop_map(|(i, q)| {
        let (x, y) = CIRCLE[i];
        match q {
            0 => (x, y),
            1 => (-y, x),
            2 => (-x, -y),
            _ => (y, -x),
        }
    })
}
/// four points of a circle, the last one possibly moved by a grid step
fn cocircular() -> BoxedStrategy<Grid> {
    (-8..=0i32, (-40..=40i32, -40..=40i32), prop::collection::vec(on_circle(), 4), (-1..=1, -1..=1), prop::bool::ANY)
        .prop_map(|(pow, off, mut p, m, exact)| {
            if !exact {
                p[3] = (p[3].0 + m.0, p[3].1 + m.1);
            }
            Grid { pow, off, p, shift: 0 }
        })
        .boxed()
}
/// c = a + k (b - a) / 2, possibly moved by a grid step
fn collinear() -> BoxedStrategy<Grid> {
    (grid(2), -4..=6i32, (-1..=1, -1..=1), prop::bool::ANY)
        .prop_map(|(mut g, k, m, exact)| {
            let (a, b) = (g.p[0], (g.p[0].0 + 2 * (g.p[1].0 - g.p[0].0), g.p[0].1 + 2 * (g.p[1].1 - g.p[0].1)));
            let mut c = (a.0 + k * (b.0 - a.0) / 2, a.1 + k * (b.1 - a.1) / 2);
            if !exact {
                c = (c.0 + m.0, c.1 + m.1);
            }
            g.p = vec![a, b, c];
            g
        })
        .boxed()
}
/// a, b and a point seeing ab at a right angle, possibly moved by a grid step
fn right_angle() -> BoxedStrategy<Grid> {
    (grid(1), (-9..=9, -9..=9), -5..=5i32, -5..=5i32, (-1..=1, -1..=1), prop::bool::ANY)
        .prop_map(|(mut g, d, k, l, m, exact)| {
            let c = g.p[0];
            let a = (c.0 + k * d.0, c.1 + k * d.1);
            let b = (c.0 - l * d.1, c.1 + l * d.0);
            let c = if exact { c } else { (c.0 + m.0, c.1 + m.1) };
            g.p = vec![a, b, c];
            g
        })
        .boxed()
}

fn v(p: P) -> Vertex {
    Vertex::new(p.0, p.1)
}
fn near(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-9 * (scale.abs() + a.abs().max(b.abs())) || a == b
}
fn size(p: &[P]) -> f64 {
    p.iter().map(|q| q.0.abs().max(q.1.abs())).fold(0.0, f64::max)
}
fn span(p: &[P]) -> f64 {
    p.iter().map(|q| (q.0 - p[0].0).abs().max((q.1 - p[0].1).abs())).fold(0.0, f64::max)
}
/// the class the sign of a determinant of these points must give: None inside the tolerance
fn class(val: f64, p: &[P], degree: i32, noise: f64) -> Option<i32> {
    let slack = (3e-14 * size(p) * span(p).powi(degree - 1)).min(2e-14) + noise;
    if noise == 0.0 && val == 0.0 {
        Some(0)
    } else if val > slack {
        Some(1)
    } else if val < -slack {
        Some(-1)
    } else {
        None
    }
}
fn o2i(o: Orientation) -> i32 {
    match o {
        Orientation::Counterclockwise => 1,
        Orientation::Clockwise => -1,
        Orientation::Colinear => 0,
    }
}
fn c2i(c: Continence) -> i32 {
    match c {
        Continence::Inside => 1,
        Continence::Outside => -1,
        Continence::Boundary => 0,
    }
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

// ---- C01: predicates -------------------------------------------------------------------------
fn p_orient(p: &[P], noise: f64, o: &mut Obs) -> Res {
    let val = orient_val(p[0], p[1], p[2]);
    let Some(s) = class(val, p, 2, noise) else {
        o.discard = true;
        return Ok(());
    };
    o.nontrivial = p[0] != p[1] && p[1] != p[2] && p[0] != p[2];
    o.tag_if(s == 0, "zero determinant");
    let (a, b, c) = (v(p[0]), v(p[1]), v(p[2]));
    for (x, y, z, w) in [(&a, &b, &c, s), (&b, &c, &a, s), (&c, &a, &b, s), (&b, &a, &c, -s), (&a, &c, &b, -s)] {
        eq(&format!("orientation of {x} {y} {z}"), o2i(pr::orientation::orientation(x, y, z)), w)?;
    }
    // an outer triangle encircles what is counterclockwise of its solid edge
    let ghost = Rc::new(Vertex::new_ghost());
    let (ra, rb) = (vx(p[0]), vx(p[1]));
    eq(&format!("outer triangle on {a} {b} encircling {c}"), c2i(Triangle::new(&ra, &rb, &ghost).encircles(&c)), s)
}
/// turned points keep their orientation, collinear ones included
fn p_tilted(g: &Grid, t: u32, o: &mut Obs) -> Res {
    let p = g.pts();
    let s = orient(p[0], p[1], p[2]);
    o.nontrivial = p[0] != p[1] && p[1] != p[2] && p[0] != p[2];
    o.tag_if(s == 0, "zero determinant");
    let f = crate::domain::tilt(t);
    let q: Vec<Vertex> = p.iter().map(|p| v(f(*p))).collect();
    let (a, b, c) = (&q[0], &q[1], &q[2]);
    for (x, y, z, w) in [(a, b, c, s), (b, c, a, s), (c, a, b, s), (b, a, c, -s), (a, c, b, -s)] {
        eq(&format!("orientation of {x} {y} {z}"), o2i(pr::orientation::orientation(x, y, z)), w)?;
    }
    if s == 0 && a != b {
        let on = on_segment(p[0], p[1], p[2]);
        for (x, y) in [(a, b), (b, a)] {
            let e = edge(((x.x, x.y), (y.x, y.y)));
            eq(&format!("edge {x} {y} containing {c}"), e.contains(c), on)?;
        }
    }
    Ok(())
}
fn p_incircle(p: &[P], noise: f64, o: &mut Obs) -> Res {
    let s = orient(p[0], p[1], p[2]);
    if s == 0 {
        o.discard = true;
        return Ok(());
    }
    let (a, b) = if s > 0 { (p[0], p[1]) } else { (p[1], p[0]) };
    let (c, d) = (p[2], p[3]);
    let Some(w) = class(incircle_val(a, b, c, d), p, 4, noise) else {
        o.discard = true;
        return Ok(());
    };
    o.nontrivial = d != a && d != b && d != c;
    o.tag_if(w == 0, "zero determinant");
    let (va, vb, vc, vd) = (vx(a), vx(b), vx(c), vx(d));
    for (x, y, z) in [(&va, &vb, &vc), (&vb, &vc, &va), (&vc, &va, &vb)] {
        eq(&format!("circle of {x} {y} {z} containing {vd}"), c2i(pr::continence::continence(x, y, z, &vd)), w)?;
        eq(&format!("triangle {x} {y} {z} encircling {vd}"), c2i(Triangle::new(x, y, z).encircles(&vd)), w)?;
    }
    Ok(())
}
fn p_encroach(p: &[P], noise: f64, o: &mut Obs) -> Res {
    let (a, b, c) = (p[0], p[1], p[2]);
    let Some(s) = class(dot_val(a, c, b, c), p, 2, noise) else {
        o.discard = true;
        return Ok(());
    };
    o.nontrivial = c != a && c != b;
    o.tag_if(s == 0, "zero determinant");
    for (x, y) in [(a, b), (b, a)] {
        eq(&format!("{c:?} in the diametral circle of {x:?} {y:?}"), c2i(pr::encroachment::encroach(&v(x), &v(y), &v(c))), -s)?;
        eq(&format!("edge {x:?} {y:?} encroached by {c:?}"), c2i(edge((x, y)).encroach(&v(c))), -s)?;
    }
    Ok(())
}
fn noise(p: &[P], degree: i32) -> f64 {
    1e-13 * span(p).powi(degree) + 4e-15 * size(p) * span(p).powi(degree - 1)
}

pub fn predicates() -> Property {
    Property {
        id: "C01",
        rule: "the points asked about are distinct from the points they are compared with",
        assumptions: &[
            "dyadic coordinates, whose determinants are exact in double precision: the answer must be exact; values that are not zero but below 2e-14, or 3e-14 of the largest coordinate times the extents (about twice the tolerance), are left out",
            "full-precision coordinates: the determinant must exceed the rounding error of a straightforward evaluation",
        ],
        subs: vec![
            Sub::new("orientation", 240000, 6000000, || prop_oneof![1 => grid(3), 2 => collinear()].boxed(), |g: &Grid, _, o| p_orient(&g.pts(), 0.0, o)).light().boxed(),
            Sub::new("orientation-tilted", 160000, 4000000, || (prop_oneof![1 => grid(3), 3 => collinear()], crate::domain::s_tilt()).boxed(), |c: &(Grid, u32), _, o| p_tilted(&c.0, c.1, o)).light().boxed(),
            Sub::new("orientation-scaled", 120000, 3000000, || scaled(prop_oneof![1 => grid(3), 2 => collinear()]), |g: &Grid, _, o| p_orient(&g.pts(), 0.0, o)).light().boxed(),
            Sub::new("orientation-float", 80000, 2000000, || float_pts(3), |p: &Vec<P>, _, o| p_orient(p, noise(p, 2), o)).light().boxed(),
            Sub::new("incircle", 240000, 6000000, || prop_oneof![2 => grid(4), 3 => cocircular()].boxed(), |g: &Grid, _, o| p_incircle(&g.pts(), 0.0, o)).light().boxed(),
            Sub::new("incircle-scaled", 120000, 3000000, || scaled(prop_oneof![2 => grid(4), 3 => cocircular()]), |g: &Grid, _, o| p_incircle(&g.pts(), 0.0, o)).light().boxed(),
            Sub::new("incircle-float", 80000, 2000000, || float_pts(4), |p: &Vec<P>, _, o| p_incircle(p, noise(p, 4), o)).light().boxed(),
            Sub::new("encroach", 240000, 6000000, || prop_oneof![1 => grid(3), 2 => right_angle()].boxed(), |g: &Grid, _, o| p_encroach(&g.pts(), 0.0, o)).light().boxed(),
            Sub::new("encroach-scaled", 120000, 3000000, || scaled(prop_oneof![1 => grid(3), 2 => right_angle()]), |g: &Grid, _, o| p_encroach(&g.pts(), 0.0, o)).light().boxed(),
            Sub::new("encroach-float", 80000, 2000000, || float_pts(3), |p: &Vec<P>, _, o| p_encroach(p, noise(p, 2), o)).light().boxed(),
        ],
    }
}

// ---- C02: measures ---------------------------------------------------------------------------
fn dist(a: P, b: P) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}
fn ck(what: &str, got: f64, want: f64, scale: f64) -> Res {
    if near(got, want, scale) {
        Ok(())
    } else {
        Err(format!("{what}: got {got}, expected {want}"))
    }
}
fn m_triangle(p: &[P], o: &mut Obs) -> Res {
    let (a, b, c) = (p[0], p[1], p[2]);
    let det = orient_val(a, b, c);
    let l = span(p);
    o.nontrivial = det.abs() > 1e-6 * l * l;
    let (va, vb, vc) = (vx(a), vx(b), vx(c));
    let t = Triangle::new(&va, &vb, &vc);
    let what = format!("{a:?} {b:?} {c:?}");
    ck(&format!("area of {what}"), pr::area::area_triangle(&va, &vb, &vc), det / 2.0, 1e-6 * l * l)?;
    ck(&format!("Triangle::area of {what}"), t.area().ok_or("no area")?, det / 2.0, 1e-6 * l * l)?;
    let ctr = t.center();
    ck("center x", ctr.x, (a.0 + b.0 + c.0) / 3.0, l)?;
    ck("center y", ctr.y, (a.1 + b.1 + c.1) / 3.0, l)?;
    if det == 0.0 {
        o.tag("collinear");
        if pr::circumcenter::circumcenter(&va, &vb, &vc).is_some() {
            return Err(format!("collinear {what} has a circumcenter"));
        }
        return Ok(());
    }
    if det.abs() < 1e-4 * l * l {
        return Ok(());
    }
    for cc in [pr::circumcenter::circumcenter(&va, &vb, &vc), t.circumcenter()] {
        let cc = cc.ok_or(format!("{what} has no circumcenter"))?;
        let q = (cc.x, cc.y);
        let r = dist(q, a);
        ck(&format!("circumcenter {q:?} of {what}: distances to 1 and 2"), r, dist(q, b), 10.0 * l)?;
        ck(&format!("circumcenter {q:?} of {what}: distances to 1 and 3"), r, dist(q, c), 10.0 * l)?;
        if det > 0.0 {
            let lmin = dist(a, b).min(dist(b, c)).min(dist(c, a));
            ck(&format!("quality of {what}"), t.quality().ok_or("no quality")?, r / lmin, r / lmin)?;
        }
    }
    let ghost = Rc::new(Vertex::new_ghost());
    for t in [Triangle::new(&va, &vb, &ghost), Triangle::new(&ghost, &va, &vb), Triangle::new(&vb, &ghost, &va)] {
        if !t.is_ghost() || t.area().is_some() || t.circumcenter().is_some() || t.quality().is_some() || t.as_polyline().is_some() {
            return Err("a triangle with a ghost vertex has measures".into());
        }
    }
    let t2 = Triangle::new(&va, &vb, &ghost).center();
    ck("center x of an outer triangle", t2.x, (a.0 + b.0) / 2.0, l)?;
    ck("center y of an outer triangle", t2.y, (a.1 + b.1) / 2.0, l)
}
fn m_pair(p: &[P], o: &mut Obs) -> Res {
    let (a, b, c, d) = (p[0], p[1], p[2], p[3]);
    let (va, vb, vc, vd) = (vx(a), vx(b), vx(c), vx(d));
    let l = span(p);
    o.nontrivial = a != b && c != d;
    ck("distance", pr::distance::distance(&va, &vb), dist(a, b), 0.0)?;
    ck("distance is symmetric", pr::distance::distance(&vb, &va), dist(a, b), 0.0)?;
    ck("length", edge((a, b)).length(), dist(a, b), 0.0)?;
    for m in [pr::midpoint::midpoint(&va, &vb), edge((a, b)).midpoint()] {
        ck("midpoint x", m.x, (a.0 + b.0) / 2.0, 1e-3 * l)?;
        ck("midpoint y", m.y, (a.1 + b.1) / 2.0, 1e-3 * l)?;
    }
    let g = Vertex::new_ghost();
    if !pr::midpoint::midpoint(&va, &g).is_ghost || !pr::midpoint::midpoint(&g, &va).is_ghost {
        return Err("midpoint with the ghost vertex is not the ghost vertex".into());
    }
    ck("dot", pr::dot::dot(&va, &vb, &vc, &vd), dot_val(a, b, c, d), 1e-3 * l * l)?;
    // the grid makes this determinant exact
    let cross = orient_val((0.0, 0.0), (b.0 - a.0, b.1 - a.1), (d.0 - c.0, d.1 - c.1));
    o.tag_if(cross == 0.0, "parallel");
    eq(&format!("parallel {a:?}{b:?} {c:?}{d:?}"), pr::parallel::parallel(&va, &vb, &vc, &vd), cross == 0.0)
}
/// a straight or folded angle, evaluated in floating point
fn straight_floats() -> BoxedStrategy<Vec<P>> {
    ((-10.0..10.0f64, -10.0..10.0f64), (-1.0..1.0f64, -1.0..1.0f64), prop::collection::vec(-2.0..2.0f64, 2), prop_oneof![Just(1.0), Just(100.0), Just(1e-3)])
        .prop_map(|(b, u, t, k)| {
            let at = |t: f64| (b.0 + k * t * u.0, b.1 + k * t * u.1);
            vec![at(t[0]), b, at(t[1])]
        })
        .boxed()
}
fn m_angle(p: &[P], noise: f64, o: &mut Obs) -> Res {
    let (a, b, c) = (p[0], p[1], p[2]);
    if a == b || b == c {
        o.discard = true;
        return Ok(());
    }
    // the tolerance of the orientation decides between an angle and its reflex
    let either = class(orient_val(a, b, c), p, 2, noise).is_none();
    o.tag_if(either, "turned by rounding only");
    o.nontrivial = true;
    let (u, w) = ((a.0 - b.0, a.1 - b.1), (c.0 - b.0, c.1 - b.1));
    let th = (u.0 * w.1 - u.1 * w.0).abs().atan2(u.0 * w.0 + u.1 * w.1);
    // a, b, c counterclockwise turn: the angle is on the left of a -> b -> c
    let want = if orient(a, b, c) < 0 { 2.0 * std::f64::consts::PI - th } else { th };
    o.tag_if(want > std::f64::consts::PI, "reflex");
    o.tag_if(orient(a, b, c) == 0, "straight or folded");
    let got = pr::angle::angle(&v(a), &v(b), &v(c)).ok_or("no angle")?;
    // acos loses half of the digits close to 0 and 180 degrees
    if !((got - want).abs() <= 1e-6 || either && (got + want - 2.0 * std::f64::consts::PI).abs() <= 1e-6) {
        return Err(format!("angle {a:?} {b:?} {c:?}: got {got}, expected {want}"));
    }
    Ok(())
}
fn m_polygon(p: &[P], o: &mut Obs) -> Res {
    let n = p.len();
    let vs: Vec<Rc<Vertex>> = p.iter().map(|q| vx(*q)).collect();
    let pairs: Vec<_> = (0..n).map(|i| (vs[i].clone(), vs[(i + 1) % n].clone())).collect();
    let (a, e) = area2_common(&[p.to_vec()]);
    use num::{Signed, ToPrimitive, Zero};
    let want = a[0].to_f64().unwrap() * 2f64.powi(e) / 2.0;
    o.nontrivial = !a[0].is_zero();
    ck("area_segments (positive clockwise)", pr::area::area_segments(&pairs), -want, 1e-6 * span(p) * size(p))?;
    let small = want.abs() <= 1e-9 * size(p).powi(2);
    if !small {
        eq("segments_orientation", o2i(segments_orientation(&pairs)), if a[0].is_positive() { 1 } else { -1 })?;
    }
    Ok(())
}

pub fn measures() -> Property {
    Property {
        id: "C02",
        rule: "the triangle, segments, angle or polygon is not degenerate",
        assumptions: &["relative tolerance 1e-9 (1e-6 rad for angles); circumcenter and quality of triangles whose doubled area exceeds 1e-4 of their squared extent"],
        subs: vec![
            Sub::new("triangle", 160000, 3200000, || any_scale(prop_oneof![3 => grid(3), 1 => collinear()].boxed()), |g: &Grid, _, o| m_triangle(&g.pts(), o)).light().boxed(),
            Sub::new("triangle-float", 80000, 1600000, || float_pts(3), |p: &Vec<P>, _, o| m_triangle(p, o)).light().boxed(),
            Sub::new("pair", 160000, 3200000, || any_scale(grid(4)), |g: &Grid, _, o| m_pair(&g.pts(), o)).light().boxed(),
            Sub::new("angle", 160000, 3200000, || any_scale(prop_oneof![2 => grid(3), 1 => collinear()].boxed()), |g: &Grid, _, o| m_angle(&g.pts(), 0.0, o)).light().boxed(),
            Sub::new("angle-float", 80000, 1600000, || prop_oneof![straight_floats(), float_pts(3)].boxed(), |p: &Vec<P>, _, o| m_angle(p, noise(p, 2), o)).light().boxed(),
            Sub::new("polygon", 80000, 1600000, || any_scale(grid_between(3, 9)), |g: &Grid, _, o| m_polygon(&g.pts(), o)).light().boxed(),
        ],
    }
}

// ---- C03: segment intersection ---------------------------------------------------------------
fn x_segments(p: &[P], exact: bool, o: &mut Obs) -> Res {
    let (a, b, c, d) = (p[0], p[1], p[2], p[3]);
    if a == b || c == d {
        o.discard = true;
        return Ok(());
    }
    let l = span(p);
    let scale = size(p);
    if !exact {
        // every configuration of rounded coordinates with a clear answer
        let dists = [orient_val(a, b, c), orient_val(a, b, d), orient_val(c, d, a), orient_val(c, d, b)];
        if dists.iter().any(|x| x.abs() < 1e-6 * l * l) {
            o.discard = true;
            return Ok(());
        }
    }
    let touch = segs_touch(a, b, c, d);
    let cross = line_crossing(a, b, c, d);
    let proper = segs_cross_properly(a, b, c, d);
    o.nontrivial = touch;
    o.tag_if(proper, "crossing");
    o.tag_if(touch && !proper && cross.is_some(), "touching at an end vertex");
    o.tag_if(touch && cross.is_none(), "overlapping");
    o.tag_if(!touch && cross.is_none(), "parallel");
    let what = format!("{a:?}-{b:?} and {c:?}-{d:?}");
    for (p1, p2, p3, p4) in [(a, b, c, d), (b, a, c, d), (a, b, d, c), (c, d, a, b), (d, c, b, a)] {
        let r = pr::intersection::intersection(&vx(p1), &vx(p2), &vx(p3), &vx(p4));
        match (&r, touch) {
            (None, true) => return Err(format!("segments {what} meet but no intersection is reported")),
            (Some(q), false) => return Err(format!("segments {what} are apart but meet at {q}")),
            (None, false) => {}
            (Some(q), true) => {
                let q = (q.x, q.y);
                match cross {
                    Some(w) => {
                        if !(dist(q, w) <= 1e-9 * scale) {
                            return Err(format!("segments {what} meet at {w:?}, reported {q:?}"));
                        }
                        if !proper && ![a, b, c, d].iter().any(|e| *e == q) {
                            return Err(format!("segments {what} meet at an end vertex, reported {q:?}"));
                        }
                    }
                    None => {
                        if !(on_segment(a, b, q) && on_segment(c, d, q)) {
                            return Err(format!("{q:?} is not on both of the overlapping segments {what}"));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
/// turned segments meet where the segments do
fn x_tilted(g: &Grid, t: u32, o: &mut Obs) -> Res {
    let p = g.pts();
    let (a, b, c, d) = (p[0], p[1], p[2], p[3]);
    if a == b || c == d {
        o.discard = true;
        return Ok(());
    }
    let touch = segs_touch(a, b, c, d);
    let cross = line_crossing(a, b, c, d);
    o.nontrivial = touch;
    o.tag_if(touch && cross.is_some() && !segs_cross_properly(a, b, c, d), "touching at an end vertex");
    o.tag_if(touch && cross.is_none(), "overlapping");
    let f = crate::domain::tilt(t);
    let scale = size(&p) * dist(f((1.0, 0.0)), f((0.0, 0.0)));
    let q: Vec<P> = p.iter().map(|p| f(*p)).collect();
    let (e, g) = ((q[0], q[1]), (q[2], q[3]));
    for (p1, p2, p3, p4) in [(e.0, e.1, g.0, g.1), (e.1, e.0, g.0, g.1), (e.0, e.1, g.1, g.0), (g.0, g.1, e.0, e.1), (g.1, g.0, e.1, e.0)] {
        let what = || format!("segments {:?} and {:?}", (p1, p2), (p3, p4));
        match (pr::intersection::intersection(&vx(p1), &vx(p2), &vx(p3), &vx(p4)), touch) {
            (None, true) => return Err(format!("{} meet but no intersection is reported", what())),
            (Some(q), false) => return Err(format!("{} are apart but meet at {q}", what())),
            (None, false) => {}
            (Some(r), true) => {
                let r = (r.x, r.y);
                let off = match cross {
                    Some(w) => dist(r, f(w)),
                    None => crate::mesh::seg_dist(r, e).max(crate::mesh::seg_dist(r, g)),
                };
                if !(off <= 1e-9 * scale) {
                    return Err(format!("{} do not meet at {r:?}", what()));
                }
            }
        }
    }
    Ok(())
}
fn crossing_grid() -> BoxedStrategy<Grid> {
    // the third point on (or beside) the line of the first two
    (collinear(), (-9..=9, -9..=9), prop::bool::ANY)
        .prop_map(|(mut g, d, swap)| {
            let c = g.p[2];
            g.p.push((c.0 + d.0, c.1 + d.1));
            if swap {
                g.p.swap(2, 3);
            }
            g
        })
        .boxed()
}
/// parallel and overlapping segments
fn parallel_grid() -> BoxedStrategy<Grid> {
    (grid(1), (-9..=9i32, -9..=9i32), 1..=5i32, -6..=6i32, 1..=5i32, (0..=1i32, 0..=1i32), prop::bool::weighted(0.3))
        .prop_map(|(mut g, d, k, s, m, sh, apart)| {
            let a = g.p[0];
            let sh = if apart { sh } else { (0, 0) };
            let at = |t: i32| (a.0 + t * d.0, a.1 + t * d.1);
            let f = |q: (i32, i32)| (q.0 + sh.0, q.1 + sh.1);
            g.p = vec![at(0), at(k), f(at(s)), f(at(s + m))];
            g
        })
        .boxed()
}
pub fn intersections() -> Property {
    Property {
        id: "C03",
        rule: "the segments share at least one point",
        assumptions: &["segments of positive length; dyadic coordinates decide every configuration exactly, full-precision ones those without near-coincidences"],
        subs: vec![
            Sub::new("segments", 240000, 4800000, || any_scale(grid(4)), |g: &Grid, _, o| x_segments(&g.pts(), true, o)).light().boxed(),
            Sub::new("touching", 240000, 4800000, || any_scale(crossing_grid()), |g: &Grid, _, o| x_segments(&g.pts(), true, o)).light().boxed(),
            Sub::new("parallel", 160000, 3200000, || any_scale(parallel_grid()), |g: &Grid, _, o| x_segments(&g.pts(), true, o)).light().boxed(),
            Sub::new("segments-tilted", 160000, 3200000, || (prop_oneof![1 => grid(4), 2 => crossing_grid(), 1 => parallel_grid()], crate::domain::s_tilt()).boxed(), |c: &(Grid, u32), _, o| x_tilted(&c.0, c.1, o)).light().boxed(),
            Sub::new("segments-float", 160000, 3200000, || float_pts(4), |p: &Vec<P>, _, o| x_segments(p, false, o)).light().boxed(),
        ],
    }
}

// ---- C04: equality and hashing ---------------------------------------------------------------
fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
/// 0.0 may be written -0.0
fn signed(p: P, neg: bool) -> P {
    let f = |x: f64| if x == 0.0 && neg { -0.0 } else { x };
    (f(p.0), f(p.1))
}
fn e_values(g: &(Grid, u32), o: &mut Obs) -> Res {
    let (p, bits) = (g.0.pts(), g.1);
    let q: Vec<P> = p.iter().enumerate().map(|(i, x)| signed(*x, bits >> i & 1 == 1)).collect();
    let (a, b, c) = (p[0], p[1], p[2]);
    let same = |x: P, y: P| x.0 == y.0 && x.1 == y.1;
    // vertices
    for i in 0..p.len() {
        for j in 0..p.len() {
            let (x, y) = (v(p[i]), v(q[j]));
            let want = same(p[i], q[j]);
            eq(&format!("{x:?} == {y:?}"), x == y, want)?;
            if want {
                eq(&format!("hashes of equal {x:?} {y:?}"), h(&x) == h(&y), true)?;
            }
        }
    }
    let ghost = Vertex::new_ghost();
    eq("ghost == ghost", ghost == Vertex::new_ghost() && h(&ghost) == h(&Vertex::new_ghost()), true)?;
    eq("ghost == vertex", ghost == v(a) || v(a) == ghost || v((0.0, 0.0)) == ghost, false)?;
    // edges are oriented
    let (e1, e2) = (edge((a, b)), edge((q[0], q[1])));
    eq("equal edges", e1 == e2 && h(&e1) == h(&e2), true)?;
    eq("edge and its opposite", *e1 == e1.opposite(), same(a, b))?;
    eq("opposite twice", e1.opposite().opposite() == *e1, true)?;
    eq("edges of different vertices", e1 == edge((a, c)), same(b, c))?;
    let ends = |e: &Edge| e.as_polyline().map(|p| (p.opened, p.vertices.iter().map(|w| (w.x, w.y)).collect::<Vec<P>>()));
    eq("an edge as an open polyline", ends(&e1), Some((true, vec![a, b])))?;
    let g = Rc::new(Vertex::new_ghost());
    for e in [Edge::new(&vx(a), &g), Edge::new(&g, &vx(a))] {
        eq("an edge with a ghost vertex as a polyline", ends(&e), None)?;
    }
    // heads to tails and tails to heads
    let arcs: Vec<(usize, usize)> = (0..p.len()).flat_map(|i| (0..p.len()).map(move |j| (i, j))).filter(|(i, j)| bits >> ((i * 5 + j * 3) % 4) & 1 == 1).collect();
    let (tails, heads) = Edge::into_hashmap(&arcs.iter().map(|(i, j)| Rc::new(Edge::new(&vx(p[*i]), &vx(q[*j])))).collect());
    let zero = |w: P| (w.0 + 0.0, w.1 + 0.0);
    let lists = |m: &HashMap<Rc<Vertex>, RefCell<HashSet<Rc<Vertex>>>>| {
        let mut l: Vec<(P, P)> = m.iter().flat_map(|(v, w)| w.borrow().iter().map(|w| (zero((v.x, v.y)), zero((w.x, w.y)))).collect::<Vec<_>>()).collect();
        l.sort_by(|x, y| x.partial_cmp(y).unwrap());
        l
    };
    let mut want: Vec<(P, P)> = arcs.iter().map(|(i, j)| (zero(p[*i]), zero(q[*j]))).collect();
    want.sort_by(|x, y| x.partial_cmp(y).unwrap());
    want.dedup();
    eq("edges by their first vertex", lists(&tails), want.clone())?;
    want.iter_mut().for_each(|w| *w = (w.1, w.0));
    want.sort_by(|x, y| x.partial_cmp(y).unwrap());
    eq("edges by their second vertex", lists(&heads), want)?;
    // triangles are oriented cycles
    let (x, y, z) = (vx(a), vx(b), vx(c));
    let (x2, y2, z2) = (vx(q[0]), vx(q[1]), vx(q[2]));
    let t = Triangle::new(&x, &y, &z);
    let distinct = !same(a, b) && !same(b, c) && !same(a, c);
    o.nontrivial = distinct;
    o.tag_if(q.iter().any(|w| w.0.to_bits() == (-0.0f64).to_bits() || w.1.to_bits() == (-0.0f64).to_bits()), "negative zero");
    for r in [Triangle::new(&x2, &y2, &z2), Triangle::new(&y2, &z2, &x2), Triangle::new(&z2, &x2, &y2)] {
        eq(&format!("{t} == {r}"), t == r && r == t, true)?;
        eq(&format!("hashes of {t} and {r}"), h(&t), h(&r))?;
    }
    if distinct {
        for r in [Triangle::new(&x, &z, &y), Triangle::new(&z, &y, &x), Triangle::new(&y, &x, &z)] {
            eq(&format!("{t} == {r} (reversed)"), t == r, false)?;
        }
        let d = vx(p[3]);
        let r = Triangle::new(&x, &y, &d);
        eq(&format!("{t} == {r}"), t == r, same(p[3], c) )?;
        let mut set: HashSet<Rc<Triangle>> = HashSet::new();
        set.insert(Rc::new(Triangle::new(&y, &z, &x)));
        eq("a triangle is found in a set whatever vertex it starts at", set.contains(&t) && !set.insert(Rc::new(Triangle::new(&z2, &x2, &y2))), true)?;
        // edges and opposites of a triangle
        let (i1, i2, i3) = t.inner_edges();
        let (o1, o2, o3) = t.outer_edges();
        for (i, ou, far) in [(&i1, &o1, &z), (&i2, &o2, &x), (&i3, &o3, &y)] {
            eq("outer edges are opposite to inner edges", i.opposite() == **ou, true)?;
            eq("vertex opposite to an inner edge", t.opposite_vertex(i).map(|w| (w.x, w.y)), Some((far.x, far.y)))?;
            eq("vertex opposite to an outer edge", t.opposite_vertex(ou).is_some(), false)?;
            eq("edge opposite to a vertex", t.opposite_edge(far).map(|w| w == *i), Some(true))?;
        }
        eq("inner edges", *i1 == *edge((a, b)) && *i2 == *edge((b, c)) && *i3 == *edge((c, a)), true)?;
        if !same(p[3], a) && !same(p[3], b) && !same(p[3], c) {
            eq("edge opposite to a foreign vertex", t.opposite_edge(&d).is_some(), false)?;
        }
    }
    // polylines
    let pl = |k: usize, open: bool| {
        let vs: Vec<Rc<Vertex>> = p[..k].iter().map(|w| vx(*w)).collect();
        if open { Polyline::new_opened(vs) } else { Polyline::new_closed(vs) }
    };
    for k in 0..=p.len() {
        eq("closed polylines have 3 or more vertices", pl(k, false).is_some(), k >= 3)?;
        eq("open polylines have 2 or more vertices", pl(k, true).is_some(), k >= 2)?;
    }
    let (c1, o1) = (pl(3, false).unwrap(), pl(3, true).unwrap());
    eq("closed == open", c1 == o1, false)?;
    // whichever polylines are equal: same vertices in the same order around, same hash
    let rows: Vec<Vec<usize>> = [3usize, 4].into_iter().flat_map(|n| (0..n).map(move |k| (n, k))).flat_map(|(n, k)| {
        let r: Vec<usize> = (0..n).map(|i| (i + k) % n).collect();
        let b: Vec<usize> = r.iter().rev().cloned().collect();
        [r, b]
    }).collect();
    let ring = |r: &Vec<usize>| r.iter().map(|i| zero(p[*i])).collect::<Vec<P>>();
    for (i, r) in rows.iter().enumerate() {
        for (j, s) in rows.iter().enumerate() {
            for open in [false, true] {
                let make = |r: &Vec<usize>, w: &Vec<P>| {
                    let l: Vec<Rc<Vertex>> = r.iter().map(|i| vx(w[*i])).collect();
                    if open { Polyline::new_opened(l).unwrap() } else { Polyline::new_closed(l).unwrap() }
                };
                let (x, y) = (make(r, &p), make(s, &q));
                let (a, b) = (ring(r), ring(s));
                if i == j || a == b {
                    eq(&format!("polylines of {a:?} are equal"), x == y, true)?;
                }
                if x == y {
                    eq(&format!("hashes of equal polylines {a:?} and {b:?} (open: {open})"), h(&x), h(&y))?;
                    let turned = |k: usize| { let mut c = a.clone(); c.rotate_left(k); c == b };
                    eq(&format!("equality of polylines {a:?} and {b:?} (open: {open})"), a.len() == b.len() && (0..if open { 1 } else { a.len() }).any(turned), true)?;
                }
            }
        }
    }
    let c2 = Polyline::new_closed(vec![x2.clone(), y2.clone(), z2.clone()]).unwrap();
    eq("equal polylines", c1 == c2 && h(&c1) == h(&c2), true)?;
    eq("ends of a closed polyline", c1.head().is_none() && c1.tail().is_none(), true)?;
    eq("head of an open polyline", o1.head().map(|w| (w.x, w.y)), Some(a))?;
    eq("tail of an open polyline", o1.tail().map(|w| (w.x, w.y)), Some(c))
}
fn zero_grid() -> BoxedStrategy<(Grid, u32)> {
    let small = prop::collection::vec((-1..=1i32, -1..=1i32), 4).prop_map(|p| Grid { pow: 0, off: (0, 0), p, shift: 0 });
    (prop_oneof![small.boxed(), grid(4)], 0..16u32).boxed()
}
pub fn equality() -> Property {
    Property {
        id: "C04",
        rule: "the three vertices of the triangle are distinct",
        assumptions: &["vertices are equal or at least 2^-10 apart (equality has a tolerance of 1e-14 the hash does not follow: see DESIGN.md)"],
        subs: vec![Sub::new("values", 240000, 4000000, zero_grid, |g: &(Grid, u32), _, o| e_values(g, o)).light().boxed()],
    }
}

// ---- C05: order and bounding boxes -----------------------------------------------------------
fn b_order(g: &Grid, o: &mut Obs) -> Res {
    let p = g.pts();
    let mut vs: Vec<Rc<Vertex>> = p.iter().map(|q| vx(*q)).collect();
    o.nontrivial = p.len() >= 3;
    Vertex::sort(&mut vs);
    let mut want = p.clone();
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    eq("sorted vertices", vs.iter().map(|w| (w.x, w.y)).collect::<Vec<P>>(), want)?;
    for a in &p {
        for b in &p {
            eq("order of vertices", v(*a).cmp(&v(*b)), a.partial_cmp(b).unwrap())?;
            eq("partial order of vertices", v(*a).partial_cmp(&v(*b)), a.partial_cmp(b))?;
        }
    }
    let flat: Vec<f64> = p.iter().flat_map(|q| [q.0, q.1]).collect();
    let from: Vec<P> = Vertex::from_coordinates(&flat).iter().map(|w| (w.x, w.y)).collect();
    eq("vertices from coordinates", from, p.clone())?;
    let ring: Vec<(P, P)> = (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).collect();
    let es = |e: Vec<Rc<Edge>>| e.iter().map(|e| ((e.v1.x, e.v1.y), (e.v2.x, e.v2.y))).collect::<Vec<(P, P)>>();
    eq("edges from coordinates", es(Edge::from_coordinates(&flat)), ring.clone())?;
    let vs: Vec<Rc<Vertex>> = p.iter().map(|q| vx(*q)).collect();
    eq("edges from vertices", es(Edge::from_vertices(&vs)), ring.clone())?;
    let pairs = Edge::into_vertex_pairs(Edge::from_vertices(&vs));
    eq("edges to pairs and back", es(Edge::from_vertex_pairs(pairs)), ring.clone())?;
    if p.len() >= 3 {
        eq("edges of a closed polyline", es(closed(&p).into_edges()), ring.clone())?;
    }
    if p.len() >= 2 {
        let open = Polyline::new_opened(vs).unwrap();
        eq("edges of an open polyline", es(open.into_edges()), ring[..p.len() - 1].to_vec())?;
    }
    Ok(())
}
type Box4 = (f64, f64, f64, f64);
fn bb(p: &[P]) -> Box4 {
    let m = |f: fn(f64, f64) -> f64, g: fn(&P) -> f64| p.iter().map(g).reduce(f).unwrap();
    (m(f64::min, |q| q.0), m(f64::min, |q| q.1), m(f64::max, |q| q.0), m(f64::max, |q| q.1))
}
fn of(b: &BoundingBox) -> Box4 {
    (b.origin.x, b.origin.y, b.destin.x, b.destin.y)
}
fn b_boxes(g: &Grid, o: &mut Obs) -> Res {
    let p = g.pts();
    let (k, q) = (p.len() / 2, p[p.len() - 1]);
    let mk = |s: &[P]| BoundingBox::from_vertices(s.iter().map(|w| vx(*w)).collect());
    if mk(&[]).is_some() || BoundingBox::union_list(vec![]).is_some() {
        return Err("a bounding box of nothing".into());
    }
    let (s1, s2) = (&p[..k], &p[k..p.len() - 1]);
    let (b1, b2) = (mk(s1).ok_or("no box")?, mk(s2).ok_or("no box")?);
    let (w1, w2) = (bb(s1), bb(s2));
    eq("bounding box", (of(&b1), of(&b2)), (w1, w2))?;
    let inside = w1.0 <= q.0 && q.0 <= w1.2 && w1.1 <= q.1 && q.1 <= w1.3;
    eq(&format!("box {w1:?} contains {q:?}"), b1.contains(&v(q)), inside)?;
    for w in s1 {
        eq("box contains its vertices", b1.contains(&v(*w)), true)?;
    }
    let x = (w1.0.max(w2.0), w1.1.max(w2.1), w1.2.min(w2.2), w1.3.min(w2.3));
    let meet = x.0 <= x.2 && x.1 <= x.3;
    o.nontrivial = w1 != w2;
    o.tag_if(meet, "boxes meet");
    o.tag_if(meet && (x.0 == x.2 || x.1 == x.3), "boxes touch");
    let want = if meet { Some(x) } else { None };
    eq("intersection of boxes", BoundingBox::intersection(&b1, &b2).as_ref().map(of), want)?;
    eq("intersection of boxes, swapped", BoundingBox::intersection(&b2, &b1).as_ref().map(of), want)?;
    let all = bb(&p[..p.len() - 1]);
    eq("union of a list", BoundingBox::union_list(vec![mk(s1).unwrap(), mk(&[q]).unwrap(), mk(s2).unwrap()]).as_ref().map(of), Some(bb(&p)))?;
    eq("equal boxes", mk(s1) == mk(&s1.iter().rev().copied().collect::<Vec<P>>()), true)?;
    eq("boxes differ", b1 == b2, w1 == w2)?;
    eq("union of boxes", of(&BoundingBox::union(&b1, b2)), all)
}
pub fn order() -> Property {
    Property {
        id: "C05",
        rule: "3 or more vertices, or two different boxes",
        assumptions: &["finite coordinates; vertices other than the ghost"],
        subs: vec![
            Sub::new("order", 120000, 2000000, || any_scale(grid_between(0, 12)), |g: &Grid, _, o| b_order(g, o)).light().boxed(),
            Sub::new("boxes", 160000, 3200000, || any_scale(grid_between(3, 9)), |g: &Grid, _, o| b_boxes(g, o)).light().boxed(),
        ],
    }
}
