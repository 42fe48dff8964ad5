//! Generated planar domains: boundary, holes, segments and vertices, from small raw data that
//! shrinks well. Building is deterministic; elements of the raw data that would make the
//! domain invalid are skipped.
use crate::exact::*;
use crate::mesh::key;
use nlsn_delaunay::elements::{edge::Edge, polyline::Polyline, vertex::Vertex};
use nlsn_delaunay::planar::{refine_params::RefineParams, triangulator::Triangulator};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use std::rc::Rc;

pub type G = (u32, u32);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Raw {
    /// coordinates are raw * 2^pow + offset
    pub pow: i32,
    pub off: (i32, i32),
    pub kind: Kind,
    pub bpts: Vec<G>,
    pub holes: Vec<Vec<G>>,
    pub segs: Vec<(G, G)>,
    pub verts: Vec<G>,
    /// rotates the vertex list of the boundary
    pub turn: u32,
    /// constraint edges are split until their diametral circles are free of other vertices
    #[serde(default)]
    pub gabriel: bool,
    /// holes become rectangles, segments axis-parallel
    #[serde(default)]
    pub boxes: bool,
    /// constraints meet at more than 45 degrees (others are left out)
    #[serde(default)]
    pub wide: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    /// convex hull of the raw points
    Convex,
    /// convex hull that keeps the points lying on hull edges
    Collinear,
    /// star-shaped polygon
    Star,
    /// rectilinear histogram
    Stairs,
    /// polygon through all the raw points, untangled
    Tangle,
}

#[derive(Clone, Debug, Default)]
pub struct Dom {
    pub boundary: Vec<P>,
    pub holes: Vec<Vec<P>>,
    pub segs: Vec<(P, P)>,
    pub verts: Vec<P>,
}

pub fn hull(mut pts: Vec<P>, collinear: bool) -> Vec<P> {
    pts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    pts.dedup();
    if pts.len() < 3 {
        return vec![];
    }
    let build = |it: Vec<P>| {
        let mut h: Vec<P> = vec![];
        for p in it {
            while h.len() >= 2 && {
                let o = orient(h[h.len() - 2], h[h.len() - 1], p);
                if collinear {
                    o < 0
                } else {
                    o <= 0
                }
            } {
                h.pop();
            }
            h.push(p);
        }
        h.pop();
        h
    };
    let mut h = build(pts.clone());
    pts.reverse();
    h.extend(build(pts));
    h
}

pub fn edges_of(p: &[P]) -> Vec<(P, P)> {
    (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).collect()
}
pub fn area2(p: &[P]) -> f64 {
    edges_of(p).iter().map(|(a, b)| a.0 * b.1 - a.1 * b.0).sum::<f64>()
}
/// exact for the coordinates generated here (few significant bits)
pub fn inside_diametral(a: P, b: P, p: P) -> f64 {
    (p.0 - a.0) * (p.0 - b.0) + (p.1 - a.1) * (p.1 - b.1)
}
pub fn polys_touch(a: &[P], b: &[P]) -> bool {
    edges_of(a).iter().any(|e| edges_of(b).iter().any(|f| segs_touch(e.0, e.1, f.0, f.1)))
}
pub fn seg_touches_poly(s: (P, P), b: &[P]) -> bool {
    edges_of(b).iter().any(|f| segs_touch(s.0, s.1, f.0, f.1))
}
/// segments that share at most one point, an end vertex of both
pub fn segs_compatible(s: (P, P), t: (P, P)) -> bool {
    if !segs_touch(s.0, s.1, t.0, t.1) {
        return true;
    }
    let shared: Vec<P> = [s.0, s.1].iter().copied().filter(|p| *p == t.0 || *p == t.1).collect();
    if shared.len() != 1 {
        return false;
    }
    let so = if s.0 == shared[0] { s.1 } else { s.0 };
    let to = if t.0 == shared[0] { t.1 } else { t.0 };
    !on_segment(s.0, s.1, to) && !on_segment(t.0, t.1, so)
}

impl Dom {
    pub fn constraints(&self) -> Vec<(P, P)> {
        let mut c = edges_of(&self.boundary);
        for h in &self.holes {
            c.extend(edges_of(h));
        }
        c.extend(self.segs.iter().copied());
        c
    }
    pub fn constraint_points(&self) -> Vec<P> {
        self.constraints().iter().flat_map(|c| [c.0, c.1]).collect()
    }
    pub fn wanted(&self) -> BTreeSet<(u64, u64)> {
        self.constraint_points().iter().chain(self.verts.iter()).map(|p| key(*p)).collect()
    }
    pub fn is_gabriel(&self, with_verts: bool) -> bool {
        let mut pts = self.constraint_points();
        if with_verts {
            pts.extend(self.verts.iter());
        }
        self.constraints()
            .iter()
            .all(|(a, b)| pts.iter().all(|p| p == a || p == b || inside_diametral(*a, *b, *p) > 0.0))
    }
    /// splits constraint edges at midpoints until `is_gabriel`
    pub fn make_gabriel(&mut self, with_verts: bool, rounds: usize) -> bool {
        for _ in 0..rounds {
            let mut pts = self.constraint_points();
            if with_verts {
                pts.extend(self.verts.iter());
            }
            let bad = |a: P, b: P| pts.iter().any(|p| *p != a && *p != b && inside_diametral(a, b, *p) <= 0.0);
            let mut changed = false;
            let mut split_poly = |p: &Vec<P>| -> Vec<P> {
                let mut out = vec![];
                for (a, b) in edges_of(p) {
                    out.push(a);
                    if bad(a, b) {
                        out.push(((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0));
                        changed = true;
                    }
                }
                out
            };
            let b2 = split_poly(&self.boundary);
            let h2: Vec<Vec<P>> = self.holes.iter().map(|h| split_poly(h)).collect();
            let mut s2 = vec![];
            for (a, b) in &self.segs {
                if bad(*a, *b) {
                    let m = ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0);
                    s2.push((*a, m));
                    s2.push((m, *b));
                    changed = true;
                } else {
                    s2.push((*a, *b));
                }
            }
            if !changed {
                return true;
            }
            self.boundary = b2;
            self.holes = h2;
            self.segs = s2;
            let cons = self.constraints();
            self.verts.retain(|v| !cons.iter().any(|c| on_segment(c.0, c.1, *v)));
        }
        self.is_gabriel(with_verts)
    }
    pub fn size(&self) -> usize {
        self.boundary.len() + self.holes.iter().map(|h| h.len()).sum::<usize>() + 2 * self.segs.len() + self.verts.len()
    }
    /// is `p` in the open domain, and on no constraint
    pub fn free_point(&self, p: P) -> bool {
        in_polygon(&self.boundary, p) > 0
            && self.holes.iter().all(|h| in_polygon(h, p) < 0)
            && self.segs.iter().all(|s| !on_segment(s.0, s.1, p))
    }
    pub fn map(&self, f: &dyn Fn(P) -> P) -> Dom {
        Dom {
            boundary: self.boundary.iter().map(|p| f(*p)).collect(),
            holes: self.holes.iter().map(|h| h.iter().map(|p| f(*p)).collect()).collect(),
            segs: self.segs.iter().map(|s| (f(s.0), f(s.1))).collect(),
            verts: self.verts.iter().map(|p| f(*p)).collect(),
        }
    }
}

/// staircase polygon between an increasing lower and an upper chain over distinct columns
fn stairs(pts: &[P]) -> Vec<P> {
    if pts.len() < 4 {
        return vec![];
    }
    let mut xs: Vec<f64> = pts.iter().map(|p| p.0).collect();
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    xs.dedup();
    if xs.len() < 2 {
        return vec![];
    }
    let n = xs.len() - 1;
    let mut ys: Vec<f64> = pts.iter().map(|p| p.1).collect();
    ys.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let base = ys[0];
    let mut out = vec![(xs[0], base), (xs[n], base)];
    for i in (0..n).rev() {
        let top = pts[i % pts.len()].1.max(base + 1.0);
        out.push((xs[i + 1], top));
        out.push((xs[i], top));
    }
    // drop repeated and straight vertices
    loop {
        let m = out.len();
        if m < 4 {
            return vec![];
        }
        let k = (0..m).find(|&i| orient(out[(i + m - 1) % m], out[i], out[(i + 1) % m]) == 0);
        match k {
            Some(k) => {
                out.remove(k);
            }
            None => break,
        }
    }
    out
}

/// a closed tour through the points, uncrossed by reversals
fn untangle(pts: Vec<P>) -> Vec<P> {
    let mut p: Vec<P> = vec![];
    for q in pts {
        if !p.contains(&q) {
            p.push(q);
        }
    }
    let n = p.len();
    if n < 3 {
        return vec![];
    }
    for _ in 0..200 {
        let mut changed = false;
        for i in 0..n - 1 {
            for j in i + 1..n {
                if i == 0 && j == n - 1 {
                    continue;
                }
                let (a, b, c, d) = (p[i], p[i + 1], p[j], p[(j + 1) % n]);
                if j == i + 1 {
                    // fold back over the same line
                    if orient(a, b, d) == 0 && (on_segment(a, b, d) || on_segment(b, d, a)) {
                        p.swap(i + 1, (j + 1) % n);
                        changed = true;
                    }
                } else if segs_touch(a, b, c, d) {
                    p[i + 1..=j].reverse();
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    if area2(&p) < 0.0 {
        p.reverse();
    }
    p
}

pub fn min_angle(p: &[P]) -> f64 {
    let n = p.len();
    (0..n)
        .map(|i| {
            let (a, b, c) = (p[(i + n - 1) % n], p[i], p[(i + 1) % n]);
            let u = (a.0 - b.0, a.1 - b.1);
            let v = (c.0 - b.0, c.1 - b.1);
            (u.0 * v.1 - u.1 * v.0).abs().atan2(u.0 * v.0 + u.1 * v.1).to_degrees()
        })
        .fold(360.0, f64::min)
}

/// do the segments meet at 45 degrees or less
pub fn sharp(s: (P, P), t: (P, P)) -> bool {
    for (a, b) in [s, (s.1, s.0)] {
        for (c, d) in [t, (t.1, t.0)] {
            if a == c {
                let u = (b.0 - a.0, b.1 - a.1);
                let v = (d.0 - a.0, d.1 - a.1);
                if (u.0 * v.1 - u.1 * v.0).abs().atan2(u.0 * v.0 + u.1 * v.1).to_degrees() < 45.01 {
                    return true;
                }
            }
        }
    }
    false
}
pub fn extent(p: &[P]) -> ((f64, f64), (f64, f64)) {
    let mut x = (f64::MAX, f64::MIN);
    let mut y = x;
    for q in p {
        x = (x.0.min(q.0), x.1.max(q.0));
        y = (y.0.min(q.1), y.1.max(q.1));
    }
    (x, y)
}

impl Raw {
    pub fn place(&self, g: G) -> P {
        let s = 2f64.powi(self.pow);
        (g.0 as f64 * s + self.off.0 as f64, g.1 as f64 * s + self.off.1 as f64)
    }
    pub fn build(&self) -> Option<Dom> {
        let s = 2f64.powi(self.pow);
        let f = |g: &G| (g.0 as f64 * s + self.off.0 as f64, g.1 as f64 * s + self.off.1 as f64);
        let raw: Vec<P> = self.bpts.iter().map(|g| f(g)).collect();
        let mut d = Dom::default();
        match self.kind {
            Kind::Convex => d.boundary = hull(raw, false),
            Kind::Tangle => d.boundary = untangle(raw),
            Kind::Collinear => d.boundary = hull(raw, true),
            Kind::Stairs => {
                let unit: Vec<P> = self.bpts.iter().map(|g| (g.0 as f64, g.1 as f64)).collect();
                d.boundary = stairs(&unit)
                    .iter()
                    .map(|p| (p.0 * s + self.off.0 as f64, p.1 * s + self.off.1 as f64))
                    .collect()
            }
            Kind::Star => {
                if raw.len() < 4 {
                    return None;
                }
                let c = raw[0];
                let mut p: Vec<P> = raw[1..].to_vec();
                p.sort_by(|a, b| {
                    (a.1 - c.1).atan2(a.0 - c.0).partial_cmp(&(b.1 - c.1).atan2(b.0 - c.0)).unwrap()
                });
                p.dedup();
                if area2(&p) < 0.0 {
                    p.reverse();
                }
                d.boundary = p;
            }
        }
        if d.boundary.len() < 3 || !simple_polygon(&d.boundary) || (self.wide && min_angle(&d.boundary) < 45.01) {
            return None;
        }
        let n = d.boundary.len();
        d.boundary.rotate_left(self.turn as usize % n);
        for h in &self.holes {
            let mut h = hull(h.iter().map(|g| f(g)).collect(), false);
            if self.boxes && h.len() >= 3 {
                let (x, y) = extent(&h);
                h = vec![(x.0, y.0), (x.1, y.0), (x.1, y.1), (x.0, y.1)];
            }
            if h.len() < 3 || !simple_polygon(&h) || (self.wide && min_angle(&h) < 45.01) {
                continue;
            }
            let ok = h.iter().all(|p| in_polygon(&d.boundary, *p) > 0)
                && !polys_touch(&h, &d.boundary)
                && d.holes.iter().all(|o| {
                    !polys_touch(&h, o)
                        && h.iter().all(|p| in_polygon(o, *p) < 0)
                        && o.iter().all(|p| in_polygon(&h, *p) < 0)
                });
            if ok {
                let n = h.len();
                h.rotate_left(self.turn as usize % n);
                d.holes.push(h);
            }
        }
        for (a, b) in &self.segs {
            let (a, mut b) = (f(a), f(b));
            if self.boxes {
                b = if (b.0 - a.0).abs() > (b.1 - a.1).abs() { (b.0, a.1) } else { (a.0, b.1) };
            }
            if self.wide && d.segs.iter().any(|t| sharp((a, b), *t)) {
                continue;
            }
            if a == b || in_polygon(&d.boundary, a) <= 0 || in_polygon(&d.boundary, b) <= 0 {
                continue;
            }
            let bad = |o: &[P]| seg_touches_poly((a, b), o);
            if bad(&d.boundary) || d.holes.iter().any(|h| bad(h) || in_polygon(h, a) >= 0) {
                continue;
            }
            if d.segs.iter().all(|t| segs_compatible((a, b), *t)) {
                d.segs.push((a, b));
            }
        }
        for v in &self.verts {
            let p = f(v);
            if d.free_point(p) && !d.verts.contains(&p) {
                d.verts.push(p);
            }
        }
        if self.gabriel && !d.make_gabriel(true, 6) {
            return None;
        }
        Some(d)
    }
}

fn pt(g: u32) -> impl Strategy<Value = G> + Clone {
    (0..=g, 0..=g)
}
/// points of a square of up to a third of the grid
fn hole(g: u32) -> impl Strategy<Value = Vec<G>> + Clone {
    (pt(g), 2..=(g / 3).max(2), prop::collection::vec((0..=60u32, 0..=60u32), 3..=6))
        .prop_map(|(b, size, o)| o.iter().map(|q| (b.0 + q.0 * size / 60, b.1 + q.1 * size / 60)).collect())
}
/// up to three short segments: a chain, or a fan that starts at one point; either way around
fn chain(g: u32) -> impl Strategy<Value = Vec<(G, G)>> + Clone {
    let r = (g / 3).max(2) as i64;
    let g = g as i64;
    (pt(g as u32), prop::collection::vec((-r..=r, -r..=r), 1..=3), prop::bool::weighted(0.3), 0u32..8).prop_map(move |(a, steps, fan, back)| {
        let mut a = (a.0 as i64, a.1 as i64);
        let mut out = vec![];
        for (i, s) in steps.into_iter().enumerate() {
            let b = ((a.0 + s.0).clamp(0, g), (a.1 + s.1).clamp(0, g));
            let (p, q) = ((a.0 as u32, a.1 as u32), (b.0 as u32, b.1 as u32));
            out.push(if back >> i & 1 == 1 && !fan { (q, p) } else { (p, q) });
            if !fan {
                a = b;
            }
        }
        out
    })
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub bpts: (usize, usize),
    pub holes: usize,
    pub chains: usize,
    pub verts: usize,
    pub gabriel: bool,
    pub boxes: bool,
    pub wide: bool,
}
impl Shape {
    pub const fn new(bpts: (usize, usize), holes: usize, chains: usize, verts: usize) -> Shape {
        Shape { bpts, holes, chains, verts, gabriel: false, boxes: false, wide: false }
    }
}

/// `grids`: (largest raw coordinate, smallest pow, largest pow)
pub fn raw(kind: Kind, shape: Shape, grids: &'static [(u32, i32, i32)], max_off: i32) -> BoxedStrategy<Raw> {
    let arms: Vec<BoxedStrategy<Raw>> = grids
        .iter()
        .map(|&(g, lo, hi)| {
            let seg = prop_oneof![3 => chain(g), 1 => (pt(g), pt(g)).prop_map(|s| vec![s])];
            (
                lo..=hi,
                (-max_off..=max_off, -max_off..=max_off),
                prop::collection::vec(pt(g), shape.bpts.0..=shape.bpts.1),
                prop::collection::vec(hole(g), 0..=shape.holes),
                prop::collection::vec(seg, 0..=shape.chains),
                prop::collection::vec(pt(g), 0..=shape.verts),
                0u32..8,
            )
                .prop_map(move |(pow, off, bpts, holes, segs, verts, turn)| Raw {
                    pow,
                    off,
                    kind,
                    bpts,
                    holes,
                    segs: segs.concat(),
                    verts,
                    turn,
                    gabriel: shape.gabriel,
                    boxes: shape.boxes,
                    wide: shape.wide,
                })
                .boxed()
        })
        .collect();
    prop::strategy::Union::new(arms).boxed()
}

/// a polygon of many corners on a circle, with few vertices near the middle: large cavities
pub fn wheel(corners: std::ops::Range<usize>) -> BoxedStrategy<Raw> {
    let c = 452u32..=572;
    let middle = (c.clone(), c.clone());
    (0u32..8, corners, prop::collection::vec(-6i32..=6, 48), prop::collection::vec(middle, 1..7), (-4..=0i32, -8..=8i32, -8..=8i32), prop::bool::ANY)
        .prop_map(|(turn, n, jitter, mut verts, (pow, x, y), free)| {
            let mut ring: Vec<G> = vec![];
            for i in 0..n {
                let (a, r) = ((i as f64 + 0.3) * 2.0 * std::f64::consts::PI / n as f64, 440.0 + jitter[i % jitter.len()] as f64);
                ring.push(((512.0 + r * a.cos()).round() as u32, (512.0 + r * a.sin()).round() as u32));
            }
            let (kind, bpts) = if free {
                // a square around free vertices
                verts.extend(ring);
                (Kind::Convex, vec![(0, 0), (1024, 0), (1024, 1024), (0, 1024)])
            } else {
                // the centre, then the corners
                ring.insert(0, (512, 512));
                (Kind::Star, ring)
            };
            Raw { pow, off: (x, y), kind, bpts, holes: vec![], segs: vec![], verts, turn, gabriel: false, boxes: false, wide: false }
        })
        .boxed()
}

pub fn vx(p: P) -> Rc<Vertex> {
    Rc::new(Vertex::new(p.0, p.1))
}
pub fn closed(p: &[P]) -> Rc<Polyline> {
    Rc::new(Polyline::new_closed(p.iter().map(|q| vx(*q)).collect()).expect("new_closed refused a polygon"))
}
pub fn edge(s: (P, P)) -> Rc<Edge> {
    Rc::new(Edge::new(&vx(s.0), &vx(s.1)))
}
pub fn pts(p: &Polyline) -> Vec<P> {
    p.vertices.iter().map(|v| (v.x, v.y)).collect()
}

/// a triangulator loaded with the domain; a refused part is an error
pub fn load(d: &Dom) -> Result<Triangulator, String> {
    let b = closed(&d.boundary);
    let mut t = Triangulator::new(&b);
    for h in &d.holes {
        if t.insert_hole(&closed(h)).is_err() {
            return Err(format!("a valid hole was refused: {h:?}"));
        }
    }
    let s: HashSet<Rc<Edge>> = d.segs.iter().map(|s| edge(*s)).collect();
    if t.insert_segments(&s).is_err() {
        return Err("valid segments were refused".into());
    }
    let v: HashSet<Rc<Vertex>> = d.verts.iter().map(|p| vx(*p)).collect();
    if t.insert_vertices(&v).is_err() {
        return Err("valid vertices were refused".into());
    }
    Ok(t)
}
pub fn params(q: f64, a: Option<f64>) -> RefineParams {
    RefineParams { max_area: a, quality_ratio: q }
}

/// scales of turned points, as powers of two
pub const SHIFTS: [i32; 7] = [0, -6, -10, -14, -17, 10, 20];
/// turns a point around the origin, so that its coordinates are rounded: quarter turns (t < 4),
/// or t thousandths of a radian along with an odd scale; each 10000 selects another scale
pub fn tilt(t: u32) -> impl Fn(P) -> P {
    let f = 2f64.powi(SHIFTS[(t / 10000) as usize % SHIFTS.len()]);
    let t = t % 10000;
    let (a, f) = if t < 4 { (t as f64 * std::f64::consts::FRAC_PI_2, f) } else { (t as f64 / 1000.0, f * (0.7 + t as f64 / 7000.0)) };
    let (s, c) = if t == 0 { (0.0, 1.0) } else { a.sin_cos() };
    move |p| ((p.0 * c - p.1 * s) * f, (p.0 * s + p.1 * c) * f)
}
pub fn s_tilt() -> BoxedStrategy<u32> {
    let turn = || prop_oneof![1 => 1u32..4, 4 => 4u32..6283];
    let scale = || (1..SHIFTS.len() as u32).prop_map(|k| k * 10000);
    prop_oneof![3 => turn(), 1 => scale(), 2 => (turn(), scale()).prop_map(|(t, s)| t + s)].boxed()
}

/// a square around a star-shaped hole of many corners, or with such a bay in one of its sides
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bay {
    /// distances of the corners from the middle
    pub rays: Vec<i32>,
    /// a bay rather than a hole
    pub open: bool,
    pub verts: Vec<(i32, i32)>,
    pub segs: Vec<((i32, i32), (i32, i32))>,
}
impl Bay {
    pub fn build(&self) -> Option<Dom> {
        let n = self.rays.len();
        let pi = std::f64::consts::PI;
        let at = |i: usize| {
            let a = if self.open { pi / 8.0 + i as f64 * 1.75 * pi / (n - 1) as f64 } else { (i as f64 + 0.5) * 2.0 * pi / n as f64 };
            let r = self.rays[i] as f64;
            ((r * a.cos()).round(), (r * a.sin()).round())
        };
        let corners: Vec<P> = (0..n).map(at).collect();
        let mut d = Dom::default();
        if self.open {
            d.boundary = vec![(-140.0, -140.0), (140.0, -140.0), (140.0, -8.0)];
            d.boundary.extend(corners.iter().rev());
            d.boundary.extend([(140.0, 8.0), (140.0, 140.0), (-140.0, 140.0)]);
        } else {
            d.boundary = vec![(-140.0, -140.0), (140.0, -140.0), (140.0, 140.0), (-140.0, 140.0)];
            d.holes = vec![corners];
        }
        for p in [&d.boundary].into_iter().chain(&d.holes) {
            let e = edges_of(p);
            if (0..e.len()).any(|i| (0..i).any(|j| !segs_compatible(e[i], e[j]))) || e.iter().any(|e| e.0 == e.1) {
                return None;
            }
        }
        let f = |p: &(i32, i32)| (p.0 as f64, p.1 as f64);
        for (a, b) in &self.segs {
            let s = (f(a), f(b));
            let apart = |t: &(P, P)| !segs_touch(s.0, s.1, t.0, t.1);
            if s.0 != s.1 && d.free_point(s.0) && d.constraints().iter().all(|t| apart(t)) {
                d.segs.push(s);
            }
        }
        for v in self.verts.iter().map(f) {
            if d.free_point(v) && !d.verts.contains(&v) {
                d.verts.push(v);
            }
        }
        Some(d)
    }
}
pub fn s_bay() -> BoxedStrategy<Bay> {
    let p = || (-139..=139i32, -139..=139i32);
    let rays = prop_oneof![
        3 => prop::collection::vec(40..=120i32, 8..40),
        1 => (60..=120i32, 8usize..40).prop_map(|(r, n)| vec![r; n]),
        2 => (60..=120i32, prop::collection::vec(-6..=6i32, 8..40)).prop_map(|(r, d)| d.into_iter().map(|d| (r + d).min(120)).collect()),
    ];
    (rays, prop::bool::ANY, prop::collection::vec(p(), 0..20), prop::collection::vec((p(), p()), 0..6))
        .prop_map(|(rays, open, verts, segs)| Bay { rays, open, verts, segs })
        .boxed()
}
