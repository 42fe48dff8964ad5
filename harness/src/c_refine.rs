//! Refinement: the domain and its constraints stay, bounds are met, encroachment is gone.
use crate::c_mesh::{classify, show};
use crate::domain::*;
use crate::engine::*;
use crate::exact::*;
use crate::mesh::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const BUDGET: u64 = 400_000_000;
pub const BAY_BUDGET: u64 = 400_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub raw: Raw,
    /// quality ratio, in hundredths
    pub quality: u32,
    /// largest area, as domain area / 2^n
    pub area: Option<u32>,
    /// turns the domain, see tilt()
    #[serde(default)]
    pub tilt: Option<u32>,
    /// the domain instead of raw
    #[serde(default)]
    pub bay: Option<Bay>,
    /// constraints may meet at any angle; the ratio leaves room for the sharpest
    #[serde(default)]
    pub sharp: bool,
}

const GRID: &[(u32, i32, i32)] = &[(6, 0, 2), (12, 0, 1), (16, -2, 1), (32, -3, 1), (64, -4, 0)];

fn case(kind: Kind, shape: Shape) -> BoxedStrategy<Case> {
    let q = prop_oneof![4 => Just(150u32), 2 => Just(142), 2 => Just(200), 1 => 143u32..400];
    let a = prop_oneof![2 => Just(None), 3 => (1u32..7).prop_map(Some)];
    (raw(kind, shape, GRID, 8), q, a).prop_map(|(raw, quality, area)| Case { raw, quality, area, tilt: None, bay: None, sharp: false }).boxed()
}
/// a bay or hole of many corners
pub fn s_bays() -> BoxedStrategy<Case> {
    let n = 8usize..24;
    let rays = prop_oneof![
        1 => (50..=80i32, n.clone()).prop_map(|(r, n)| vec![r; n]),
        3 => (50..=80i32, prop::collection::vec(-8..=8i32, n)).prop_map(|(r, d)| d.into_iter().map(|d| r + d).collect()),
        2 => prop::collection::vec(45..=90i32, 8..18),
    ];
    let p = || (-139..=139i32, -139..=139i32);
    let b = (rays, prop::bool::ANY, prop::collection::vec(p(), 0..9), prop::collection::vec((p(), p()), 0..3)).prop_map(|(rays, open, verts, segs)| Bay { rays, open, verts, segs });
    (case(Kind::Collinear, wide((4, 4), 0, 0, 0, false)), b).prop_map(|(c, b)| Case { bay: Some(b), area: c.area.map(|a| a.min(3)), ..c }).boxed()
}
fn wide(bpts: (usize, usize), holes: usize, chains: usize, verts: usize, boxes: bool) -> Shape {
    Shape { boxes, wide: true, ..Shape::new(bpts, holes, chains, verts) }
}
pub fn s_convex() -> BoxedStrategy<Case> {
    case(Kind::Collinear, wide((4, 9), 0, 0, 8, false))
}
pub fn s_parts() -> BoxedStrategy<Case> {
    case(Kind::Collinear, wide((4, 9), 2, 2, 5, true))
}
/// constraints that meet at any angle down to a few degrees
pub fn s_sharp() -> BoxedStrategy<Case> {
    let s = |b: (usize, usize), h, c, v| Shape { wide: false, ..Shape::new(b, h, c, v) };
    prop_oneof![
        case(Kind::Collinear, s((3, 8), 0, 0, 6)),
        case(Kind::Collinear, s((3, 8), 2, 2, 4)),
        case(Kind::Tangle, s((4, 7), 1, 2, 3)),
        case(Kind::Star, s((4, 8), 1, 1, 3)),
    ]
    .prop_map(|c| Case { sharp: true, area: c.area.map(|a| a.min(5)), ..c })
    .boxed()
}
/// of the angles at which constraints meet, in degrees
fn smallest_angle(d: &Dom) -> f64 {
    let c: Vec<(P, P)> = d.constraints().into_iter().flat_map(|c| [c, (c.1, c.0)]).collect();
    let mut least: f64 = 180.0;
    for i in 0..c.len() {
        for j in 0..i {
            if c[i].0 == c[j].0 && c[i].1 != c[j].1 {
                let (u, v) = (sub(c[i].1, c[i].0), sub(c[j].1, c[j].0));
                least = least.min((u.0 * v.1 - u.1 * v.0).abs().atan2(dot(u, v)).to_degrees());
            }
        }
    }
    least
}
pub fn s_stairs() -> BoxedStrategy<Case> {
    case(Kind::Stairs, wide((4, 7), 2, 2, 5, true))
}
pub fn s_tangle() -> BoxedStrategy<Case> {
    case(Kind::Tangle, wide((4, 7), 2, 2, 5, true))
}

pub struct Refined {
    pub before: Mesh,
    pub after: Mesh,
    pub ratio: f64,
    pub max_area: Option<f64>,
}

impl Case {
    pub fn build(&self) -> Option<Dom> {
        let d = match &self.bay {
            None => self.raw.build()?,
            Some(b) => b.build().filter(|d| std::iter::once(&d.boundary).chain(&d.holes).all(|p| min_angle(p) > 45.01) && slots(d) >= 6.0)?,
        };
        if self.sharp && (smallest_angle(&d) < 5.0 || slots(&d) < 1.0) {
            return None;
        }
        Some(match self.tilt {
            None => d,
            Some(t) => d.map(&tilt(t)),
        })
    }
    /// how far computed points may be off
    pub fn eps(&self, d: &Dom) -> f64 {
        match self.tilt {
            None => 0.0,
            Some(_) => 1e-9 * d.boundary.iter().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max),
        }
    }
}
/// the smallest distance between a segment and another constraint: long narrow slots take
/// refinement a very long time
fn slots(d: &Dom) -> f64 {
    let c = d.constraints();
    let gap = |a: (P, P), b: (P, P)| seg_dist(a.0, b).min(seg_dist(a.1, b)).min(seg_dist(b.0, a)).min(seg_dist(b.1, a));
    d.segs.iter().flat_map(|s| c.iter().filter(move |c| *c != s).map(move |c| gap(*s, *c))).fold(f64::MAX, f64::min)
}
pub fn tilted(s: BoxedStrategy<Case>) -> BoxedStrategy<Case> {
    (s, s_tilt()).prop_map(|(c, t)| Case { tilt: Some(t), ..c }).boxed()
}

pub fn bounds(c: &Case, d: &Dom) -> (f64, Option<f64>) {
    let area = (area2(&d.boundary) - d.holes.iter().map(|h| area2(h)).sum::<f64>()) / 2.0;
    let ratio = c.quality as f64 / 100.0;
    let sine = if c.sharp { smallest_angle(d).to_radians().min(1.0).sin() } else { 1.0 };
    (ratio.max(ratio / 2.0 / sine), c.area.map(|n| area / 2f64.powi(n as i32)))
}

pub fn refine(c: &Case, d: &Dom) -> Result<Refined, String> {
    let (ratio, max_area) = bounds(c, d);
    let mut t = load(d)?;
    t.triangulate();
    let mut before = Mesh::from(&t.triangulation.borrow());
    before.eps = c.eps(d);
    t.refine(params(ratio, max_area));
    let mut after = Mesh::from(&t.triangulation.borrow());
    after.eps = c.eps(d);
    Ok(Refined { before, after, ratio, max_area })
}

fn with(c: &Case, o: &mut Obs, f: fn(&Dom, &Refined, &mut Obs) -> Res) -> Res {
    let Some(d) = c.build() else {
        o.discard = true;
        return Ok(());
    };
    show(&d);
    classify(&d, o);
    o.tag_if(c.area.is_some(), "with an area bound");
    let r = refine(c, &d)?;
    let grown = r.after.pts.len() - r.before.pts.len().min(r.after.pts.len());
    o.nontrivial = grown > 0;
    o.tag_if(grown >= 20, "20 or more vertices inserted");
    f(&d, &r, o)
}

// ---- oracles -----------------------------------------------------------------------------
pub fn keeps_domain(d: &Dom, r: &Refined, _: &mut Obs) -> Res {
    let m = &r.after;
    m.check_manifold()?;
    m.check_tiling(&d.boundary, &d.holes)?;
    if let Some(e) = m.adj_bad.first() {
        return Err(format!("adjacency disagrees with the triangles: {e}"));
    }
    m.check_ghosts()
}
pub fn keeps_elements(d: &Dom, r: &Refined, _: &mut Obs) -> Res {
    let got = r.after.used_points();
    if let Some(k) = d.wanted().difference(&got).next() {
        return Err(format!("input vertex {:?} is missing after refinement", (f64::from_bits(k.0), f64::from_bits(k.1))));
    }
    for c in d.constraints() {
        if !r.after.covers_segment(c) {
            return Err(format!("constraint {:?}-{:?} is not made of edges after refinement", c.0, c.1));
        }
    }
    Ok(())
}
fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}
fn dot(a: P, b: P) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
fn len(a: P) -> f64 {
    dot(a, a).sqrt()
}
pub fn quality_of([a, b, c]: [P; 3]) -> f64 {
    let (u, v, w) = (sub(b, a), sub(c, b), sub(a, c));
    let area2 = (u.0 * v.1 - u.1 * v.0).abs();
    let (x, y, z) = (len(u), len(v), len(w));
    x * y * z / (2.0 * area2) / x.min(y).min(z)
}
pub fn area_of([a, b, c]: [P; 3]) -> f64 {
    let (u, w) = (sub(b, a), sub(c, a));
    (u.0 * w.1 - u.1 * w.0) / 2.0
}
/// corners of triangles seen from constrained edges at more than a right angle
pub fn encroached(d: &Dom, m: &Mesh) -> Vec<(P, P, P)> {
    let cons = d.constraints();
    let mut out = vec![];
    for i in 0..m.tris.len() {
        let t = m.tri(i);
        for k in 0..3 {
            let (a, b, p) = (t[k], t[(k + 1) % 3], t[(k + 2) % 3]);
            let x = dot(sub(a, p), sub(b, p));
            if x < -1e-9 * len(sub(a, p)) * len(sub(b, p))
                && cons.iter().any(|c| m.on(c.0, c.1, a) && m.on(c.0, c.1, b))
            {
                out.push((a, b, p));
            }
        }
    }
    out
}
pub fn meets_bounds(_: &Dom, r: &Refined, _: &mut Obs) -> Res {
    for i in 0..r.after.tris.len() {
        let t = r.after.tri(i);
        let q = quality_of(t);
        if q > r.ratio * (1.0 + 1e-9) {
            return Err(format!("triangle {t:?} has quality {q}, over {}", r.ratio));
        }
        if let Some(a) = r.max_area {
            if area_of(t) > a * (1.0 + 1e-9) {
                return Err(format!("triangle {t:?} has area {}, over {a}", area_of(t)));
            }
        }
    }
    Ok(())
}
pub fn unencroached(d: &Dom, r: &Refined, o: &mut Obs) -> Res {
    o.tag_if(!encroached(d, &r.before).is_empty(), "encroached before");
    match encroached(d, &r.after).first() {
        Some((a, b, p)) => Err(format!("constrained edge {a:?}-{b:?} is encroached by {p:?} after refinement")),
        None => Ok(()),
    }
}
/// locally Delaunay, up to the rounding of computed vertices
pub fn delaunay(d: &Dom, r: &Refined, _: &mut Obs) -> Res {
    let m = &r.after;
    let em = m.edge_map();
    let cons = d.constraints();
    let reach = d.boundary.iter().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
    for (e, ts) in &em {
        let Some(o) = em.get(&(e.1, e.0)) else { continue };
        let (p, q) = (m.pts[e.0], m.pts[e.1]);
        let [a, b, c] = m.tri(ts[0]);
        let x = m.pts[*m.tris[o[0]].iter().find(|&&v| v != e.0 && v != e.1).unwrap()];
        let (a, b, c) = (sub(a, x), sub(b, x), sub(c, x));
        let det = dot(a, a) * (b.0 * c.1 - b.1 * c.0) - dot(b, b) * (a.0 * c.1 - a.1 * c.0) + dot(c, c) * (a.0 * b.1 - a.1 * b.0);
        let l = len(a).max(len(b)).max(len(c));
        if det > 1e-9 * l.powi(4) + (1e-13f64).min(1e-13 * reach * l.powi(3)) && !cons.iter().any(|c| m.on(c.0, c.1, p) && m.on(c.0, c.1, q)) {
            return Err(format!("edge {p:?}-{q:?} is not Delaunay after refinement: {x:?}"));
        }
    }
    Ok(())
}

fn same(a: &Mesh, b: &Mesh) -> Res {
    let f = |m: &Mesh| {
        let mut v: Vec<[K; 3]> = (0..m.tris.len())
            .map(|i| {
                let mut t = m.tri(i).map(key);
                t.sort();
                t
            })
            .collect();
        v.sort();
        v
    };
    let (x, y) = (f(a), f(b));
    if x != y {
        return Err(format!("the mesh changed from {} to {} triangles", x.len(), y.len()));
    }
    Ok(())
}
/// refining twice with the same bounds is refining once; a looser bound changes nothing either
fn again(c: &Case, o: &mut Obs) -> Res {
    let Some(d) = c.build() else {
        o.discard = true;
        return Ok(());
    };
    show(&d);
    classify(&d, o);
    let (ratio, max_area) = bounds(c, &d);
    let mut t = load(&d)?;
    t.triangulate();
    let m0 = Mesh::from(&t.triangulation.borrow());
    t.refine(params(ratio, max_area));
    let m1 = Mesh::from(&t.triangulation.borrow());
    t.refine(params(ratio, max_area));
    let m2 = Mesh::from(&t.triangulation.borrow());
    same(&m1, &m2).map_err(|e| format!("refining again with the same bounds: {e}"))?;
    t.refine(params(ratio * 1.25, max_area.map(|a| a * 2.0)));
    let m3 = Mesh::from(&t.triangulation.borrow());
    same(&m2, &m3).map_err(|e| format!("refining again with looser bounds: {e}"))?;
    o.nontrivial = m1.pts.len() > m0.pts.len();
    Ok(())
}
/// a triangulation that meets the bounds and has no encroached constraint stays as it is
fn idle(c: &Case, o: &mut Obs) -> Res {
    let Some(d) = c.build() else {
        o.discard = true;
        return Ok(());
    };
    let mut t = load(&d)?;
    t.triangulate();
    let m0 = Mesh::from(&t.triangulation.borrow());
    let cons = d.constraints();
    let all: Vec<P> = m0.pts.clone();
    if cons.iter().any(|(a, b)| all.iter().any(|p| p != a && p != b && dot(sub(*a, *p), sub(*b, *p)) < 0.0)) {
        o.discard = true;
        return Ok(());
    }
    show(&d);
    classify(&d, o);
    let worst = (0..m0.tris.len()).map(|i| quality_of(m0.tri(i))).fold(0.0, f64::max);
    let large = (0..m0.tris.len()).map(|i| area_of(m0.tri(i))).fold(0.0, f64::max);
    let slack = 1.0 + [c.quality as f64 / 1000.0, 1e-3, 1e-6, 1e-8][c.raw.turn as usize % 4];
    t.refine(params(worst * slack, c.area.map(|_| large * slack)));
    let m1 = Mesh::from(&t.triangulation.borrow());
    o.nontrivial = m0.tris.len() >= 2;
    o.tag_if(m0.tris.len() >= 8, "8 or more triangles");
    same(&m0, &m1).map_err(|e| format!("quality and area were in bounds, yet {e}"))
}
/// a triangle out of bounds makes refinement act
fn acts(c: &Case, o: &mut Obs) -> Res {
    let Some(d) = c.build() else {
        o.discard = true;
        return Ok(());
    };
    let mut t = load(&d)?;
    t.triangulate();
    let m0 = Mesh::from(&t.triangulation.borrow());
    let worst = (0..m0.tris.len()).map(|i| quality_of(m0.tri(i))).fold(0.0, f64::max);
    let large = (0..m0.tris.len()).map(|i| area_of(m0.tri(i))).fold(0.0, f64::max);
    let (mut ratio, mut max_area) = bounds(c, &d);
    // bounds that the mesh only just misses
    if let Some(slack) = [0.0, 0.0, 1e-3, 1e-6, 1e-8].get(c.raw.turn as usize % 8).filter(|s| **s > 0.0) {
        if c.area.is_none() {
            if worst * (1.0 - slack) < 1.42 {
                o.discard = true;
                return Ok(());
            }
            ratio = worst * (1.0 - slack);
        } else {
            (ratio, max_area) = (worst.max(ratio) * 1.01, Some(large * (1.0 - slack)));
        }
        o.tag("bounds just missed");
    }
    let act = worst > ratio || max_area.map_or(false, |a| large > a);
    show(&d);
    classify(&d, o);
    t.refine(params(ratio, max_area));
    let m1 = Mesh::from(&t.triangulation.borrow());
    o.nontrivial = act;
    if act && m1.pts.len() <= m0.pts.len() {
        return Err(format!("worst quality {worst} (ratio {ratio}), largest area {large} ({max_area:?}), yet nothing was inserted"));
    }
    Ok(())
}
pub fn s_dense() -> BoxedStrategy<Case> {
    case(Kind::Collinear, Shape { gabriel: true, ..wide((6, 14), 1, 1, 14, true) })
}
pub fn idle_prop() -> Property {
    Property {
        id: "C21",
        rule: "refinement inserted a vertex the first time (again), or the mesh has at least 2 triangles (idle)",
        assumptions: ASSUME,
        subs: vec![
            Sub::new("again-convex", 1500, 30000, s_convex, |c, _, o| again(c, o)).budget(BUDGET).boxed(),
            Sub::new("again-parts", 600, 15000, s_parts, |c, _, o| again(c, o)).budget(BUDGET).boxed(),
            Sub::new("again-stairs", 300, 10000, s_stairs, |c, _, o| again(c, o)).budget(BUDGET).boxed(),
            Sub::new("again-bays", 100, 3000, s_bays, |c, _, o| again(c, o)).budget(BAY_BUDGET).boxed(),
            Sub::new("idle-convex", 2000, 40000, s_dense, |c, _, o| idle(c, o)).budget(BUDGET).boxed(),
            Sub::new("acts-convex", 1000, 20000, s_convex, |c, _, o| acts(c, o)).budget(BUDGET).boxed(),
        ],
    }
}

/// besides, domains with sharp corners
macro_rules! and_sharp {
    ($prefix:literal, $f:expr) => {{
        let mut v = subs!($prefix, $f);
        v.push(Sub::new(concat!($prefix, "-sharp"), 1500, 20000, s_sharp, |c, _, o| with(c, o, $f)).budget(BUDGET).boxed());
        v
    }};
}
macro_rules! subs {
    ($prefix:literal, $f:expr) => {
        vec![
            Sub::new(concat!($prefix, "-convex"), 1500, 30000, s_convex, |c, _, o| with(c, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-parts"), 1000, 20000, s_parts, |c, _, o| with(c, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-stairs"), 1000, 20000, s_stairs, |c, _, o| with(c, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-tilted-convex"), 800, 15000, || tilted(s_convex()), |c, _, o| with(c, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-tilted-parts"), 800, 15000, || tilted(s_parts()), |c, _, o| with(c, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-tilted-stairs"), 500, 10000, || tilted(s_stairs()), |c, _, o| with(c, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-bays"), 150, 4000, s_bays, |c, _, o| with(c, o, $f)).budget(BAY_BUDGET).boxed(),
            Sub::new(concat!($prefix, "-tangle"), 500, 10000, s_tangle, |c, _, o| with(c, o, $f)).budget(BUDGET).boxed(),
        ]
    };
}
const ASSUME: &[&str] = &[
    "constraints meet at angles of more than 45 degrees (sharp: 5 degrees, with a ratio of at least 0.71 over the sine of the sharpest angle); quality ratio (circumradius over shortest edge) of 1.42 or more; coordinates are dyadic rationals, extent 6 to 64",
    "computed vertices are rounded: bounds, encroachment and the Delaunay condition are compared with a relative tolerance of 1e-9",
];
const RULE: &str = "refinement inserted at least one vertex";
pub fn domain_prop() -> Property {
    Property { id: "C18", rule: RULE, assumptions: ASSUME, subs: and_sharp!("refdomain", keeps_domain) }
}
pub fn elements_prop() -> Property {
    Property { id: "C17", rule: RULE, assumptions: ASSUME, subs: and_sharp!("refelements", keeps_elements) }
}
pub fn bounds_prop() -> Property {
    Property { id: "C19", rule: RULE, assumptions: ASSUME, subs: and_sharp!("bounds", meets_bounds) }
}
pub fn encroach_prop() -> Property {
    Property { id: "C20", rule: RULE, assumptions: ASSUME, subs: subs!("encroach", unencroached) }
}
pub fn delaunay_prop() -> Property {
    Property { id: "C22", rule: RULE, assumptions: ASSUME, subs: and_sharp!("refdelaunay", delaunay) }
}
