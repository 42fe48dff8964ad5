//! Polylines and sets of segments: containment, relative position, boolean operations,
//! splitting, joining.
use crate::c_prim::{grid_between, Grid};
use crate::domain::*;
use crate::engine::*;
use crate::exact::*;
use crate::mesh::key;
use nlsn_delaunay::elements::{edge::*, polyline::*, triangle::*, vertex::*};
use nlsn_delaunay::properties::continence::{BoundaryInclusion, Continence};
use num::rational::BigRational;
use num::{BigInt, Signed, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

const GRIDS: &[(u32, i32, i32)] = &[(4, -1, 1), (8, -3, 1), (16, -4, 2), (64, -6, 2)];

/// any kind of simple polygon
fn polygon() -> BoxedStrategy<Raw> {
    let k = |k: Kind, n: (usize, usize)| raw(k, Shape::new(n, 0, 0, 0), GRIDS, 6);
    prop_oneof![
        2 => k(Kind::Tangle, (3, 10)),
        1 => k(Kind::Star, (4, 10)),
        1 => k(Kind::Stairs, (4, 9)),
        1 => k(Kind::Collinear, (3, 9)),
        1 => k(Kind::Convex, (3, 7)),
        1 => prop_oneof![wheel(16..48), big_star()],
    ]
    .boxed()
}

/// a star of many corners
fn big_star() -> BoxedStrategy<Raw> {
    raw(Kind::Star, Shape::new((20, 48), 0, 0, 0), &[(16, -1, 0), (64, -2, 0)], 6)
}

// ---- C06: points in polygons -----------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct InPoly {
    poly: Raw,
    clockwise: bool,
    /// half grid steps
    probes: Vec<(i32, i32)>,
    #[serde(default)]
    tilt: u32,
}
fn s_inpoly() -> BoxedStrategy<InPoly> {
    (polygon(), prop::bool::ANY, prop::collection::vec((-2..=34i32, -2..=34i32), 4..16))
        .prop_map(|(poly, clockwise, probes)| InPoly { poly, clockwise, probes, tilt: 0 })
        .boxed()
}
fn inside(c: &InPoly, o: &mut Obs) -> Res {
    let Some(d) = c.poly.build() else {
        o.discard = true;
        return Ok(());
    };
    let mut b = d.boundary;
    if c.clockwise {
        b.reverse();
    }
    // what is asked is turned, the answer is that of the grid
    let turned = tilt(c.tilt);
    let place = |p: P| if c.tilt == 0 { p } else { turned(p) };
    let pl = closed(&b.iter().map(|p| place(*p)).collect::<Vec<P>>());
    let open = Polyline::new_opened(pl.vertices.clone()).unwrap();
    let ((x0, x1), (y0, y1)) = extent(&b);
    let step = 2f64.powi(c.poly.pow - 1);
    let mut probes: Vec<P> = c.probes.iter().map(|q| (x0 + q.0 as f64 * step, y0 + q.1 as f64 * step)).collect();
    // across the whole extent, on the lattice of half steps
    for q in &c.probes {
        let f = |lo: f64, hi: f64, k: i32| lo + (((hi - lo) * k as f64 / 32.0) / step).round() * step;
        probes.push((f(x0, x1, q.0), f(y0, y1, q.1)));
    }
    let n = b.len();
    for i in 0..n {
        let (p, q) = (b[i], b[(i + 1) % n]);
        probes.push(p);
        probes.push(((p.0 + q.0) / 2.0, (p.1 + q.1) / 2.0));
        // level with one vertex and plumb with another
        probes.push((p.0, q.1));
        probes.push((p.0, (p.1 + q.1) / 2.0));
        probes.push((p.0, y0 - step));
        probes.push((p.0, y1 + step));
        probes.push((x0 - step, p.1));
    }
    let (mut i, mut u) = (0, 0);
    for p in probes {
        let q = place(p);
        let v = Vertex::new(q.0, q.1);
        let want = match in_polygon(&b, p) {
            1 => {
                i += 1;
                Continence::Inside
            }
            0 => Continence::Boundary,
            _ => {
                u += 1;
                Continence::Outside
            }
        };
        match pl.contains(&v) {
            None => return Err("a closed polyline gives no answer".into()),
            Some(g) if g == want => {}
            Some(g) => return Err(format!("{q:?} in {:?}: got {g:?}, expected {want:?}", pts(&pl))),
        }
        if open.contains(&v).is_some() {
            return Err("an open polyline contains something".into());
        }
    }
    o.nontrivial = i > 0 && u > 0;
    let e = edges_of(&b);
    let turn = if c.clockwise { -1 } else { 1 };
    o.tag_if((0..n).any(|i| orient(e[i].0, e[i].1, e[(i + 1) % n].1) * turn < 0), "nonconvex");
    o.tag_if(e.iter().any(|s| s.0 .0 == s.1 .0), "vertical edges");
    o.tag_if(c.clockwise, "clockwise");
    Ok(())
}
pub fn containment() -> Property {
    Property {
        id: "C06",
        rule: "some of the points asked about are inside and some outside",
        assumptions: &["simple polygons of either orientation on dyadic grids; points of the grid, its half steps, vertices, edge midpoints, points level with vertices"],
        subs: vec![
            Sub::new("contains", 60000, 1500000, s_inpoly, |c, _, o| inside(c, o)).light().boxed(),
            Sub::new("contains-tilted", 60000, 1500000, || (s_inpoly(), s_tilt()).prop_map(|(c, tilt)| InPoly { tilt, ..c }).boxed(), |c, _, o| inside(c, o)).light().boxed(),
        ],
    }
}

// ---- C07: relative position of polylines ------------------------------------------------------
fn r(x: f64) -> BigRational {
    BigRational::from_float(x).unwrap()
}
type R2 = (BigRational, BigRational);
fn r2(p: P) -> R2 {
    (r(p.0), r(p.1))
}
fn cross(a: &R2, b: &R2, c: &R2) -> BigRational {
    (&b.0 - &a.0) * (&c.1 - &a.1) - (&b.1 - &a.1) * (&c.0 - &a.0)
}
/// exact position of a rational point
fn in_polygon_r(poly: &[R2], p: &R2) -> i32 {
    let n = poly.len();
    let mut inside = false;
    for i in 0..n {
        let (a, b) = (&poly[i], &poly[(i + 1) % n]);
        let c = cross(a, b, p);
        let within = |x: &BigRational, u: &BigRational, v: &BigRational| (u <= x && x <= v) || (v <= x && x <= u);
        if c.is_zero() && within(&p.0, &a.0, &b.0) && within(&p.1, &a.1, &b.1) {
            return 0;
        }
        if (a.1 > p.1) != (b.1 > p.1) && ((b.1 > a.1 && c.is_positive()) || (b.1 < a.1 && c.is_negative())) {
            inside = !inside;
        }
    }
    if inside { 1 } else { -1 }
}
/// positions of the pieces of segment s between its meetings with the polygon
fn piece_positions(s: (P, P), poly: &[P]) -> BTreeSet<i32> {
    let (a, b) = (r2(s.0), r2(s.1));
    let d = (&b.0 - &a.0, &b.1 - &a.1);
    let polyr: Vec<R2> = poly.iter().map(|p| r2(*p)).collect();
    let zero = BigRational::zero();
    let one = BigRational::from_integer(BigInt::from(1));
    let two = BigRational::from_integer(BigInt::from(2));
    let mut ts = vec![zero.clone(), one.clone()];
    for e in edges_of(poly) {
        let (c, f) = (r2(e.0), r2(e.1));
        let g = (&f.0 - &c.0, &f.1 - &c.1);
        let den = &d.0 * &g.1 - &d.1 * &g.0;
        let w = (&c.0 - &a.0, &c.1 - &a.1);
        if den.is_zero() {
            // end vertices of a collinear edge
            if (&w.0 * &d.1 - &w.1 * &d.0).is_zero() {
                let dd = &d.0 * &d.0 + &d.1 * &d.1;
                for q in [&c, &f] {
                    ts.push(((&q.0 - &a.0) * &d.0 + (&q.1 - &a.1) * &d.1) / &dd);
                }
            }
        } else {
            ts.push((&w.0 * &g.1 - &w.1 * &g.0) / den);
        }
    }
    ts.retain(|t| *t >= zero && *t <= one);
    ts.sort();
    ts.dedup();
    ts.windows(2)
        .map(|w| {
            let t = (&w[0] + &w[1]) / &two;
            in_polygon_r(&polyr, &(&a.0 + &t * &d.0, &a.1 + &t * &d.1))
        })
        .collect()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TwoPoly {
    a: Raw,
    b: Raw,
    /// place b on a's grid, moved by this many steps
    shift: (i32, i32),
    /// take some vertices of b from a's vertices and edges
    snap: Vec<(u8, u8, u8)>,
    open: bool,
    #[serde(default)]
    tilt: u32,
}
fn s_two(snap: usize) -> BoxedStrategy<TwoPoly> {
    (polygon(), polygon(), (-6..=6i32, -6..=6i32), prop::collection::vec((0..10u8, 0..10u8, 0..3u8), 0..=snap), prop::bool::weighted(0.2))
        .prop_map(|(a, b, shift, snap, open)| TwoPoly { a, b, shift, snap, open, tilt: 0 })
        .boxed()
}
impl TwoPoly {
    fn polys(&self) -> Option<(Vec<P>, Vec<P>)> {
        let a = self.a.build()?.boundary;
        let mut rb = self.b.clone();
        rb.pow = self.a.pow;
        rb.off = self.a.off;
        // b is spread over a's extent
        let mut b = rb.build()?.boundary;
        let s = 2f64.powi(self.a.pow);
        for p in b.iter_mut() {
            *p = (p.0 + self.shift.0 as f64 * s, p.1 + self.shift.1 as f64 * s);
        }
        for (i, j, m) in &self.snap {
            let (n, k) = (b.len(), a.len());
            let q = a[*j as usize % k];
            let q2 = a[(*j as usize + 1) % k];
            b[*i as usize % n] = if *m == 0 { ((q.0 + q2.0) / 2.0, (q.1 + q2.1) / 2.0) } else { q };
        }
        if !simple_polygon(&b) {
            return None;
        }
        Some((a, b))
    }
}
fn relative(c: &TwoPoly, o: &mut Obs) -> Res {
    let Some((a, b)) = c.polys() else {
        o.discard = true;
        return Ok(());
    };
    compare(&a, &b, c.open, c.tilt, o)
}
/// chords of a polygon: chains from corner or middle of a side to corner or middle of a side
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chords {
    a: Raw,
    at: Vec<(u8, bool)>,
    open: bool,
    tilt: u32,
}
fn s_chords() -> BoxedStrategy<Chords> {
    (polygon(), prop::collection::vec((0..24u8, prop::bool::weighted(0.3)), 2..=4), prop::bool::weighted(0.7), prop_oneof![3 => Just(0), 1 => s_tilt()])
        .prop_map(|(a, at, open, tilt)| Chords { a, at, open, tilt })
        .boxed()
}
fn chords(c: &Chords, o: &mut Obs) -> Res {
    let Some(a) = c.a.build().map(|d| d.boundary) else {
        o.discard = true;
        return Ok(());
    };
    let n = a.len();
    let b: Vec<P> = c
        .at
        .iter()
        .map(|(i, middle)| {
            let (p, q) = (a[*i as usize % n], a[(*i as usize + 1) % n]);
            if *middle { ((p.0 + q.0) / 2.0, (p.1 + q.1) / 2.0) } else { p }
        })
        .collect();
    let simple = if c.open {
        let es: Vec<(P, P)> = b.windows(2).map(|w| (w[0], w[1])).collect();
        es.iter().all(|e| e.0 != e.1) && (0..es.len()).all(|i| (0..i).all(|j| segs_compatible(es[i], es[j]) && (i == j + 1 || !segs_touch(es[i].0, es[i].1, es[j].0, es[j].1))))
    } else {
        simple_polygon(&b)
    };
    if !simple {
        o.discard = true;
        return Ok(());
    }
    compare(&a, &b, c.open, c.tilt, o)
}
fn compare(a: &[P], b: &[P], open: bool, turn: u32, o: &mut Obs) -> Res {
    let turned = tilt(turn);
    let place = |p: &P| if turn == 0 { *p } else { turned(*p) };
    let pa = closed(&a.iter().map(place).collect::<Vec<P>>());
    let bv: Vec<Rc<Vertex>> = b.iter().map(|p| vx(place(p))).collect();
    let mut es = edges_of(b);
    let pb = if open {
        es.pop();
        Rc::new(Polyline::new_opened(bv).unwrap())
    } else {
        Rc::new(Polyline::new_closed(bv).unwrap())
    };
    let mut pos: BTreeSet<i32> = BTreeSet::new();
    for e in &es {
        pos.extend(piece_positions(*e, a));
    }
    let touch = es.iter().any(|e| seg_touches_poly(*e, a));
    let want = match (pos.contains(&1), pos.contains(&-1)) {
        (true, true) => None,
        (i, u) => Some((
            if i { Continence::Inside } else if u { Continence::Outside } else { Continence::Boundary },
            if touch { BoundaryInclusion::Closed } else { BoundaryInclusion::Open },
        )),
    };
    o.tag(match &want {
        None => "crossing",
        Some((Continence::Inside, BoundaryInclusion::Open)) => "inside, apart",
        Some((Continence::Inside, _)) => "inside, touching",
        Some((Continence::Outside, BoundaryInclusion::Open)) => "outside, apart",
        Some((Continence::Outside, _)) => "outside, touching",
        Some((Continence::Boundary, _)) => "along the boundary",
    });
    o.nontrivial = touch;
    o.tag_if(open, "open polyline");
    let got = Polyline::continence(&pa, &pb);
    if got != want {
        return Err(format!("position of {:?} (open: {}) in {:?}: got {got:?}, expected {want:?}", pts(&pb), open, pts(&pa)));
    }
    let oa = Polyline::new_opened(pa.vertices.clone()).unwrap();
    if Polyline::continence(&oa, &pb).is_some() {
        return Err("position in an open polyline".into());
    }
    Ok(())
}
fn s_inner() -> BoxedStrategy<TwoPoly> {
    // the second polygon much smaller than the first
    (polygon(), raw(Kind::Tangle, Shape::new((3, 6), 0, 0, 0), &[(3, 0, 0), (6, 0, 0)], 0), (0..=40i32, 0..=40i32), prop::collection::vec((0..10u8, 0..10u8, 0..3u8), 0..=2), prop::bool::weighted(0.2))
        .prop_map(|(a, b, shift, snap, open)| TwoPoly { a, b, shift, snap, open, tilt: 0 })
        .boxed()
}
pub fn position() -> Property {
    Property {
        id: "C07",
        rule: "the two polylines touch or cross",
        assumptions: &["simple polygons on a common dyadic grid; the second may be open, and may have vertices on the edges and vertices of the first"],
        subs: vec![
            Sub::new("position", 12000, 200000, || s_two(0), |c, _, o| relative(c, o)).light().boxed(),
            Sub::new("position-touching", 12000, 200000, || s_two(4), |c, _, o| relative(c, o)).light().boxed(),
            Sub::new("position-tilted", 12000, 200000, || (prop_oneof![s_two(0), s_two(4), s_inner()], s_tilt()).prop_map(|(c, tilt)| TwoPoly { tilt, ..c }).boxed(), |c, _, o| relative(c, o)).light().boxed(),
            Sub::new("position-chords", 16000, 300000, s_chords, |c, _, o| chords(c, o)).light().boxed(),
            Sub::new("position-inner", 12000, 200000, s_inner, |c, _, o| relative(c, o)).light().boxed(),
        ],
    }
}

// ---- C30: where polylines meet -----------------------------------------------------------------
fn meetings(c: &TwoPoly, o: &mut Obs) -> Res {
    let Some((a, b)) = c.polys() else {
        o.discard = true;
        return Ok(());
    };
    let turned = tilt(c.tilt);
    let place = |p: &P| if c.tilt == 0 { *p } else { turned(*p) };
    let pa = closed(&a.iter().map(place).collect::<Vec<P>>());
    let bv: Vec<Rc<Vertex>> = b.iter().map(|p| vx(place(p))).collect();
    let (mut ea, mut eb) = (edges_of(&a), edges_of(&b));
    let pb = if c.open {
        eb.pop();
        Rc::new(Polyline::new_opened(bv).unwrap())
    } else {
        Rc::new(Polyline::new_closed(bv).unwrap())
    };
    let scale = a.iter().chain(&b).map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
    let factor = if c.tilt == 0 { 1.0 } else { dist(turned((1.0, 0.0)), turned((0.0, 0.0))) };
    let eps = 1e-9 * scale * factor;
    let mut want: Vec<P> = vec![];
    let mut along = false;
    for e in &ea {
        for f in &eb {
            if !segs_touch(e.0, e.1, f.0, f.1) {
                continue;
            }
            let p = match line_crossing(e.0, e.1, f.0, f.1) {
                Some(p) => p,
                None => {
                    // a common end, or a common stretch
                    let shared: Vec<P> = [e.0, e.1].into_iter().filter(|p| on_segment(f.0, f.1, *p)).chain([f.0, f.1].into_iter().filter(|p| on_segment(e.0, e.1, *p))).collect();
                    if shared.iter().any(|p| *p != shared[0]) {
                        along = true;
                        continue;
                    }
                    shared[0]
                }
            };
            let p = place(&p);
            if !want.iter().any(|w| dist(*w, p) <= eps) {
                want.push(p);
            }
        }
    }
    o.tag_if(along, "common stretches");
    o.tag_if(want.len() > 2, "three or more points");
    o.tag_if(c.open, "open polyline");
    o.nontrivial = along || !want.is_empty();
    for e in ea.iter_mut().chain(eb.iter_mut()) {
        *e = (place(&e.0), place(&e.1));
    }
    let ends: Vec<P> = ea.iter().chain(&eb).flat_map(|e| [e.0, e.1]).collect();
    for (x, y) in [(&pa, &pb), (&pb, &pa)] {
        let got: Vec<P> = Polyline::intersection_vertices(x, y).iter().map(|v| (v.x, v.y)).collect();
        let show = || format!("where {:?} and {:?} (open: {}) meet", pts(x), pts(y), c.open);
        for g in &got {
            let on = |es: &[(P, P)]| es.iter().any(|e| crate::mesh::seg_dist(*g, *e) <= eps);
            if !on(&ea) || !on(&eb) {
                return Err(format!("{}: {g:?} is not on both", show()));
            }
        }
        if let Some(w) = want.iter().find(|w| !got.iter().any(|g| dist(**w, *g) <= eps)) {
            return Err(format!("{}: {w:?} is missing from {got:?}", show()));
        }
        if along && got.is_empty() {
            return Err(format!("{}: nothing is found", show()));
        }
        if !along && c.tilt == 0 && got.len() != want.len() {
            return Err(format!("{}: {got:?} for {want:?}", show()));
        }
        // ends that are met are found as they are
        if let Some(w) = want.iter().find(|w| ends.contains(w) && !got.contains(w)) {
            if c.tilt == 0 {
                return Err(format!("{}: the end vertex {w:?} is not found exactly", show()));
            }
        }
    }
    Ok(())
}
pub fn meeting_points() -> Property {
    Property {
        id: "C30",
        rule: "the two polylines have a point in common",
        assumptions: &["simple polygons on a common dyadic grid; the second may be open, and may have vertices on the edges and vertices of the first"],
        subs: vec![
            Sub::new("meet", 20000, 400000, || s_two(0), |c, _, o| meetings(c, o)).light().boxed(),
            Sub::new("meet-touching", 20000, 400000, || s_two(4), |c, _, o| meetings(c, o)).light().boxed(),
            Sub::new("meet-inner", 12000, 200000, s_inner, |c, _, o| meetings(c, o)).light().boxed(),
            Sub::new("meet-tilted", 20000, 400000, || (prop_oneof![s_two(0), s_two(4), s_inner()], s_tilt()).prop_map(|(c, tilt)| TwoPoly { tilt, ..c }).boxed(), |c, _, o| meetings(c, o)).light().boxed(),
        ],
    }
}

// ---- C09: segments ---------------------------------------------------------------------------
fn dist(a: P, b: P) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}
fn pe(e: &Edge) -> (P, P) {
    ((e.v1.x, e.v1.y), (e.v2.x, e.v2.y))
}
fn kk(s: (P, P)) -> ((u64, u64), (u64, u64)) {
    (key(s.0), key(s.1))
}
/// segments from the points; those that overlap another one along a line are left out
fn segs_of(p: &[P]) -> Vec<(P, P)> {
    let mut out: Vec<(P, P)> = vec![];
    for c in p.chunks(2) {
        if c.len() < 2 || c[0] == c[1] {
            continue;
        }
        let s = (c[0], c[1]);
        if out.iter().all(|t| !(line_crossing(s.0, s.1, t.0, t.1).is_none() && segs_touch(s.0, s.1, t.0, t.1))) {
            out.push(s);
        }
    }
    out
}
fn split(g: &Grid, turn: u32, o: &mut Obs) -> Res {
    let segs: Vec<(P, P)> = g.pts().chunks(2).filter(|c| c.len() == 2 && c[0] != c[1]).map(|c| (c[0], c[1])).collect();
    if segs.is_empty() {
        o.discard = true;
        return Ok(());
    }
    // where each segment must be cut
    let mut cuts: Vec<Vec<P>> = vec![];
    for (i, s) in segs.iter().enumerate() {
        let mut c = vec![s.0, s.1];
        for (j, t) in segs.iter().enumerate() {
            if i != j && segs_touch(s.0, s.1, t.0, t.1) {
                match line_crossing(s.0, s.1, t.0, t.1) {
                    Some(x) => c.push(x),
                    None => {
                        o.tag("overlapping segments");
                        c.extend([t.0, t.1].iter().filter(|q| on_segment(s.0, s.1, **q)));
                    }
                }
            }
        }
        c.sort_by(|a, b| dist(s.0, *a).partial_cmp(&dist(s.0, *b)).unwrap());
        // equal meetings are one; nearly equal ones are too close to call
        let mut u: Vec<P> = vec![];
        for q in c {
            match u.last() {
                Some(l) if dist(*l, q) < 1e-11 => {}
                Some(l) if dist(*l, q) < 1e-7 => {
                    o.discard = true;
                    return Ok(());
                }
                _ => u.push(q),
            }
        }
        cuts.push(u);
    }
    o.nontrivial = cuts.iter().any(|c| c.len() > 2);
    o.tag_if(cuts.iter().any(|c| c.len() > 4), "several cuts on a segment");
    let mut tol = 1e-9;
    let mut segs = segs;
    if turn > 0 {
        // no near misses, which rounding might turn into meetings
        let scale = segs.iter().flat_map(|s| [s.0, s.1]).map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
        tol = 1e-9 * scale;
        let near = |p: P| segs.iter().any(|s| !on_segment(s.0, s.1, p) && crate::mesh::seg_dist(p, *s) < 1e-4 * scale);
        // and no crossings at a small angle, which rounding moves far
        let sine = |s: &(P, P), t: &(P, P)| {
            let (d, e) = ((s.1 .0 - s.0 .0, s.1 .1 - s.0 .1), (t.1 .0 - t.0 .0, t.1 .1 - t.0 .1));
            (d.0 * e.1 - d.1 * e.0).abs() / d.0.hypot(d.1) / e.0.hypot(e.1)
        };
        let flat = segs.iter().any(|s| segs.iter().any(|t| line_crossing(s.0, s.1, t.0, t.1).is_some() && sine(s, t) < 0.1));
        if flat || segs.iter().any(|s| near(s.0) || near(s.1)) {
            o.discard = true;
            return Ok(());
        }
        let turned = tilt(turn);
        tol *= dist(turned((1.0, 0.0)), (0.0, 0.0));
        for c in cuts.iter_mut() {
            *c = c.iter().map(|p| turned(*p)).collect();
        }
        segs = segs.iter().map(|s| (turned(s.0), turned(s.1))).collect();
    }
    let vs: Vec<_> = segs.iter().map(|s| (vx(s.0), vx(s.1))).collect();
    let out = split_intersections(&vs);
    let mut want: Vec<(P, P)> = cuts.iter().flat_map(|c| c.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>()).collect();
    let total = want.len();
    for (a, b) in &out {
        let (a, b) = ((a.x, a.y), (b.x, b.y));
        match want.iter().position(|w| dist(w.0, a) < tol && dist(w.1, b) < tol) {
            Some(i) => {
                want.remove(i);
            }
            None => return Err(format!("{segs:?} were split into a piece {a:?}-{b:?} that does not belong")),
        }
    }
    if let Some(w) = want.first() {
        return Err(format!("{segs:?} were split without the piece {:?}-{:?} ({} of {} pieces)", w.0, w.1, out.len(), total));
    }
    Ok(())
}
/// segments of a few lines, most of them overlapping
fn s_overlapping() -> BoxedStrategy<Grid> {
    (grid_between(3, 6), prop::collection::vec((0..3usize, -6..=6i32, 1..=6i32), 2..6))
        .prop_map(|(mut g, segs)| {
            let p = std::mem::take(&mut g.p);
            let d = ((p[1].0 - p[0].0) % 7, (p[1].1 - p[0].1) % 7);
            for (l, k, m) in segs {
                let (a, d) = if l < 2 { (p[0], d) } else { (p[2], (-d.1, d.0)) };
                g.p.push((a.0 + k * d.0, a.1 + k * d.1));
                g.p.push((a.0 + (k + m) * d.0, a.1 + (k + m) * d.1));
            }
            g
        })
        .boxed()
}
/// several segments through one point, and a few others
fn s_concurrent() -> BoxedStrategy<Grid> {
    (grid_between(1, 7), prop::collection::vec(((-9..=9i32, -9..=9i32), 0..=5i32, 1..=5i32), 2..5))
        .prop_map(|(mut g, dirs)| {
            let c = g.p.remove(0);
            for (d, k, l) in dirs {
                g.p.insert(0, (c.0 - k * d.0, c.1 - k * d.1));
                g.p.insert(1, (c.0 + l * d.0, c.1 + l * d.1));
            }
            g
        })
        .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chains {
    g: Grid,
    /// number of cuts of each segment, a power of two
    parts: Vec<u32>,
    drop: Option<u32>,
}
fn s_chains() -> BoxedStrategy<Chains> {
    (grid_between(2, 12), prop::collection::vec(0..3u32, 6), prop::option::of(0..40u32))
        .prop_map(|(g, parts, drop)| Chains { g, parts, drop })
        .boxed()
}
fn cut(s: (P, P), log: u32) -> Vec<(P, P)> {
    let mut v = vec![s];
    for _ in 0..log {
        v = v
            .into_iter()
            .flat_map(|(a, b)| {
                let m = ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0);
                [(a, m), (m, b)]
            })
            .collect();
    }
    v
}
/// maximal segments: none continues another straight on
fn maximal(p: &[P]) -> Vec<(P, P)> {
    let mut out: Vec<(P, P)> = vec![];
    for s in segs_of(p) {
        let straight = |a: (P, P), b: (P, P)| a.1 == b.0 && orient(a.0, a.1, b.1) == 0;
        if out.iter().all(|t| !straight(s, *t) && !straight(*t, s)) {
            out.push(s);
        }
    }
    out
}
fn join(c: &Chains, o: &mut Obs) -> Res {
    let segs = maximal(&c.g.pts());
    if segs.is_empty() {
        o.discard = true;
        return Ok(());
    }
    let pieces: Vec<Vec<(P, P)>> = segs.iter().enumerate().map(|(i, s)| cut(*s, c.parts[i % c.parts.len()])).collect();
    // a cut must not continue into another segment that starts or ends on it
    for (i, ps) in pieces.iter().enumerate() {
        for (j, qs) in pieces.iter().enumerate() {
            if i != j && ps.iter().any(|p| qs.iter().any(|q| p.1 == q.0 && orient(p.0, p.1, q.1) == 0)) {
                o.discard = true;
                return Ok(());
            }
        }
    }
    o.nontrivial = segs.len() >= 2 && pieces.iter().any(|p| p.len() > 1);
    let set: HashSet<Rc<Edge>> = pieces.concat().iter().map(|s| edge(*s)).collect();
    let got: BTreeSet<_> = Edge::arrange(&set).iter().map(|e| kk(pe(e))).collect();
    let want: BTreeSet<_> = segs.iter().map(|s| kk(*s)).collect();
    if got != want {
        return Err(format!("the pieces of {segs:?} were joined into {:?}", Edge::arrange(&set).iter().map(|e| pe(e)).collect::<Vec<_>>()));
    }
    // back again
    for (s, ps) in segs.iter().zip(&pieces) {
        let got = Edge::decompose(&set, &edge(*s)).map(|v| v.iter().map(|e| kk(pe(e))).collect::<Vec<_>>());
        let want: Vec<_> = ps.iter().map(|s| kk(*s)).collect();
        if got.as_ref() != Some(&want) {
            return Err(format!("{s:?} was decomposed into {:?}, expected {ps:?}", Edge::decompose(&set, &edge(*s)).map(|v| v.iter().map(|e| pe(e)).collect::<Vec<_>>())));
        }
        if Edge::decompose(&set, &edge((s.1, s.0))).is_some() && ps.iter().all(|p| !set.contains(&edge((p.1, p.0)))) {
            return Err(format!("the reverse of {s:?} was decomposed into forward pieces"));
        }
    }
    // pieces that run the other way are no help and no hindrance
    let all = pieces.concat();
    let back: Vec<(P, P)> = all.iter().enumerate().filter(|(i, _)| c.drop.unwrap_or(0) >> (i % 6) & 1 == 1).map(|(_, p)| (p.1, p.0)).collect();
    if !back.is_empty() {
        let mut set = set.clone();
        set.extend(back.iter().map(|s| edge(*s)));
        for (s, ps) in segs.iter().zip(&pieces) {
            let got: Option<Vec<_>> = Edge::decompose(&set, &edge(*s)).map(|v| v.iter().map(|e| kk(pe(e))).collect());
            if got != Some(ps.iter().map(|s| kk(*s)).collect::<Vec<_>>()) {
                return Err(format!("{s:?} was decomposed into {:?}, expected {ps:?}, among reversed pieces", Edge::decompose(&set, &edge(*s)).map(|v| v.iter().map(|e| pe(e)).collect::<Vec<_>>())));
            }
        }
        o.tag("reversed pieces");
    }
    if let Some(d) = c.drop {
        let lost = all[d as usize % all.len()];
        let mut set = set;
        set.remove(&edge(lost));
        let i = pieces.iter().position(|p| p.contains(&lost)).unwrap();
        if let Some(v) = Edge::decompose(&set, &edge(segs[i])) {
            return Err(format!("{:?} without {lost:?} was decomposed into {:?}", segs[i], v.iter().map(|e| pe(e)).collect::<Vec<_>>()));
        }
    }
    // points of edges
    for s in &segs {
        for q in pieces.concat().iter().map(|p| p.1) {
            if edge(*s).contains(&Vertex::new(q.0, q.1)) != on_segment(s.0, s.1, q) {
                return Err(format!("{q:?} on {s:?}: expected {}", on_segment(s.0, s.1, q)));
            }
        }
    }
    Ok(())
}
pub fn segments() -> Property {
    Property {
        id: "C09",
        rule: "some segment is cut, or consists of several pieces",
        assumptions: &["joining: segments that overlap another one along a line are left out; splitting: meetings closer than 1e-7 but not equal are left out"],
        subs: vec![
            Sub::new("split", 60000, 1200000, || grid_between(4, 14), |g: &Grid, _, o| split(g, 0, o)).budget(2_000_000).boxed(),
            Sub::new("split-concurrent", 40000, 800000, s_concurrent, |g: &Grid, _, o| split(g, 0, o)).budget(2_000_000).boxed(),
            Sub::new("split-overlapping", 30000, 600000, s_overlapping, |g: &Grid, _, o| split(g, 0, o)).budget(2_000_000).boxed(),
            Sub::new("split-tilted", 60000, 1200000, || (prop_oneof![grid_between(4, 10), s_concurrent(), s_overlapping()], s_tilt()).boxed(), |c: &(Grid, u32), _, o| split(&c.0, c.1, o)).budget(2_000_000).boxed(),
            Sub::new("join", 30000, 600000, s_chains, |c: &Chains, _, o| join(c, o)).budget(2_000_000).boxed(),
        ],
    }
}

// ---- C15: outlines ---------------------------------------------------------------------------
fn cycle(p: &[P]) -> Vec<(u64, u64)> {
    let k: Vec<_> = p.iter().map(|q| key(*q)).collect();
    let m = (0..k.len()).min_by_key(|i| k[*i]).unwrap_or(0);
    let mut k2 = k.clone();
    k2.rotate_left(m);
    k2
}
fn outline(c: &(Raw, Option<u32>), o: &mut Obs) -> Res {
    let Some(d) = c.0.build() else {
        o.discard = true;
        return Ok(());
    };
    let b = d.boundary;
    let n = b.len();
    o.nontrivial = true;
    let mut set: HashSet<Rc<Edge>> = edges_of(&b).iter().map(|s| edge(*s)).collect();
    match Polyline::arrange(&set) {
        None => return Err(format!("the edges of {b:?} were not arranged")),
        Some(p) if p.opened || cycle(&pts(&p)) != cycle(&b) => return Err(format!("the edges of {b:?} were arranged into {:?}", pts(&p))),
        _ => {}
    }
    if let Some(i) = c.1 {
        let (s, t) = edges_of(&b)[i as usize % n];
        set.remove(&edge((s, t)));
        if let Some(p) = Polyline::arrange(&set) {
            return Err(format!("an open chain of edges was closed: {:?}", pts(&p)));
        }
        // two loops
        let far = extent(&b).0 .1 + 1.0;
        let tri = [(far, 0.0), (far + 1.0, 0.0), (far, 1.0)];
        set.insert(edge((s, t)));
        set.extend(edges_of(&tri).iter().map(|s| edge(*s)));
        if let Some(p) = Polyline::arrange(&set) {
            return Err(format!("two loops became one outline: {:?}", pts(&p)));
        }
    }
    if Polyline::arrange(&HashSet::new()).is_some() {
        return Err("no edges became an outline".into());
    }
    // vertices in the middle of straight sides go, corners stay
    let corners: Vec<P> = (0..n).filter(|i| orient(b[(i + n - 1) % n], b[*i], b[(i + 1) % n]) != 0).map(|i| b[i]).collect();
    o.tag_if(corners.len() < n, "straight vertices");
    let m = pts(&closed(&b).minified_noncolinear());
    if cycle(&m) != cycle(&corners) {
        return Err(format!("{b:?} was minified to {m:?}, expected {corners:?}"));
    }
    Ok(())
}
/// cells of a lattice, each of two triangles; a bit per triangle
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Patch {
    w: usize,
    bits: Vec<(bool, bool, bool)>,
}
fn s_patch() -> BoxedStrategy<Patch> {
    (2..=4usize, prop::bool::ANY)
        .prop_flat_map(|(w, many)| {
            let p = if many { 0.9 } else { 0.4 };
            let t = prop::bool::weighted(p);
            prop::collection::vec((t.clone(), t, prop::bool::ANY), w * w).prop_map(move |bits| Patch { w, bits })
        })
        .boxed()
}
fn hull_of(c: &Patch, o: &mut Obs) -> Res {
    let mut tris: Vec<[P; 3]> = vec![];
    for (i, (t1, t2, diag)) in c.bits.iter().enumerate() {
        let (x, y) = ((i % c.w) as f64, (i / c.w) as f64);
        let (a, b, d, e) = ((x, y), (x + 1.0, y), (x + 1.0, y + 1.0), (x, y + 1.0));
        let (u, v) = if *diag { ([a, b, d], [a, d, e]) } else { ([a, b, e], [b, d, e]) };
        if *t1 {
            tris.push(u);
        }
        if *t2 {
            tris.push(v);
        }
    }
    // directed border edges
    let all: BTreeSet<_> = tris.iter().flat_map(|t| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).map(kk).collect();
    let border: Vec<_> = all.iter().filter(|e| !all.contains(&(e.1, e.0))).collect();
    let next: BTreeMap<_, _> = border.iter().map(|e| (e.0, e.1)).collect();
    let mut want: Option<Vec<(u64, u64)>> = None;
    if !border.is_empty() && next.len() == border.len() {
        let mut loop_ = vec![border[0].0];
        while let Some(n) = next.get(loop_.last().unwrap()) {
            if *n == loop_[0] {
                break;
            }
            loop_.push(*n);
        }
        if loop_.len() == border.len() {
            let m = (0..loop_.len()).min_by_key(|i| loop_[*i]).unwrap();
            loop_.rotate_left(m);
            want = Some(loop_);
        }
    }
    o.nontrivial = tris.len() >= 3;
    o.tag(if want.is_some() { "one outline" } else { "no single outline" });
    let set: HashSet<Rc<Triangle>> = tris.iter().map(|t| Rc::new(Triangle::new(&vx(t[0]), &vx(t[1]), &vx(t[2])))).collect();
    let got = Polyline::triangles_hull(&set);
    let g = got.as_ref().map(|p| cycle(&pts(p)));
    if g != want {
        return Err(format!("outline of the triangles {tris:?}: got {:?}, expected one: {}", got.map(|p| pts(&p)), want.is_some()));
    }
    Ok(())
}
pub fn outlines() -> Property {
    Property {
        id: "C15",
        rule: "the edges bound a polygon; the outline is asked of 3 or more triangles",
        assumptions: &["edges and triangles do not overlap; straight vertices are exactly straight (dyadic coordinates)"],
        subs: vec![
            Sub::new("outline", 20000, 400000, || (polygon(), prop::option::of(0..20u32)).boxed(), |c, _, o| outline(c, o)).budget(1_000_000).boxed(),
            Sub::new("triangles", 20000, 400000, s_patch, |c, _, o| hull_of(c, o)).budget(1_000_000).boxed(),
        ],
    }
}
