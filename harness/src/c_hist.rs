//! Histories of insertions into a triangulator, against an exact model of the accepted elements;
//! and the triangulations that such histories end in.
use crate::c_mesh::show;
use crate::domain::*;
use crate::engine::*;
use crate::exact::*;
use crate::mesh::*;
use nlsn_delaunay::elements::{edge::Edge, polyline::Polyline, vertex::Vertex};
use nlsn_delaunay::planar::triangulator::Triangulator;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use std::rc::Rc;

pub const BUDGET: u64 = 40_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Verts(Vec<G>),
    Segs(Vec<(G, G)>),
    Hole(Vec<G>),
    Triangulate,
    /// segments between accepted points, by index
    Join(Vec<(u16, u16)>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub raw: Raw,
    /// with `true`: parts of it that would be refused are left out first
    pub ops: Vec<(bool, Op)>,
    /// segments run along the eight compass directions only, so that crossings are exact
    pub compass: bool,
}

fn compass(a: G, b: G) -> (G, G) {
    let (dx, dy) = (b.0 as i64 - a.0 as i64, b.1 as i64 - a.1 as i64);
    let (x, y) = if dx.abs() > 2 * dy.abs() {
        (dx, 0)
    } else if dy.abs() > 2 * dx.abs() {
        (0, dy)
    } else {
        let m = dx.abs().min(dy.abs());
        (m * dx.signum(), m * dy.signum())
    };
    (a, ((a.0 as i64 + x) as u32, (a.1 as i64 + y) as u32))
}

#[derive(Clone, Default)]
struct Model {
    boundary: Vec<P>,
    holes: Vec<Vec<P>>,
    /// accepted segments as given
    segs: Vec<(P, P)>,
    verts: Vec<P>,
    /// vertices that came to lie on segments
    knots: Vec<P>,
}
/// what a call is expected to answer: the refused elements
enum Want {
    Ok,
    Verts(BTreeSet<K>),
    Segs(BTreeSet<(K, K)>),
}

fn cross_point(s: (P, P), t: (P, P)) -> P {
    let d = |a: P, b: P| (b.0 - a.0, b.1 - a.1);
    let x = |a: P, b: P| a.0 * b.1 - a.1 * b.0;
    let (u, v, w) = (d(s.0, s.1), d(t.0, t.1), d(s.0, t.0));
    let k = x(w, v) / x(u, v);
    // exact crossings have small denominators
    let snap = |c: f64| if (c * 64.0 - (c * 64.0).round()).abs() < 1e-9 { (c * 64.0).round() / 64.0 } else { c };
    (snap(s.0 .0 + k * u.0), snap(s.0 .1 + k * u.1))
}
/// is the crossing a point that floating point arithmetic finds exactly
fn exact_crossing(s: (P, P), t: (P, P)) -> bool {
    let x = cross_point(s, t);
    orient(s.0, s.1, x) == 0
        && orient(t.0, t.1, x) == 0
        && [(s, t), (t, s), ((s.1, s.0), t), (t, (s.1, s.0))].iter().all(|(a, b)| {
            let i = nlsn_delaunay::properties::intersection::intersection(&vx(a.0), &vx(a.1), &vx(b.0), &vx(b.1));
            i.map_or(false, |v| (v.x, v.y) == x)
        })
}
fn near(a: P, b: P) -> bool {
    (a.0 - b.0).abs() < 1e-9 && (a.1 - b.1).abs() < 1e-9
}
fn parallel(s: (P, P), t: (P, P)) -> bool {
    (s.1 .0 - s.0 .0) * (t.1 .1 - t.0 .1) == (s.1 .1 - s.0 .1) * (t.1 .0 - t.0 .0)
}
/// share more than a point
fn overlap(s: (P, P), t: (P, P)) -> bool {
    parallel(s, t) && segs_touch(s.0, s.1, t.0, t.1) && {
        let mut p = vec![s.0, s.1, t.0, t.1];
        p.sort_by(|a, b| a.partial_cmp(b).unwrap());
        // touching at one end only: the middle two coincide
        p[1] != p[2]
    }
}

impl Model {
    fn hole_touches_seg(h: &[P], s: (P, P)) -> bool {
        seg_touches_poly(s, h) || in_polygon(h, s.0) >= 0
    }
    /// can the expected pieces be told apart and computed soundly in floating point?
    fn tellable(segs: &[(P, P)], points: &[P]) -> bool {
        let mut rounded: Vec<(P, usize, usize)> = vec![];
        for i in 0..segs.len() {
            for j in 0..i {
                if overlap(segs[i], segs[j]) {
                    return false;
                }
                if segs_cross_properly(segs[i].0, segs[i].1, segs[j].0, segs[j].1) {
                    let x = cross_point(segs[i], segs[j]);
                    if !exact_crossing(segs[i], segs[j]) {
                        rounded.push((x, i, j));
                    }
                }
            }
        }
        for (k, (x, i, j)) in rounded.iter().enumerate() {
            if rounded.iter().take(k).any(|(y, _, _)| near(*x, *y)) || points.iter().any(|p| near(*p, *x)) {
                return false;
            }
            for s in [i, j] {
                let s = segs[*s];
                // a rounded end makes it hard to see what else lies on the segment
                if points.iter().any(|p| *p != s.0 && *p != s.1 && on_segment(s.0, s.1, *p)) {
                    return false;
                }
            }
        }
        true
    }
    /// does a border edge pass through (or by) a rounded crossing
    fn grazes(&self, poly: &[P]) -> bool {
        for i in 0..self.segs.len() {
            for j in 0..i {
                let (s, t) = (self.segs[i], self.segs[j]);
                if segs_cross_properly(s.0, s.1, t.0, t.1) {
                    let x = cross_point(s, t);
                    for (a, b) in edges_of(poly) {
                        let (u, w) = ((b.0 - a.0, b.1 - a.1), (x.0 - a.0, x.1 - a.1));
                        if (u.0 * w.1 - u.1 * w.0).abs() < 1e-9 && !exact_crossing(s, t) {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }
    fn all_points(&self) -> Vec<P> {
        let mut v: Vec<P> = self.segs.iter().flat_map(|s| [s.0, s.1]).collect();
        v.extend(&self.verts);
        v.extend(&self.knots);
        v
    }
    fn pieces(&self) -> Vec<(P, P)> {
        let pts = self.all_points();
        let mut out: Vec<(P, P)> = vec![];
        for (i, s) in self.segs.iter().enumerate() {
            let mut on: Vec<P> = pts.iter().filter(|p| on_segment(s.0, s.1, **p)).cloned().collect();
            for (j, t) in self.segs.iter().enumerate() {
                if i != j && segs_cross_properly(s.0, s.1, t.0, t.1) {
                    on.push(cross_point(*s, *t));
                }
            }
            let d = (s.1 .0 - s.0 .0, s.1 .1 - s.0 .1);
            let f = |p: &P| (p.0 - s.0 .0) * d.0 + (p.1 - s.0 .1) * d.1;
            on.sort_by(|a, b| f(a).partial_cmp(&f(b)).unwrap());
            on.dedup_by(|a, b| near(*a, *b));
            out.extend(on.windows(2).map(|w| (w[0], w[1])));
        }
        out
    }
    fn vertex_fits(&self, p: P) -> bool {
        in_polygon(&self.boundary, p) > 0 && self.holes.iter().all(|h| in_polygon(h, p) < 0)
    }
    fn segment_fits(&self, s: (P, P)) -> bool {
        in_polygon(&self.boundary, s.0) > 0
            && !seg_touches_poly(s, &self.boundary)
            && !self.holes.iter().any(|h| Model::hole_touches_seg(h, s))
    }
    fn verts_op(&mut self, vs: &[P]) -> Want {
        let bad: BTreeSet<K> = vs
            .iter()
            .filter(|p| !self.vertex_fits(**p))
            .map(|p| key(*p))
            .collect();
        if !bad.is_empty() {
            return Want::Verts(bad);
        }
        for p in vs {
            if self.segs.iter().any(|s| on_segment(s.0, s.1, *p)) {
                self.knots.push(*p);
            } else if !self.verts.contains(p) {
                self.verts.push(*p);
            }
        }
        Want::Ok
    }
    fn segs_op(&mut self, ss: &[(P, P)]) -> Want {
        let bad: BTreeSet<(K, K)> = ss
            .iter()
            .filter(|s| !self.segment_fits(**s))
            .map(|s| (key(s.0), key(s.1)))
            .collect();
        if !bad.is_empty() {
            return Want::Segs(bad);
        }
        self.segs.extend(ss);
        let (on, off): (Vec<P>, Vec<P>) =
            self.verts.iter().partition(|p| self.segs.iter().any(|s| on_segment(s.0, s.1, **p)));
        self.verts = off;
        self.knots.extend(on);
        Want::Ok
    }
    fn hole_op(&mut self, h: &[P]) -> Want {
        let mut bad = BTreeSet::new();
        let inside = h.iter().all(|p| in_polygon(&self.boundary, *p) > 0) && !polys_touch(h, &self.boundary);
        if !inside {
            bad.extend(self.boundary.iter().map(|p| key(*p)));
        }
        for o in &self.holes {
            let apart = !polys_touch(h, o)
                && h.iter().all(|p| in_polygon(o, *p) < 0)
                && o.iter().all(|p| in_polygon(h, *p) < 0);
            if !apart {
                bad.extend(o.iter().map(|p| key(*p)));
            }
        }
        if !bad.is_empty() {
            return Want::Verts(bad);
        }
        for s in self.pieces() {
            if Model::hole_touches_seg(h, s) {
                bad.insert(key(s.0));
                bad.insert(key(s.1));
            }
        }
        if !bad.is_empty() {
            return Want::Verts(bad);
        }
        self.verts.retain(|p| in_polygon(h, *p) < 0);
        self.holes.push(h.to_vec());
        Want::Ok
    }
    fn compare(&self, t: &Triangulator) -> Res {
        let set = |v: &mut dyn Iterator<Item = P>| v.map(key).collect::<BTreeSet<K>>();
        let got = set(&mut t.vertices.iter().map(|v| (v.x, v.y)));
        let want = set(&mut self.verts.iter().cloned());
        if got != want {
            let un = |s: BTreeSet<K>| s.iter().map(|k| (f64::from_bits(k.0), f64::from_bits(k.1))).collect::<Vec<_>>();
            return Err(format!("free vertices are {:?}, expected {:?}", un(got), un(want)));
        }
        let holes: BTreeSet<Vec<K>> = t.holes.iter().map(|h| pts(h).into_iter().map(key).collect()).collect();
        let want: BTreeSet<Vec<K>> = self.holes.iter().map(|h| h.iter().map(|p| key(*p)).collect()).collect();
        if holes != want {
            return Err(format!("{} holes, expected {}", holes.len(), want.len()));
        }
        let mut left: Vec<(P, P)> = vec![];
        for e in &t.segments {
            let s = ((e.v1.x, e.v1.y), (e.v2.x, e.v2.y));
            if near(s.0, s.1) {
                return Err(format!("a segment of no length is kept at {:?}", s.0));
            }
            if !left.iter().any(|o| (near(o.0, s.0) && near(o.1, s.1)) || (near(o.0, s.1) && near(o.1, s.0))) {
                left.push(s);
            }
        }
        for s in self.pieces() {
            match left.iter().position(|o| (near(o.0, s.0) && near(o.1, s.1)) || (near(o.0, s.1) && near(o.1, s.0))) {
                Some(i) => {
                    left.remove(i);
                }
                None => return Err(format!("piece {s:?} of a segment is missing among {:?}", t.segments.iter().map(|e| format!("{e}")).collect::<Vec<_>>())),
            }
        }
        match left.first() {
            Some(s) => Err(format!("segment {s:?} is not a piece of the inserted ones")),
            None => Ok(()),
        }
    }
}

fn keys_v<'a>(v: impl Iterator<Item = &'a Rc<Vertex>>) -> BTreeSet<K> {
    v.map(|v| key((v.x, v.y))).collect()
}
/// the same points, up to the rounding of computed ones
fn alike(a: &BTreeSet<K>, b: &BTreeSet<K>) -> bool {
    let p = |k: &K| (f64::from_bits(k.0), f64::from_bits(k.1));
    let within = |a: &BTreeSet<K>, b: &BTreeSet<K>| a.iter().all(|x| b.iter().any(|y| near(p(x), p(y))));
    within(a, b) && within(b, a)
}
fn check_answer(i: usize, got: Result<(), Want>, want: Want, what: &str) -> Res {
    match (got, want) {
        (Ok(()), Want::Ok) => Ok(()),
        (Ok(()), _) => Err(format!("step {i}: conflicting {what} were accepted")),
        (Err(_), Want::Ok) => Err(format!("step {i}: valid {what} were refused")),
        (Err(Want::Verts(a)), Want::Verts(b)) if alike(&a, &b) => Ok(()),
        (Err(Want::Segs(a)), Want::Segs(b)) if a == b => Ok(()),
        _ => Err(format!("step {i}: the refused {what} are not the conflicting ones")),
    }
}

fn in_scale(raw: &Raw) -> impl Fn(&G) -> P + '_ {
    let s = 2f64.powi(raw.pow);
    move |g: &G| (g.0 as f64 * s + raw.off.0 as f64, g.1 as f64 * s + raw.off.1 as f64)
}

/// runs the history; `end`: triangulate and check the mesh
fn run(h: &History, o: &mut Obs, end: bool) -> Res {
    let Some(d) = h.raw.build() else {
        o.discard = true;
        return Ok(());
    };
    show(&d);
    let f = in_scale(&h.raw);
    let mut m = Model { boundary: d.boundary.clone(), ..Model::default() };
    let b = closed(&d.boundary);
    let mut t = Triangulator::new(&b);
    let (mut accepted, mut refused, mut cut) = (0, 0, false);
    for (i, (sift, op)) in h.ops.iter().enumerate() {
        let sift = *sift;
        // segments between points that are there already
        let joined;
        let op = if let Op::Join(js) = op {
            let all = m.all_points();
            if all.len() < 2 {
                continue;
            }
            let back = |p: P| (((p.0 - h.raw.off.0 as f64) / 2f64.powi(h.raw.pow)), ((p.1 - h.raw.off.1 as f64) / 2f64.powi(h.raw.pow)));
            let g = |k: u16| {
                let p = back(all[k as usize % all.len()]);
                (p.0 as u32, p.1 as u32)
            };
            joined = Op::Segs(js.iter().map(|(a, b)| (g(*a), g(*b))).collect());
            &joined
        } else {
            op
        };
        match op {
            Op::Verts(v) => {
                let v: Vec<P> = v.iter().map(&f).filter(|p| !sift || m.vertex_fits(*p)).collect();
                if v.is_empty() {
                    continue;
                }
                let mut all = m.all_points();
                all.extend(&v);
                if !Model::tellable(&m.segs, &all) {
                    o.discard = true;
                    return Ok(());
                }
                let set: HashSet<Rc<Vertex>> = v.iter().map(|p| vx(*p)).collect();
                let got = t.insert_vertices(&set).map(|_| ()).map_err(|e| Want::Verts(keys_v(e.iter())));
                let want = m.verts_op(&v);
                if matches!(want, Want::Ok) { accepted += 1 } else { refused += 1 }
                check_answer(i, got, want, "vertices")?;
            }
            Op::Segs(s) => {
                let s: Vec<(P, P)> = s
                    .iter()
                    .map(|(a, b)| if h.compass { compass(*a, *b) } else { (*a, *b) })
                    .filter(|(a, b)| a != b)
                    .map(|(a, b)| (f(&a), f(&b)))
                    .filter(|s| !sift || m.segment_fits(*s))
                    .collect();
                if s.is_empty() {
                    continue;
                }
                let mut all = m.segs.clone();
                all.extend(&s);
                let mut p = m.all_points();
                p.extend(s.iter().flat_map(|s| [s.0, s.1]));
                if !Model::tellable(&all, &p) {
                    o.discard = true;
                    return Ok(());
                }
                let set: HashSet<Rc<Edge>> = s.iter().map(|s| edge(*s)).collect();
                let got = t.insert_segments(&set).map(|_| ()).map_err(|e| {
                    Want::Segs(e.iter().map(|e| (key((e.v1.x, e.v1.y)), key((e.v2.x, e.v2.y)))).collect())
                });
                let before = m.segs.len();
                let want = m.segs_op(&s);
                cut |= m.segs.len() > before && m.pieces().len() > m.segs.len();
                if matches!(want, Want::Ok) { accepted += 1 } else { refused += 1 }
                check_answer(i, got, want, "segments")?;
            }
            Op::Hole(g) => {
                let p = hull(g.iter().map(&f).collect(), false);
                if p.len() < 3 || !simple_polygon(&p) {
                    continue;
                }
                let mut all = m.all_points();
                all.extend(&p);
                if !Model::tellable(&m.segs, &all) || m.grazes(&p) {
                    o.discard = true;
                    return Ok(());
                }
                if sift && !matches!(m.clone().hole_op(&p), Want::Ok) {
                    continue;
                }
                let l: Rc<Polyline> = closed(&p);
                let got = t.insert_hole(&l).map(|_| ()).map_err(|e| Want::Verts(keys_v(e.iter())));
                let want = m.hole_op(&p);
                if matches!(want, Want::Ok) { accepted += 1 } else { refused += 1 }
                check_answer(i, got, want, "hole")?;
            }
            Op::Triangulate => {
                t.triangulate();
                if end {
                    check_mesh(&t, &m).map_err(|e| format!("after step {i}: {e}"))?;
                }
            }
            Op::Join(_) => unreachable!(),
        }
        m.compare(&t).map_err(|e| format!("after step {i}: {e}"))?;
    }
    o.tag_if(refused > 0, "something was refused");
    o.tag_if(cut, "a segment was cut");
    o.tag_if(!m.holes.is_empty(), "with holes");
    o.tag_if(accepted >= 4, "4 or more accepted steps");
    o.nontrivial = accepted >= 2;
    if end {
        t.triangulate();
        check_mesh(&t, &m)?;
    }
    Ok(())
}
fn check_mesh(t: &Triangulator, m: &Model) -> Res {
    let mesh = Mesh::from(&t.triangulation.borrow());
    mesh.check_manifold()?;
    mesh.check_tiling(&m.boundary, &m.holes)?;
    mesh.check_ghosts()?;
    if let Some(e) = mesh.adj_bad.first() {
        return Err(format!("adjacency disagrees with the triangles: {e}"));
    }
    let got = mesh.used_points();
    for v in &t.vertices {
        if !got.contains(&key((v.x, v.y))) {
            return Err(format!("vertex {v} is not in the triangulation"));
        }
    }
    for e in &t.segments {
        if !mesh.covers_segment(((e.v1.x, e.v1.y), (e.v2.x, e.v2.y))) {
            return Err(format!("segment {e} is not made of edges of the triangulation"));
        }
    }
    Ok(())
}

fn history(kind: Kind, compass: bool, holes: u32, grids: &'static [(u32, i32, i32)], mesh: bool) -> BoxedStrategy<History> {
    let arms: Vec<BoxedStrategy<History>> = grids
        .iter()
        .map(|g| {
            let n = g.0;
            let p = move || (0..=n, 0..=n);
            let inner = move || (1..n, 1..n);
            let pt = move || prop_oneof![6 => inner(), 1 => p()];
            let near_pt = move || {
                (pt(), -3i64..=3, -3i64..=3).prop_map(move |(a, x, y)| {
                    let c = |v: u32, d: i64| (v as i64 + d).clamp(0, n as i64) as u32;
                    (a, (c(a.0, x), c(a.1, y)))
                })
            };
            let seg = move || prop_oneof![3 => (pt(), pt()), 2 => near_pt()];
            let hole = move || {
                (pt(), prop::collection::vec((0..=3u32, 0..=3u32), 3..6))
                    .prop_map(move |(c, d)| d.iter().map(|d| ((c.0 + d.0).min(n), (c.1 + d.1).min(n))).collect::<Vec<G>>())
            };
            let op = prop_oneof![
                4 => prop::collection::vec(pt(), 1..4).prop_map(Op::Verts),
                5 => prop::collection::vec(seg(), 1..3).prop_map(Op::Segs),
                holes => hole().prop_map(Op::Hole),
                (if mesh { 2 } else { 0 }) => Just(Op::Triangulate),
                2 => prop::collection::vec((any::<u16>(), any::<u16>()), 1..3).prop_map(Op::Join),
            ];
            let b = match kind {
                Kind::Collinear => Shape::new((4, 8), 0, 0, 0),
                _ => Shape::new((4, 7), 0, 0, 0),
            };
            let g1: &'static [(u32, i32, i32)] = Box::leak(Box::new([*g]));
            let mut r = raw(kind, b, g1, 8);
            if kind == Kind::Collinear {
                // mostly the whole square, so that most elements fit in
                r = prop_oneof![
                    1 => r.clone(),
                    3 => r.prop_map(move |mut r| { r.bpts = vec![(0, 0), (n, 0), (n, n), (0, n)]; r }),
                ]
                .boxed();
            }
            (r, prop::collection::vec((prop::bool::weighted(0.75), op), 1..12))
                .prop_map(move |(raw, ops)| History { raw, ops, compass })
                .boxed()
        })
        .collect();
    prop::strategy::Union::new(arms).boxed()
}
const HG: &[(u32, i32, i32)] = &[(8, 0, 1), (12, 0, 0), (16, -1, 1)];

pub fn s_compass() -> BoxedStrategy<History> {
    history(Kind::Collinear, true, 3, HG, false)
}
pub fn s_general() -> BoxedStrategy<History> {
    history(Kind::Collinear, false, 3, HG, false)
}
pub fn s_tangle() -> BoxedStrategy<History> {
    history(Kind::Tangle, true, 3, HG, false)
}
pub fn s_mesh_compass() -> BoxedStrategy<History> {
    history(Kind::Collinear, true, 2, HG, true)
}
pub fn s_mesh_general() -> BoxedStrategy<History> {
    history(Kind::Collinear, false, 2, HG, true)
}
pub fn s_mesh_tangle() -> BoxedStrategy<History> {
    history(Kind::Tangle, true, 2, HG, true)
}

const ASSUME: &[&str] = &[
    "segments do not overlap along a line; rounded crossings are apart from every other point",
    "grid coordinates, extent 4 to 32; holes are convex polygons of up to 3 grid units",
];
pub fn insertions() -> Property {
    Property {
        id: "C16",
        rule: "at least two insertions of the history are valid",
        assumptions: ASSUME,
        subs: vec![
            Sub::new("insert-compass", 40000, 300000, s_compass, |c, _, o| run(c, o, false)).budget(BUDGET).boxed(),
            Sub::new("insert-general", 40000, 300000, s_general, |c, _, o| run(c, o, false)).budget(BUDGET).boxed(),
            Sub::new("insert-tangle", 20000, 150000, s_tangle, |c, _, o| run(c, o, false)).budget(BUDGET).boxed(),
        ],
    }
}
pub fn meshes() -> Property {
    Property {
        id: "C10",
        rule: "at least two insertions of the history are valid",
        assumptions: ASSUME,
        subs: vec![
            Sub::new("histmesh-compass", 20000, 100000, s_mesh_compass, |c, _, o| run(c, o, true)).budget(BUDGET).boxed(),
            Sub::new("histmesh-general", 30000, 100000, s_mesh_general, |c, _, o| run(c, o, true)).budget(BUDGET).boxed(),
            Sub::new("histmesh-tangle", 10000, 50000, s_mesh_tangle, |c, _, o| run(c, o, true)).budget(BUDGET).boxed(),
        ],
    }
}
