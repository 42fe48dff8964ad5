//! The triangulation as a container, and the procedures that change it step by step.
use crate::c_mesh;
use crate::c_refine;
use crate::domain::*;
use crate::engine::*;
use crate::exact::*;
use crate::mesh::*;
use nlsn_delaunay::elements::{edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::planar::refine_procedures::{encroachment, triangle_split};
use nlsn_delaunay::planar::triangulation::Triangulation;
use nlsn_delaunay::planar::triangulation_procedures as steps;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

const ASSUMPTIONS: &[&str] = &["the hash seed of a case fixes the iteration order of all hash maps and sets"];

// ---- container ---------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ops {
    /// starts from the two outer triangles of a segment
    segment: bool,
    /// (include, vertices)
    ops: Vec<(bool, [u8; 3])>,
}
const GHOST: u8 = 6;
fn s_ops() -> BoxedStrategy<Ops> {
    let v = prop_oneof![
        (0u8..6, 0u8..6, 0u8..6).prop_map(|(a, b, c)| [a, b, c]),
        (0u8..6, 0u8..6, 0u8..3).prop_map(|(a, b, r)| {
            let mut t = [a, b, GHOST];
            t.rotate_left(r as usize);
            t
        }),
    ]
    .prop_filter("distinct", |t| t[0] != t[1] && t[1] != t[2] && t[0] != t[2]);
    (any::<bool>(), prop::collection::vec((prop::bool::weighted(0.65), v), 1..40)).prop_map(|(segment, ops)| Ops { segment, ops }).boxed()
}
fn cycle(t: [u8; 3]) -> [u8; 3] {
    let k = (0..3).min_by_key(|&k| t[k]).unwrap();
    [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
}
fn contents(c: &Ops, o: &mut Obs) -> Res {
    let at = [(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0), (-1.0, 7.0), (2.0, -3.0)];
    let v = |k: u8| if k == GHOST { Rc::new(Vertex::new_ghost()) } else { vx(at[k as usize]) };
    let make = |t: [u8; 3]| Rc::new(Triangle::new(&v(t[0]), &v(t[1]), &v(t[2])));
    let mut model: BTreeSet<[u8; 3]> = BTreeSet::new();
    let mut t = if c.segment {
        model.insert(cycle([0, 1, GHOST]));
        model.insert(cycle([1, 0, GHOST]));
        Triangulation::from_initial_segment((&v(0), &v(1)))
    } else {
        Triangulation::new()
    };
    let edges = |t: &[u8; 3]| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])];
    let (mut again, mut gone, mut removed) = (0, 0, 0);
    for (n, (include, tr)) in c.ops.iter().enumerate() {
        let cy = cycle(*tr);
        if *include {
            let used = model.iter().filter(|m| **m != cy).any(|m| edges(m).iter().any(|e| edges(&cy).contains(e)));
            if used {
                continue; // two triangles on one side of an edge: not a triangulation
            }
            let want = model.insert(cy);
            again += !want as u32;
            let got = t.include_triangle(&make(*tr));
            if got != want {
                return Err(format!("step {n}: including {tr:?} answers {got}"));
            }
        } else {
            let want = model.remove(&cy);
            gone += !want as u32;
            removed += want as u32;
            let got = t.remove_triangle(&make(*tr));
            if got != want {
                return Err(format!("step {n}: removing {tr:?} answers {got}"));
            }
        }
        if t.triangles.len() != model.len() || model.iter().any(|m| !t.triangles.contains(&make(*m))) {
            return Err(format!("step {n}: the triangles are not {model:?}"));
        }
        let want: BTreeMap<(u8, u8), [u8; 3]> = model.iter().flat_map(|m| edges(m).map(|e| (e, *m))).collect();
        if t.adjacency.len() != want.len() {
            return Err(format!("step {n}: {} adjacency entries, {} edges", t.adjacency.len(), want.len()));
        }
        for (e, m) in &want {
            let e = Rc::new(Edge::new(&v(e.0), &v(e.1)));
            if t.adjacency.get(&e) != Some(&make(*m)) {
                return Err(format!("step {n}: edge {e} is not mapped to its triangle"));
            }
        }
        let used: BTreeSet<u8> = model.iter().flatten().cloned().filter(|k| *k != GHOST).collect();
        let got = t.vertices();
        if got.len() != used.len() || used.iter().any(|k| !got.contains(&v(*k))) {
            return Err(format!("step {n}: vertices() is not {used:?}"));
        }
        let got = t.edges();
        if got.len() != want.len() || want.keys().any(|e| !got.contains(&Rc::new(Edge::new(&v(e.0), &v(e.1))))) {
            return Err(format!("step {n}: edges() is not {:?}", want.keys()));
        }
    }
    o.tag_if(again > 0, "included again");
    o.tag_if(gone > 0, "removed again");
    o.nontrivial = removed > 0 && model.len() > 1;
    Ok(())
}
pub fn container() -> Property {
    Property {
        id: "C27",
        rule: "a triangle was removed and at least two are left",
        assumptions: ASSUMPTIONS,
        subs: vec![Sub::new("contents", 40000, 800000, s_ops, |c, _, o| contents(c, o)).budget(1_000_000).boxed()],
    }
}

// ---- stepwise growth -----------------------------------------------------------------------
type Set = HashSet<Rc<Triangle>>;

/// what a procedure says it included and removed on its way, against what it did: triangles that
/// came and went are in both sets
fn log(before: &Set, after: &Set, included: &Set, removed: &Set) -> Res {
    let gone: Set = included.iter().filter(|t| removed.contains(*t) && !after.contains(*t)).cloned().collect();
    let back: Set = removed.iter().filter(|t| included.contains(*t) && after.contains(*t)).cloned().collect();
    reports(before, after, &included.difference(&gone).cloned().collect(), &removed.difference(&back).cloned().collect())
}
/// what a procedure says it included and removed in the end, against what it did
fn reports(before: &Set, after: &Set, included: &Set, removed: &Set) -> Res {
    if let Some(t) = after.difference(before).find(|t| !included.contains(*t)) {
        return Err(format!("new triangle {t} is not reported as included"));
    }
    if let Some(t) = included.iter().find(|t| !after.contains(*t)) {
        return Err(format!("triangle {t} reported as included is not in the triangulation"));
    }
    if let Some(t) = before.difference(after).find(|t| !removed.contains(*t)) {
        return Err(format!("lost triangle {t} is not reported as removed"));
    }
    if let Some(t) = removed.iter().find(|t| after.contains(*t)) {
        return Err(format!("triangle {t} reported as removed is in the triangulation"));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cloud {
    raw: Raw,
    /// sizes of the batches the points are included in
    batches: Vec<u8>,
    /// segments between the points, by index
    segs: Vec<(u8, u8)>,
}
fn s_cloud(s: fn() -> BoxedStrategy<Raw>) -> BoxedStrategy<Cloud> {
    (s(), prop::collection::vec(1u8..6, 0..4), prop::collection::vec((any::<u8>(), any::<u8>()), 0..5))
        .prop_map(|(raw, batches, segs)| Cloud { raw, batches, segs })
        .boxed()
}

/// the convex hull of points grows batch by batch, without any boundary; then segments are added
fn grows(c: &Cloud, o: &mut Obs) -> Res {
    let mut seen = BTreeSet::new();
    let ps: Vec<P> = c.raw.verts.iter().chain(&c.raw.bpts).map(|g| c.raw.place(*g)).filter(|p| seen.insert(key(*p))).collect();
    if ps.len() < 3 || ps.iter().all(|p| orient(ps[0], ps[1], *p) == 0) {
        o.discard = true;
        return Ok(());
    }
    let mut t = Triangulation::from_initial_segment((&vx(ps[0]), &vx(ps[1])));
    // the first point off the initial segment goes first: points in line with it have no triangle yet
    let mut rest: Vec<P> = ps[2..].to_vec();
    let k = rest.iter().position(|p| orient(ps[0], ps[1], *p) != 0).unwrap();
    rest.swap(0, k);
    let mut at = 0;
    let mut now = ps[..2].to_vec();
    let mut n = 0;
    let include = |t: &mut Triangulation, batch: &[P], now: &mut Vec<P>| -> Res {
        let before = t.triangles.clone();
        let (inc, rem) = steps::vertices::include(t, batch.iter().map(|p| vx(*p)).collect(), &HashSet::new(), &None, &HashSet::new());
        log(&before, &t.triangles, &inc, &rem)?;
        for p in batch {
            if !now.contains(p) {
                now.push(*p);
            }
        }
        let m = Mesh::from(t);
        let b = hull(now.clone(), true);
        m.check_manifold()?;
        m.check_tiling(&b, &[])?;
        if let Some(e) = m.adj_bad.first() {
            return Err(format!("adjacency disagrees with the triangles: {e}"));
        }
        m.check_ghosts()?;
        let want: BTreeSet<K> = now.iter().map(|p| key(*p)).collect();
        if m.used_points() != want {
            return Err("the vertices of the triangulation are not the points included".into());
        }
        m.check_delaunay(&[])?;
        Ok(())
    };
    include(&mut t, &rest[..1], &mut now)?;
    at += 1;
    while at < rest.len() {
        let size = c.batches.get(n).map_or(rest.len(), |b| *b as usize);
        let end = (at + size).min(rest.len());
        // points included before are ignored
        let mut batch = rest[at..end].to_vec();
        if n % 2 == 1 {
            batch.push(now[n % now.len()]);
        }
        include(&mut t, &batch, &mut now)?;
        at = end;
        n += 1;
    }
    o.tag_if(n > 1, "several batches");
    o.nontrivial = t.triangles.len() >= 8;
    // segments between the points, apart from each other but for end vertices
    let mut kept: Vec<(P, P)> = vec![];
    let mut constraints: HashSet<Rc<Edge>> = HashSet::new();
    for (a, b) in &c.segs {
        let s = (ps[*a as usize % ps.len()], ps[*b as usize % ps.len()]);
        if s.0 == s.1 || ps.iter().any(|p| *p != s.0 && *p != s.1 && on_segment(s.0, s.1, *p)) || kept.iter().any(|k| !segs_compatible(*k, s)) {
            continue;
        }
        steps::segment::include(&mut t, &edge(s), &constraints);
        kept.push(s);
        constraints.insert(edge(s));
        let m = Mesh::from(&t);
        m.check_manifold()?;
        m.check_tiling(&hull(ps.clone(), true), &[])?;
        m.check_ghosts()?;
        if let Some(e) = m.adj_bad.first() {
            return Err(format!("adjacency disagrees with the triangles: {e}"));
        }
        for k in &kept {
            if !m.covers_segment(*k) {
                return Err(format!("segment {k:?} is not made of edges after including {s:?}"));
            }
        }
        m.check_delaunay(&kept)?;
        o.tag("with segments");
    }
    Ok(())
}

// ---- vertices into a finished triangulation --------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Late {
    raw: Raw,
    /// one bit per free vertex: included later, in one of two batches
    late: u32,
    second: u32,
}
fn s_late(s: fn() -> BoxedStrategy<Raw>) -> BoxedStrategy<Late> {
    (s(), any::<u32>(), any::<u32>()).prop_map(|(raw, late, second)| Late { raw, late, second }).boxed()
}
fn constraint_set(d: &Dom) -> HashSet<Rc<Edge>> {
    let p = |p: &[P]| closed(p).into_edges();
    d.holes.iter().flat_map(|h| p(h)).chain(p(&d.boundary)).chain(d.segs.iter().map(|s| edge(*s))).collect()
}
fn late(c: &Late, o: &mut Obs) -> Res {
    let Some(d) = c.raw.build() else {
        o.discard = true;
        return Ok(());
    };
    c_mesh::show(&d);
    let bit = |m: u32, k: usize| m >> (k % 32) & 1 == 1;
    let mut now = d.clone();
    now.verts = d.verts.iter().enumerate().filter(|(k, _)| !bit(c.late, *k)).map(|x| *x.1).collect();
    let mut tr = load(&now)?;
    tr.triangulate();
    let t = &mut tr.triangulation.borrow_mut();
    let constraints = constraint_set(&d);
    let boundary = Some(closed(&d.boundary));
    let holes: HashSet<Rc<Polyline>> = tr.holes.iter().cloned().collect();
    let mut added = 0;
    for second in [false, true] {
        let batch: Vec<P> = d.verts.iter().enumerate().filter(|(k, _)| bit(c.late, *k) && bit(c.second, *k) == second).map(|x| *x.1).collect();
        let before = t.triangles.clone();
        let (inc, rem) = steps::vertices::include(t, batch.iter().map(|p| vx(*p)).collect(), &constraints, &boundary, &holes);
        log(&before, &t.triangles, &inc, &rem)?;
        added += batch.len();
        now.verts.extend(batch);
        let m = Mesh::from(t);
        c_mesh::tiles(&now, &m, o)?;
        c_mesh::delaunay(&now, &m, o)?;
        c_mesh::elements_present(&now, &m, o)?;
        c_mesh::linked(&now, &m, o)?;
    }
    o.tag_if(!d.segs.is_empty(), "with segments");
    o.tag_if(!d.holes.is_empty(), "with holes");
    o.nontrivial = added > 0;
    Ok(())
}
pub fn stepwise() -> Property {
    const B: u64 = c_mesh::BUDGET;
    Property {
        id: "C28",
        rule: "the procedures changed a triangulation: a hull of 8 or more triangles, or a vertex added to a finished triangulation",
        assumptions: ASSUMPTIONS,
        subs: vec![
            Sub::new("grow-convex", 4000, 80000, || s_cloud(c_mesh::s_convex), |c, _, o| grows(c, o)).budget(B).boxed(),
            Sub::new("grow-lattice", 4000, 80000, || s_cloud(c_mesh::s_lattice), |c, _, o| grows(c, o)).budget(B).boxed(),
            Sub::new("late-parts", 4000, 80000, || s_late(c_mesh::s_parts), |c, _, o| late(c, o)).budget(B).boxed(),
            Sub::new("late-stairs", 3000, 60000, || s_late(c_mesh::s_stairs), |c, _, o| late(c, o)).budget(B).boxed(),
            Sub::new("late-lattice", 3000, 60000, || s_late(c_mesh::s_lattice), |c, _, o| late(c, o)).budget(B).boxed(),
            Sub::new("late-tangle", 3000, 60000, || s_late(c_mesh::s_tangle), |c, _, o| late(c, o)).budget(B).boxed(),
        ],
    }
}

// ---- splits of constraints ---------------------------------------------------------------------
/// the new edges, with the constraint each belongs to, cut that constraint into pieces
fn splits(d: &Dom, origin: &HashMap<Rc<Edge>, Rc<Edge>>, t: &Triangulation) -> Res {
    let cons = constraint_set(d);
    let q = |v: &Rc<Vertex>| (v.x, v.y);
    let mut pieces: HashMap<Rc<Edge>, Vec<Rc<Edge>>> = HashMap::new();
    for (piece, of) in origin {
        if !cons.contains(of) {
            return Err(format!("{piece} is reported as part of {of}, which is not a constraint"));
        }
        pieces.entry(Rc::clone(of)).or_default().push(Rc::clone(piece));
    }
    let is_edge = |e: &Rc<Edge>| t.adjacency.contains_key(e) || t.adjacency.contains_key(&Rc::new(e.opposite()));
    for c in &cons {
        match pieces.get(c) {
            None if !is_edge(c) => return Err(format!("constraint {c} is neither split nor an edge")),
            None => {}
            Some(ps) => {
                // a chain from end to end, on the constraint
                let l = |e: &Edge| (e.v1.x - e.v2.x).hypot(e.v1.y - e.v2.y);
                let sum: f64 = ps.iter().map(|e| l(e)).sum();
                if !((sum - l(c)).abs() <= 1e-9 * l(c)) {
                    return Err(format!("the parts of {c} have a length of {sum}, not {}", l(c)));
                }
                let mut at = Rc::clone(&c.v1);
                let mut left = ps.clone();
                while at != c.v2 {
                    let Some(k) = left.iter().position(|e| e.v1 == at || e.v2 == at) else {
                        return Err(format!("the parts of {c} do not reach from end to end"));
                    };
                    let e = left.swap_remove(k);
                    at = if e.v1 == at { Rc::clone(&e.v2) } else { Rc::clone(&e.v1) };
                    if !(seg_dist(q(&at), (q(&c.v1), q(&c.v2))) <= 1e-9 * l(c)) {
                        return Err(format!("part {e} is not on {c}"));
                    }
                    if !is_edge(&e) {
                        return Err(format!("part {e} of {c} is not an edge of the triangulation"));
                    }
                }
                if !left.is_empty() {
                    return Err(format!("{c} has more parts than make a chain"));
                }
            }
        }
    }
    Ok(())
}
fn split_steps(c: &c_refine::Case, o: &mut Obs) -> Res {
    let Some(d) = c.build() else {
        o.discard = true;
        return Ok(());
    };
    c_mesh::show(&d);
    let (ratio, max_area) = c_refine::bounds(c, &d);
    let mut tr = load(&d)?;
    tr.triangulate();
    let holes: HashSet<Rc<Polyline>> = tr.holes.iter().cloned().collect();
    let cons = constraint_set(&d);
    let boundary = Some(closed(&d.boundary));
    let t = &mut tr.triangulation.borrow_mut();

    // which vertices encroach which constraints
    let vs = t.vertices();
    let reach = d.boundary.iter().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
    let mut map = HashMap::new();
    encroachment::distribute_encroachments(&cons, &vs, &mut map);
    for e in &cons {
        let (a, b) = ((e.v1.x, e.v1.y), (e.v2.x, e.v2.y));
        for v in &vs {
            let p = (v.x, v.y);
            let x = (a.0 - p.0) * (b.0 - p.0) + (a.1 - p.1) * (b.1 - p.1);
            let listed = map.get(e).map_or(false, |s| s.contains(v));
            let scale = (a.0 - p.0).hypot(a.1 - p.1) * (b.0 - p.0).hypot(b.1 - p.1);
            if x.abs() > 1e-9 * scale + (2e-14f64).min(3e-14 * reach * reach) && listed != (x < 0.0) {
                return Err(format!("vertex {v} of {e}: listed as encroaching: {listed}"));
            }
        }
    }
    if map.values().any(|s| s.is_empty()) {
        return Err("a constraint is listed without any encroaching vertex".into());
    }

    let before = t.triangles.clone();
    let (origin, inc, rem) = encroachment::unencroach(t, &cons, &boundary, &holes);
    reports(&before, &t.triangles, &inc, &rem)?;
    splits(&d, &origin, t)?;
    let mut m = Mesh::from(t);
    m.eps = c.eps(&d);
    if let Some((a, b, p)) = c_refine::encroached(&d, &m).first() {
        return Err(format!("constrained edge {a:?}-{b:?} is encroached by {p:?} after unencroach"));
    }
    o.tag_if(!origin.is_empty(), "constraints split");
    o.tag_if(origin.len() >= 10, "10 or more parts");
    o.nontrivial = !origin.is_empty();

    // and on from there
    let split: HashSet<&Rc<Edge>> = origin.values().collect();
    let cons2: HashSet<Rc<Edge>> = cons.iter().filter(|e| !split.contains(e)).chain(origin.keys()).cloned().collect();
    let more = triangle_split::split_irregular(t, &params(ratio, max_area), &cons2, &boundary, &holes);
    let mut m = Mesh::from(t);
    m.eps = c.eps(&d);
    let r = c_refine::Refined { before: Mesh::default(), after: m, ratio, max_area };
    c_refine::keeps_domain(&d, &r, o)?;
    c_refine::keeps_elements(&d, &r, o)?;
    c_refine::meets_bounds(&d, &r, o)?;
    // the parts reported last are the constrained edges that are new
    let is_edge = |e: &Rc<Edge>| t.adjacency.contains_key(e) || t.adjacency.contains_key(&Rc::new(e.opposite()));
    if let Some(e) = more.keys().find(|e| !is_edge(e)) {
        return Err(format!("part {e} reported by split_irregular is not an edge"));
    }
    let want: f64 = cons2.iter().filter(|e| !is_edge(e)).map(|e| e.length()).sum();
    let got: f64 = more.keys().map(|e| e.length()).sum();
    if !((want - got).abs() <= 1e-9 * want.max(got)) {
        return Err(format!("the parts reported by split_irregular have a length of {got}, the edges split {want}"));
    }
    o.tag_if(!more.is_empty(), "constraints split for triangles");
    Ok(())
}
pub fn splitting() -> Property {
    const B: u64 = c_refine::BUDGET;
    Property {
        id: "C29",
        rule: "a constraint was encroached and split",
        assumptions: ASSUMPTIONS,
        subs: vec![
            Sub::new("splits-convex", 1500, 30000, c_refine::s_convex, |c, _, o| split_steps(c, o)).budget(B).boxed(),
            Sub::new("splits-parts", 1500, 30000, c_refine::s_parts, |c, _, o| split_steps(c, o)).budget(B).boxed(),
            Sub::new("splits-stairs", 1200, 20000, c_refine::s_stairs, |c, _, o| split_steps(c, o)).budget(B).boxed(),
            Sub::new("splits-tilted", 1200, 20000, || c_refine::tilted(prop_oneof![c_refine::s_parts(), c_refine::s_stairs()].boxed()), |c, _, o| split_steps(c, o)).budget(B).boxed(),
            Sub::new("splits-bays", 200, 4000, c_refine::s_bays, |c, _, o| split_steps(c, o)).budget(c_refine::BAY_BUDGET).boxed(),
            Sub::new("splits-tangle", 700, 12000, c_refine::s_tangle, |c, _, o| split_steps(c, o)).budget(B).boxed(),
        ],
    }
}
