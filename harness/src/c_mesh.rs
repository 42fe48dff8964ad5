//! Triangulation of a domain: structure, tiling, Delaunay condition, vertices and constraints,
//! outer triangles, invariance.
use crate::domain::*;
use crate::engine::*;
use crate::exact::*;
use crate::mesh::*;
use proptest::prelude::*;
use std::collections::BTreeMap;

pub const BUDGET: u64 = 20_000_000;

// (largest raw coordinate, smallest and largest power of two)
const FINE: &[(u32, i32, i32)] = &[(4, 0, 1), (8, -3, 1), (16, -4, 2), (64, -6, 2), (1024, -10, 0)];
const MED: &[(u32, i32, i32)] = &[(12, 0, 1), (16, -2, 1), (32, -3, 1), (64, -4, 0)];

pub fn s_convex() -> BoxedStrategy<Raw> {
    raw(Kind::Convex, Shape::new((3, 9), 0, 0, 14), FINE, 40)
}
pub fn s_collinear() -> BoxedStrategy<Raw> {
    raw(Kind::Collinear, Shape::new((3, 14), 0, 0, 14), FINE, 40)
}
pub fn s_lattice() -> BoxedStrategy<Raw> {
    // many cocircular and collinear vertices
    raw(Kind::Collinear, Shape::new((3, 10), 0, 0, 30), &[(3, 0, 1), (4, -1, 1), (5, 0, 0), (6, 0, 2)], 8)
}
const PARTS: Shape = Shape::new((4, 10), 3, 3, 10);
pub fn s_parts() -> BoxedStrategy<Raw> {
    raw(Kind::Collinear, PARTS, MED, 8)
}
pub fn s_star() -> BoxedStrategy<Raw> {
    raw(Kind::Star, PARTS, MED, 8)
}
pub fn s_stairs() -> BoxedStrategy<Raw> {
    raw(Kind::Stairs, PARTS, MED, 8)
}
pub fn s_wheel() -> BoxedStrategy<Raw> {
    wheel(12..48)
}
pub fn s_tangle() -> BoxedStrategy<Raw> {
    raw(Kind::Tangle, PARTS, MED, 8)
}

/// prints the domain of a replayed case
pub fn show(d: &Dom) {
    if std::env::var_os("VH_SHOW").is_some() {
        eprintln!("boundary {:?}\nholes {:?}\nsegments {:?}\nvertices {:?}", d.boundary, d.holes, d.segs, d.verts);
    }
}

pub fn classify(d: &Dom, o: &mut Obs) {
    o.tag_if(!d.holes.is_empty(), "with holes");
    o.tag_if(d.holes.len() > 1, "with several holes");
    o.tag_if(!d.segs.is_empty(), "with segments");
    o.tag_if(!d.verts.is_empty(), "with vertices");
    let e = edges_of(&d.boundary);
    let n = e.len();
    o.tag_if((0..n).any(|i| orient(e[i].0, e[i].1, e[(i + 1) % n].1) < 0), "nonconvex boundary");
    o.tag_if((0..n).any(|i| orient(e[i].0, e[i].1, e[(i + 1) % n].1) == 0), "straight boundary vertices");
}

pub fn triangulate(d: &Dom) -> Result<Mesh, String> {
    let mut t = load(d)?;
    t.triangulate();
    let m = Mesh::from(&t.triangulation.borrow());
    Ok(m)
}

fn with_mesh(r: &Raw, o: &mut Obs, f: fn(&Dom, &Mesh, &mut Obs) -> Res) -> Res {
    with_dom(r.build(), o, f)
}
fn with_dom(d: Option<Dom>, o: &mut Obs, f: fn(&Dom, &Mesh, &mut Obs) -> Res) -> Res {
    let Some(d) = d else {
        o.discard = true;
        return Ok(());
    };
    show(&d);
    classify(&d, o);
    let m = triangulate(&d)?;
    o.tag_if(m.tris.len() >= 12, "12 or more triangles");
    o.nontrivial = m.tris.len() >= 4;
    f(&d, &m, o)
}

/// the domain is turned, so that collinear and cocircular points are not exactly so any more; its
/// triangulation is turned back exactly, vertex by vertex, and judged there
fn with_turned(c: &(Raw, u32), o: &mut Obs, f: fn(&Dom, &Mesh, &mut Obs) -> Res) -> Res {
    let Some(d) = c.0.build() else {
        o.discard = true;
        return Ok(());
    };
    let turn = tilt(c.1);
    let t = d.map(&turn);
    show(&t);
    classify(&d, o);
    let mut m = triangulate(&t)?;
    let back: BTreeMap<K, P> = d.wanted().iter().map(|k| (f64::from_bits(k.0), f64::from_bits(k.1))).map(|p| (key(turn(p)), p)).collect();
    for p in m.pts.iter_mut() {
        *p = *back.get(&key(*p)).ok_or(format!("vertex {p:?} of the triangulation was never given"))?;
    }
    o.tag_if(m.tris.len() >= 12, "12 or more triangles");
    o.nontrivial = m.tris.len() >= 4;
    f(&d, &m, o).map_err(|e| format!("turned by {}: {e}", c.1))
}
fn turned(s: BoxedStrategy<Raw>) -> BoxedStrategy<(Raw, u32)> {
    (s, s_tilt()).boxed()
}

// ---- oracles -----------------------------------------------------------------------------
pub fn tiles(d: &Dom, m: &Mesh, _: &mut Obs) -> Res {
    m.check_manifold()?;
    m.check_tiling(&d.boundary, &d.holes)
}
pub fn delaunay(d: &Dom, m: &Mesh, o: &mut Obs) -> Res {
    let n = m.check_delaunay(&d.constraints())?;
    o.nontrivial = n >= 2;
    o.tag_if(n >= 8, "8 or more unconstrained edges");
    // the global form of the condition where nothing constrains the interior
    if d.holes.is_empty() && d.segs.is_empty() && is_convex(&d.boundary) {
        o.tag("empty circumcircles checked globally");
        for i in 0..m.tris.len() {
            let [a, b, c] = m.tri(i);
            for p in &m.pts {
                if incircle(a, b, c, *p) > 0 {
                    return Err(format!("{p:?} is inside the circumcircle of {:?}", [a, b, c]));
                }
            }
        }
    }
    Ok(())
}
fn is_convex(p: &[P]) -> bool {
    let n = p.len();
    (0..n).all(|i| orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) >= 0)
}
pub fn elements_present(d: &Dom, m: &Mesh, o: &mut Obs) -> Res {
    let want = d.wanted();
    let got = m.used_points();
    let show = |k: &K| (f64::from_bits(k.0), f64::from_bits(k.1));
    if let Some(k) = want.difference(&got).next() {
        return Err(format!("input vertex {:?} is missing from the triangulation", show(k)));
    }
    if let Some(k) = got.difference(&want).next() {
        return Err(format!("vertex {:?} of the triangulation was never given", show(k)));
    }
    for c in d.constraints() {
        if !m.covers_segment(c) {
            return Err(format!("constraint {:?}-{:?} is not made of edges of the triangulation", c.0, c.1));
        }
    }
    o.nontrivial = !d.verts.is_empty() || !d.segs.is_empty() || !d.holes.is_empty();
    Ok(())
}
pub fn linked(_: &Dom, m: &Mesh, _: &mut Obs) -> Res {
    if let Some(e) = m.adj_bad.first() {
        return Err(format!("adjacency disagrees with the triangles: {e}"));
    }
    m.check_ghosts()
}

macro_rules! subs {
    ($prefix:literal, $f:expr, $scale:expr) => {
        vec![
            Sub::new(concat!($prefix, "-convex"), 8000 * $scale, 120000 * $scale, s_convex, |r, _, o| with_mesh(r, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-collinear"), 6000 * $scale, 100000 * $scale, s_collinear, |r, _, o| with_mesh(r, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-lattice"), 4000 * $scale, 60000 * $scale, s_lattice, |r, _, o| with_mesh(r, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-parts"), 8000 * $scale, 100000 * $scale, s_parts, |r, _, o| with_mesh(r, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-star"), 6000 * $scale, 80000 * $scale, s_star, |r, _, o| with_mesh(r, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-stairs"), 6000 * $scale, 80000 * $scale, s_stairs, |r, _, o| with_mesh(r, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-turned-lattice"), 4000 * $scale, 60000 * $scale, || turned(s_lattice()), |r, _, o| with_turned(r, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-turned-parts"), 6000 * $scale, 80000 * $scale, || turned(s_parts()), |r, _, o| with_turned(r, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-turned-stairs"), 4000 * $scale, 60000 * $scale, || turned(s_stairs()), |r, _, o| with_turned(r, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-bay"), 2000 * $scale, 30000 * $scale, s_bay, |b: &Bay, _, o| with_dom(b.build(), o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-wheel"), 1500 * $scale, 20000 * $scale, s_wheel, |r, _, o| with_mesh(r, o, $f)).budget(BUDGET).boxed(),
            Sub::new(concat!($prefix, "-tangle"), 6000 * $scale, 80000 * $scale, s_tangle, |r, _, o| with_mesh(r, o, $f)).budget(BUDGET).boxed(),
        ]
    };
}

const ASSUME: &[&str] = &[
    "boundary and holes are simple and counterclockwise; holes, segments and vertices are strictly inside the domain and do not touch each other, except segments at common end vertices",
    "coordinates are dyadic rationals of 4 to 1024 grid steps, offset by up to 40 units",
];

pub fn tiling() -> Property {
    Property {
        id: "C11",
        rule: "the triangulation has at least 4 triangles",
        assumptions: ASSUME,
        subs: subs!("tiling", tiles, 1),
    }
}
pub fn delaunay_prop() -> Property {
    Property {
        id: "C12",
        rule: "at least 2 interior edges are not constrained",
        assumptions: ASSUME,
        subs: subs!("delaunay", delaunay, 1),
    }
}
pub fn elements() -> Property {
    Property {
        id: "C13",
        rule: "the domain has holes, segments or vertices besides its boundary",
        assumptions: ASSUME,
        subs: subs!("elements", elements_present, 1),
    }
}
pub fn links() -> Property {
    Property {
        id: "C14",
        rule: "the triangulation has at least 4 triangles",
        assumptions: ASSUME,
        subs: subs!("links", linked, 1),
    }
}
