//! What the command line tool gives its window to draw (the window itself needs a display).
use crate::c_mesh::*;
use crate::domain::*;
use crate::engine::*;
use crate::exact::*;
use crate::mesh::*;
use proptest::prelude::*;

#[allow(dead_code)]
#[path = "/repo/src/glium_interface/vertex.rs"]
mod shown;
use shown::Vertex as Shown;

type S = (u32, u32);
fn single(p: P) -> S {
    ((p.0 as f32 + 0.0).to_bits(), (p.1 as f32 + 0.0).to_bits())
}
fn at(v: &Shown) -> S {
    ((v.position[0] + 0.0).to_bits(), (v.position[1] + 0.0).to_bits())
}
fn rotated(t: [S; 3]) -> [S; 3] {
    let k = (0..3).min_by_key(|&k| (t[k], t[(k + 1) % 3])).unwrap();
    [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: Vec<T>, want: Vec<T>) -> Res {
    if got != want {
        let missing: Vec<&T> = want.iter().filter(|w| !got.contains(w)).take(3).collect();
        let extra: Vec<&T> = got.iter().filter(|w| !want.contains(w)).take(3).collect();
        return Err(format!("{what}: {} drawn, {} in the mesh; missing {missing:?}, extra {extra:?} (bits)", got.len(), want.len()));
    }
    Ok(())
}
fn drawn(c: &(Raw, u32), o: &mut Obs) -> Res {
    let Some(d) = c.0.build() else {
        o.discard = true;
        return Ok(());
    };
    let d = if c.1 == 0 { d } else { d.map(&tilt(c.1)) };
    show(&d);
    classify(&d, o);
    let mut t = load(&d)?;
    t.triangulate();
    let t = t.triangulation.borrow();
    let m = Mesh::from(&t);
    o.nontrivial = m.tris.len() >= 4;
    // triangles, as given
    let v = Shown::triangles_from_triangulation(&t);
    if v.len() % 3 != 0 {
        return Err(format!("{} vertices to draw triangles with", v.len()));
    }
    let mut got: Vec<[S; 3]> = v.chunks(3).map(|c| rotated([at(&c[0]), at(&c[1]), at(&c[2])])).collect();
    let mut want: Vec<[S; 3]> = (0..m.tris.len()).map(|i| rotated(m.tri(i).map(single))).collect();
    got.sort();
    want.sort();
    same("triangles", got, want)?;
    // edges, once each
    let v = Shown::edges_from_triangulation(&t);
    if v.len() % 2 != 0 {
        return Err(format!("{} vertices to draw edges with", v.len()));
    }
    let pair = |a: S, b: S| if a < b { (a, b) } else { (b, a) };
    let mut got: Vec<(S, S)> = v.chunks(2).map(|c| pair(at(&c[0]), at(&c[1]))).collect();
    let mut edges: Vec<(usize, usize)> = m.tris.iter().flat_map(|t| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).map(|(a, b)| (a.min(b), a.max(b))).collect();
    edges.sort();
    edges.dedup();
    let mut want: Vec<(S, S)> = edges.iter().map(|e| pair(single(m.pts[e.0]), single(m.pts[e.1]))).collect();
    got.sort();
    want.sort();
    same("edges", got, want)?;
    let flat: Vec<f32> = m.pts.iter().flat_map(|p| [p.0 as f32, p.1 as f32]).collect();
    let got: Vec<S> = Shown::from_coordinates(flat).iter().map(at).collect();
    same("coordinates", got, m.pts.iter().map(|p| single(*p)).collect())
}
fn s(r: BoxedStrategy<Raw>) -> BoxedStrategy<(Raw, u32)> {
    (r, prop_oneof![Just(0u32), s_tilt()]).boxed()
}
pub fn window() -> Property {
    Property {
        id: "C31",
        rule: "the triangulation has at least 4 triangles",
        assumptions: &["what is drawn is read from the lists of vertices given to OpenGL: no window is opened"],
        subs: vec![
            Sub::new("parts", 12000, 240000, || s(s_parts()), |c, _, o| drawn(c, o)).boxed(),
            Sub::new("star", 8000, 160000, || s(s_star()), |c, _, o| drawn(c, o)).boxed(),
        ],
    }
}
