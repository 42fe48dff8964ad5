//! A plain copy of a triangulation and the exact checks made on it.
use crate::exact::*;
use nlsn_delaunay::planar::triangulation::Triangulation;
use num::bigint::BigInt;
use num::Zero;
use std::collections::{BTreeMap, BTreeSet};

pub type K = (u64, u64);
pub fn key(p: P) -> K {
    ((p.0 + 0.0).to_bits(), (p.1 + 0.0).to_bits())
}

#[derive(Debug, Clone, Default)]
pub struct Mesh {
    pub pts: Vec<P>,
    pub tris: Vec<[usize; 3]>,
    pub ghosts: Vec<(usize, usize)>,
    pub odd_ghosts: usize,
    /// adjacency entries that disagree with the triangle set
    pub adj_bad: Vec<String>,
    /// distance within which a point lies on a segment; 0: exactly
    pub eps: f64,
}

pub fn seg_dist(p: P, s: (P, P)) -> f64 {
    let d = (s.1 .0 - s.0 .0, s.1 .1 - s.0 .1);
    let t = ((p.0 - s.0 .0) * d.0 + (p.1 - s.0 .1) * d.1) / (d.0 * d.0 + d.1 * d.1);
    let t = t.clamp(0.0, 1.0);
    (p.0 - s.0 .0 - t * d.0).hypot(p.1 - s.0 .1 - t * d.1)
}
impl Mesh {
    pub fn on(&self, s: P, t: P, p: P) -> bool {
        if self.eps == 0.0 {
            on_segment(s, t, p)
        } else {
            seg_dist(p, (s, t)) <= self.eps
        }
    }
    pub fn from(t: &Triangulation) -> Mesh {
        let mut m = Mesh::default();
        let mut ids: BTreeMap<K, usize> = BTreeMap::new();
        let mut id = |m: &mut Mesh, p: P| -> usize {
            *ids.entry(key(p)).or_insert_with(|| {
                m.pts.push(p);
                m.pts.len() - 1
            })
        };
        for tr in t.triangles.iter() {
            let vs = [&tr.v1, &tr.v2, &tr.v3];
            let g = vs.iter().filter(|v| v.is_ghost).count();
            if g == 0 {
                let a = id(&mut m, (tr.v1.x, tr.v1.y));
                let b = id(&mut m, (tr.v2.x, tr.v2.y));
                let c = id(&mut m, (tr.v3.x, tr.v3.y));
                m.tris.push([a, b, c]);
            } else if g == 1 {
                // rotate so that the ghost is last
                let k = vs.iter().position(|v| v.is_ghost).unwrap();
                let a = vs[(k + 1) % 3];
                let b = vs[(k + 2) % 3];
                let a = id(&mut m, (a.x, a.y));
                let b = id(&mut m, (b.x, b.y));
                m.ghosts.push((a, b));
            } else {
                m.odd_ghosts += 1;
            }
            let (e1, e2, e3) = tr.inner_edges();
            for e in [e1, e2, e3] {
                match t.adjacency.get(&e) {
                    Some(o) if o == tr => {}
                    Some(o) => m.adj_bad.push(format!("edge {} of {} maps to {}", e, tr, o)),
                    None => m.adj_bad.push(format!("edge {} of {} has no entry", e, tr)),
                }
            }
        }
        for (e, tr) in t.adjacency.iter() {
            if !t.triangles.contains(tr) {
                m.adj_bad.push(format!("edge {} maps to {} which is not in the set", e, tr));
            }
            let (e1, e2, e3) = tr.inner_edges();
            if e != &e1 && e != &e2 && e != &e3 {
                m.adj_bad.push(format!("edge {} maps to {} which does not have it", e, tr));
            }
        }
        if t.adjacency.len() != 3 * t.triangles.len() {
            m.adj_bad.push(format!(
                "{} adjacency entries for {} triangles",
                t.adjacency.len(),
                t.triangles.len()
            ));
        }
        m.tris.sort();
        m.ghosts.sort();
        m
    }
    pub fn tri(&self, i: usize) -> [P; 3] {
        let t = self.tris[i];
        [self.pts[t[0]], self.pts[t[1]], self.pts[t[2]]]
    }
    /// directed edge -> triangle indices
    pub fn edge_map(&self) -> BTreeMap<(usize, usize), Vec<usize>> {
        let mut m: BTreeMap<(usize, usize), Vec<usize>> = BTreeMap::new();
        for (i, t) in self.tris.iter().enumerate() {
            for k in 0..3 {
                m.entry((t[k], t[(k + 1) % 3])).or_default().push(i);
            }
        }
        m
    }
    pub fn used_points(&self) -> BTreeSet<K> {
        let mut s = BTreeSet::new();
        for t in &self.tris {
            for &i in t {
                s.insert(key(self.pts[i]));
            }
        }
        s
    }
    /// no directed edge belongs to two triangles, all triangles counterclockwise
    pub fn check_manifold(&self) -> Result<(), String> {
        for i in 0..self.tris.len() {
            let [a, b, c] = self.tri(i);
            if orient(a, b, c) <= 0 {
                return Err(format!("triangle {:?} {:?} {:?} is not counterclockwise", a, b, c));
            }
        }
        for (e, ts) in self.edge_map() {
            if ts.len() > 1 {
                return Err(format!(
                    "directed edge {:?}->{:?} belongs to {} triangles",
                    self.pts[e.0],
                    self.pts[e.1],
                    ts.len()
                ));
            }
        }
        Ok(())
    }
    /// the triangles exactly tile boundary minus holes (given check_manifold), by exact area
    /// and by every unmatched edge lying on the domain's border
    pub fn check_tiling(&self, boundary: &[P], holes: &[Vec<P>]) -> Result<(), String> {
        let mut polys: Vec<Vec<P>> = vec![boundary.to_vec()];
        polys.extend(holes.iter().cloned());
        for i in 0..self.tris.len() {
            polys.push(self.tri(i).to_vec());
        }
        let (a, _) = area2_common(&polys);
        let abs = |b: &BigInt| if b < &BigInt::zero() { -b } else { b.clone() };
        let mut want = abs(&a[0]);
        for h in &a[1..1 + holes.len()] {
            want -= abs(h);
        }
        let got: BigInt = a[1 + holes.len()..].iter().fold(BigInt::zero(), |s, x| s + x);
        let em = self.edge_map();
        for (e, ts) in &em {
            if em.contains_key(&(e.1, e.0)) {
                continue;
            }
            let (p, q) = (self.pts[e.0], self.pts[e.1]);
            let on = |poly: &[P]| {
                (0..poly.len()).any(|i| {
                    let (s, t) = (poly[i], poly[(i + 1) % poly.len()]);
                    self.on(s, t, p) && self.on(s, t, q)
                })
            };
            if !on(boundary) && !holes.iter().any(|h| on(h)) {
                return Err(format!(
                    "edge {:?}-{:?} of triangle {:?} has no neighbour and is not on the border",
                    p,
                    q,
                    self.tri(ts[0])
                ));
            }
        }
        if self.eps > 0.0 {
            use num::ToPrimitive;
            let (w, g) = (want.to_f64().unwrap(), got.to_f64().unwrap());
            if (w - g).abs() <= 1e-9 * w {
                return Ok(());
            }
        }
        if want != got {
            return Err(format!("area of the triangles {} differs from the domain's {} (scaled)", got, want));
        }
        Ok(())
    }
    /// every border edge has exactly one outer (ghost) triangle facing it, and no other exists
    pub fn check_ghosts(&self) -> Result<(), String> {
        if self.odd_ghosts > 0 {
            return Err("a triangle has more than one ghost vertex".into());
        }
        let em = self.edge_map();
        let g: BTreeSet<(usize, usize)> = self.ghosts.iter().cloned().collect();
        if g.len() != self.ghosts.len() {
            return Err("duplicate outer triangle".into());
        }
        for e in em.keys() {
            let twin = em.contains_key(&(e.1, e.0));
            let ghost = g.contains(&(e.1, e.0));
            if twin == ghost {
                return Err(format!(
                    "edge {:?}-{:?}: neighbour triangle {}, outer triangle {}",
                    self.pts[e.0], self.pts[e.1], twin, ghost
                ));
            }
        }
        for e in &g {
            if !em.contains_key(&(e.1, e.0)) {
                return Err(format!("outer triangle on {:?}-{:?} faces nothing", self.pts[e.0], self.pts[e.1]));
            }
        }
        Ok(())
    }
    /// interior edges not covered by a constraint are locally Delaunay; returns the number checked
    pub fn check_delaunay(&self, constraints: &[(P, P)]) -> Result<usize, String> {
        let em = self.edge_map();
        let mut n = 0;
        for (e, ts) in &em {
            if e.0 > e.1 {
                continue;
            }
            let Some(o) = em.get(&(e.1, e.0)) else { continue };
            let (p, q) = (self.pts[e.0], self.pts[e.1]);
            if constraints.iter().any(|c| self.on(c.0, c.1, p) && self.on(c.0, c.1, q)) {
                continue;
            }
            let [a, b, c] = self.tri(ts[0]);
            let opp = self.tris[o[0]].iter().find(|&&v| v != e.0 && v != e.1).unwrap();
            n += 1;
            if incircle(a, b, c, self.pts[*opp]) > 0 {
                return Err(format!("edge {:?}-{:?} is not Delaunay: {:?} is inside the circle of {:?}", p, q, self.pts[*opp], [a, b, c]));
            }
        }
        Ok(n)
    }
    /// the segment is a chain of edges of the triangulation
    pub fn covers_segment(&self, s: (P, P)) -> bool {
        let em = self.edge_map();
        let mut on: Vec<usize> = (0..self.pts.len()).filter(|&i| self.on(s.0, s.1, self.pts[i])).collect();
        let d = (s.1 .0 - s.0 .0, s.1 .1 - s.0 .1);
        on.sort_by(|&i, &j| {
            let f = |k: usize| (self.pts[k].0 - s.0 .0) * d.0 + (self.pts[k].1 - s.0 .1) * d.1;
            f(i).partial_cmp(&f(j)).unwrap()
        });
        if on.len() < 2 || key(self.pts[on[0]]) != key(s.0) || key(self.pts[on[on.len() - 1]]) != key(s.1) {
            return false;
        }
        on.windows(2).all(|w| em.contains_key(&(w[0], w[1])) || em.contains_key(&(w[1], w[0])))
    }
}
