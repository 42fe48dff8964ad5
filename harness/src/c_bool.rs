//! Union, intersection and subtraction of polygons, as regions.
use crate::domain::*;
use crate::engine::*;
use crate::exact::*;
use nlsn_delaunay::elements::{polyline::*, vertex::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
    a: Raw,
    b: Raw,
    shift: (i32, i32),
    probes: Vec<(u32, u32)>,
    #[serde(default)]
    tilt: u32,
}
const G: &[(u32, i32, i32)] = &[(64, -6, 1)];
fn pair(kind: Kind, n: (usize, usize)) -> BoxedStrategy<Pair> {
    let p = move || raw(kind, Shape::new(n, 0, 0, 0), G, 4);
    (p(), p(), (-40..=40i32, -40..=40i32), prop::collection::vec((0..=1000u32, 0..=1000u32), 24))
        .prop_map(|(a, b, shift, probes)| Pair { a, b, shift, probes, tilt: 0 })
        .boxed()
}
/// polygons of many corners
fn many() -> BoxedStrategy<Pair> {
    let p = || prop_oneof![2 => wheel(12..40), 1 => raw(Kind::Star, Shape::new((12, 30), 0, 0, 0), &[(1024, -4, 0)], 4)];
    (p(), p(), (-640..=640i32, -640..=640i32), prop::collection::vec((0..=1000u32, 0..=1000u32), 24))
        .prop_map(|(a, b, shift, probes)| Pair { a, b, shift, probes, tilt: 0 })
        .boxed()
}
fn tilted(s: BoxedStrategy<Pair>) -> BoxedStrategy<Pair> {
    (s, s_tilt()).prop_map(|(c, tilt)| Pair { tilt, ..c }).boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Boxes {
    pow: i32,
    off: (i32, i32),
    /// lower corner and size
    a: [u32; 4],
    b: [u32; 4],
    turn: (u32, u32),
    probes: Vec<(u32, u32)>,
}
fn boxes() -> BoxedStrategy<Boxes> {
    let bx = || [0..12u32, 0..12u32, 1..12u32, 1..12u32];
    (-3..=4i32, (-30..=30i32, -30..=30i32), bx(), bx(), (0..4u32, 0..4u32), prop::collection::vec((0..=1000u32, 0..=1000u32), 24))
        .prop_map(|(pow, off, a, b, turn, probes)| Boxes { pow, off, a, b, turn, probes })
        .boxed()
}

fn area(p: &[P]) -> f64 {
    let o = p[0];
    (1..p.len() - 1).map(|i| (p[i].0 - o.0) * (p[i + 1].1 - o.1) - (p[i].1 - o.1) * (p[i + 1].0 - o.0)).sum::<f64>() / 2.0
}
/// boundaries cross at interior points of edges only
fn general(a: &[P], b: &[P]) -> Option<usize> {
    let mut n = 0;
    for e in edges_of(a) {
        for f in edges_of(b) {
            if segs_touch(e.0, e.1, f.0, f.1) {
                if !segs_cross_properly(e.0, e.1, f.0, f.1) {
                    return None;
                }
                n += 1;
            }
        }
    }
    Some(n)
}
/// distance from the border
fn clearance(p: &[P], q: P) -> f64 {
    edges_of(p)
        .iter()
        .map(|(a, b)| {
            let d = (b.0 - a.0, b.1 - a.1);
            let w = (q.0 - a.0, q.1 - a.1);
            let t = ((w.0 * d.0 + w.1 * d.1) / (d.0 * d.0 + d.1 * d.1)).clamp(0.0, 1.0);
            (w.0 - t * d.0).hypot(w.1 - t * d.1)
        })
        .fold(f64::MAX, f64::min)
}
struct Region<'a> {
    name: &'a str,
    polys: Vec<Vec<P>>,
}
fn same_region(r: &Region, a: &[P], b: &[P], want: &dyn Fn(bool, bool) -> bool, probes: &[P], area_want: Option<f64>) -> Res {
    let scale = a.iter().chain(b).map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
    let what = |s: String| Err(format!("{} of {a:?} and {b:?} is {:?}: {s}", r.name, r.polys));
    for p in &r.polys {
        if !simple_polygon(p) {
            return what(format!("{p:?} is not a simple polygon"));
        }
        if area(p) <= 0.0 {
            return what(format!("{p:?} is not counterclockwise"));
        }
    }
    for q in probes {
        if clearance(a, *q).min(clearance(b, *q)) < 1e-9 * scale {
            continue;
        }
        let n = r.polys.iter().filter(|p| in_polygon(p, *q) >= 0).count();
        let w = want(in_polygon(a, *q) > 0, in_polygon(b, *q) > 0);
        if n != w as usize {
            return what(format!("{q:?} is in {n} of the pieces, expected {}", w as usize));
        }
    }
    if let Some(w) = area_want {
        let got: f64 = r.polys.iter().map(|p| area(p)).sum();
        if !((got - w).abs() <= 1e-9 * scale * scale) {
            return what(format!("its area is {got}, expected {w}"));
        }
    }
    Ok(())
}
fn ops(a: &[P], b: &[P], turn: u32, raw_probes: &[(u32, u32)], convex: bool, o: &mut Obs) -> Res {
    let Some(n) = general(a, b) else {
        o.discard = true;
        return Ok(());
    };
    let turned = tilt(turn);
    let place = |p: &[P]| p.iter().map(|p| if turn == 0 { *p } else { turned(*p) }).collect::<Vec<P>>();
    let (a, b) = (&place(a)[..], &place(b)[..]);
    let (pa, pb) = (closed(a), closed(b));
    let mut all = a.to_vec();
    all.extend(b);
    let ((x0, x1), (y0, y1)) = extent(&all);
    let mut probes: Vec<P> = raw_probes
        .iter()
        .map(|q| (x0 + (x1 - x0) * q.0 as f64 / 1000.0, y0 + (y1 - y0) * q.1 as f64 / 1000.0))
        .collect();
    probes.extend(all.iter());
    let list = |v: Vec<Polyline>| v.iter().map(|p| pts(p)).collect::<Vec<_>>();
    o.tag(match n {
        0 => "apart or nested",
        2 => "two crossings",
        _ => "four or more crossings",
    });
    o.nontrivial = n > 0;
    let u = Polyline::union(&pa, &pb).map(|x| pts(&x.0));
    let i = Region { name: "the intersection", polys: list(Polyline::intersection(&pa, &pb).0) };
    let s = Region { name: "the difference", polys: Polyline::subtraction(&pa, &pb).0.iter().map(|p| pts(p)).collect() };
    if n == 0 {
        let a_in_b = in_polygon(b, a[0]) > 0;
        let b_in_a = in_polygon(a, b[0]) > 0;
        if a_in_b || b_in_a {
            let outer = if a_in_b { b } else { a };
            let u = Region { name: "the union", polys: u.into_iter().collect() };
            same_region(&u, a, b, &|x, y| x || y, &probes, Some(area(outer)))?;
            if b_in_a && !s.polys.is_empty() {
                return Err(format!("{b:?} inside {a:?} was subtracted: {:?}", s.polys));
            }
        } else if u.is_some() {
            return Err(format!("{a:?} and {b:?} are apart but were united: {u:?}"));
        }
        return Ok(());
    }
    for (name, left, used) in [
        ("the union", Polyline::union(&pa, &pb).map(|x| (x.1, vec![pts(&x.0)]))),
        ("the intersection", Some(Polyline::intersection(&pa, &pb)).map(|x| (x.1, list(x.0)))),
        ("the difference", Some(Polyline::subtraction(&pa, &pb)).map(|x| (x.1, x.0.iter().map(|p| pts(p)).collect()))),
    ]
    .into_iter()
    .filter_map(|(name, r)| r.map(|(left, used)| (name, left, used)))
    {
        left_out(name, &left, &used, a, b)?;
    }
    let inter = if convex { clip_area(a, b) } else { return nonconvex(&u, &i, &s, a, b, &probes) };
    same_region(&i, a, b, &|x, y| x && y, &probes, Some(inter))?;
    let u = Region { name: "the union", polys: u.into_iter().collect() };
    same_region(&u, a, b, &|x, y| x || y, &probes, Some(area(a) + area(b) - inter))?;
    same_region(&s, a, b, &|x, y| x && !y, &probes, Some(area(a) - inter))
}
/// the pieces of both outlines are either on the result or reported as left out of it
fn left_out(name: &str, left: &HashSet<(Rc<Vertex>, Rc<Vertex>)>, used: &[Vec<P>], a: &[P], b: &[P]) -> Res {
    let left: Vec<(P, P)> = left.iter().map(|(v, w)| ((v.x, v.y), (w.x, w.y))).collect();
    let used: Vec<(P, P)> = used.iter().flat_map(|p| edges_of(p)).collect();
    let len = |s: &[(P, P)]| s.iter().map(|(p, q)| (p.0 - q.0).hypot(p.1 - q.1)).sum::<f64>();
    let all: Vec<(P, P)> = edges_of(a).into_iter().chain(edges_of(b)).collect();
    if let Some(s) = left.iter().find(|s| used.contains(*s) || used.contains(&(s.1, s.0))) {
        return Err(format!("{s:?} is on {name} of {a:?} and {b:?} and left out of it as well"));
    }
    if !((len(&left) + len(&used) - len(&all)).abs() <= 1e-9 * len(&all)) {
        return Err(format!("{name} of {a:?} and {b:?}: {used:?} and the rest {left:?} are not all of the two"));
    }
    for (p, q) in left {
        let m = ((p.0 + q.0) / 2.0, (p.1 + q.1) / 2.0);
        if !(clearance(a, m).min(clearance(b, m)) <= 1e-9 * len(&all)) {
            return Err(format!("{p:?}{q:?}, left out of {name}, is on neither {a:?} nor {b:?}"));
        }
    }
    Ok(())
}
fn nonconvex(u: &Option<Vec<P>>, i: &Region, s: &Region, a: &[P], b: &[P], probes: &[P]) -> Res {
    same_region(i, a, b, &|x, y| x && y, probes, None)?;
    same_region(s, a, b, &|x, y| x && !y, probes, None)?;
    let inter: f64 = i.polys.iter().map(|p| area(p)).sum();
    let diff: f64 = s.polys.iter().map(|p| area(p)).sum();
    let scale = a.iter().chain(b).map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
    if !((inter + diff - area(a)).abs() <= 1e-9 * scale * scale) {
        return Err(format!("{a:?} minus and and {b:?}: areas {diff} and {inter} of {}", area(a)));
    }
    // the union is bounded by its outer outline: gaps between the two are filled
    let Some(u) = u else { return Err(format!("{a:?} and {b:?} cross but were not united")) };
    for q in probes {
        if clearance(a, *q).min(clearance(b, *q)) > 1e-9 * scale && (in_polygon(a, *q) > 0 || in_polygon(b, *q) > 0) && in_polygon(u, *q) < 0 {
            return Err(format!("{q:?} is not in the union {u:?} of {a:?} and {b:?}"));
        }
    }
    if area(u) < (area(a) + area(b) - inter) - 1e-9 * scale * scale {
        return Err(format!("the union {u:?} of {a:?} and {b:?} is too small"));
    }
    Ok(())
}
/// area of the intersection of convex polygons, by clipping
pub fn clip_area(a: &[P], b: &[P]) -> f64 {
    let mut p = a.to_vec();
    for (s, t) in edges_of(b) {
        let side = |q: P| (t.0 - s.0) * (q.1 - s.1) - (t.1 - s.1) * (q.0 - s.0);
        let mut out = vec![];
        for (x, y) in edges_of(&p) {
            let (u, v) = (side(x), side(y));
            if u >= 0.0 {
                out.push(x);
            }
            if (u > 0.0 && v < 0.0) || (u < 0.0 && v > 0.0) {
                let k = u / (u - v);
                out.push((x.0 + k * (y.0 - x.0), x.1 + k * (y.1 - x.1)));
            }
        }
        if out.is_empty() {
            return 0.0;
        }
        p = out;
    }
    if p.len() < 3 {
        0.0
    } else {
        area(&p)
    }
}
fn pair_ops(c: &Pair, convex: bool, o: &mut Obs) -> Res {
    let mut b = c.b.clone();
    b.pow = c.a.pow;
    b.off = c.a.off;
    let (Some(da), Some(db)) = (c.a.build(), b.build()) else {
        o.discard = true;
        return Ok(());
    };
    let s = 2f64.powi(c.a.pow);
    let b: Vec<P> = db.boundary.iter().map(|p| (p.0 + c.shift.0 as f64 * s, p.1 + c.shift.1 as f64 * s)).collect();
    ops(&da.boundary, &b, c.tilt, &c.probes, convex, o)
}
fn box_ops(c: &Boxes, o: &mut Obs) -> Res {
    let s = 2f64.powi(c.pow);
    let mk = |q: &[u32; 4], turn: u32| {
        let f = |x: u32, y: u32| (x as f64 * s + c.off.0 as f64, y as f64 * s + c.off.1 as f64);
        let mut p = vec![f(q[0], q[1]), f(q[0] + q[2], q[1]), f(q[0] + q[2], q[1] + q[3]), f(q[0], q[1] + q[3])];
        p.rotate_left(turn as usize);
        p
    };
    ops(&mk(&c.a, c.turn.0), &mk(&c.b, c.turn.1), 0, &c.probes, true, o)
}

// ---- borders that share points and segments ---------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Flush {
    pow: i32,
    off: (i32, i32),
    a: Rect,
    b: Rect,
    #[serde(default)]
    tilt: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rect {
    raw: Raw,
    quarter: u32,
    boxed: bool,
    at: (u32, u32),
}
impl Rect {
    fn build(&self) -> Option<Vec<P>> {
        let mut p = if self.boxed {
            let (x, y) = extent(&self.raw.bpts.iter().map(|g| (g.0 as f64, g.1 as f64)).collect::<Vec<P>>());
            if x.0 == x.1 || y.0 == y.1 {
                return None;
            }
            vec![(x.0, y.0), (x.1, y.0), (x.1, y.1), (x.0, y.1)]
        } else {
            self.raw.build()?.boundary
        };
        for _ in 0..self.quarter {
            for q in p.iter_mut() {
                *q = (6.0 - q.1, q.0);
            }
        }
        let n = p.len();
        p.rotate_left(self.raw.turn as usize % n);
        Some(p.iter().map(|q| (q.0 + self.at.0 as f64, q.1 + self.at.1 as f64)).collect())
    }
}
fn flush() -> BoxedStrategy<Flush> {
    let one = || {
        (raw(Kind::Stairs, Shape::new((4, 7), 0, 0, 0), &[(6, 0, 0)], 0), 0..4u32, prop::bool::ANY, (0..5u32, 0..5u32))
            .prop_map(|(raw, quarter, boxed, at)| Rect { raw, quarter, boxed, at })
    };
    (-3..=4i32, (-30..=30i32, -30..=30i32), one(), one()).prop_map(|(pow, off, a, b)| Flush { pow, off, a, b, tilt: 0 }).boxed()
}
/// the cells cut out by all the coordinates
pub struct Cells {
    w: usize,
    h: usize,
    pub mid: Vec<P>,
    size: Vec<f64>,
}
impl Cells {
    pub fn new(p: &[P]) -> Cells {
        let uniq = |f: fn(&P) -> f64| {
            let mut v: Vec<f64> = p.iter().map(f).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.dedup();
            // a margin around everything
            v.insert(0, v[0] - 1.0);
            v.push(v[v.len() - 1] + 1.0);
            v.windows(2).map(|w| ((w[0] + w[1]) / 2.0, w[1] - w[0])).collect::<Vec<P>>()
        };
        let (x, y) = (uniq(|q| q.0), uniq(|q| q.1));
        Cells { w: x.len(), h: y.len(), mid: y.iter().flat_map(|v| x.iter().map(move |u| (u.0, v.0))).collect(), size: y.iter().flat_map(|v| x.iter().map(move |u| u.1 * v.1)).collect() }
    }
    pub fn areas(&self) -> &[f64] {
        &self.size
    }
    pub fn parts(&self, set: &[bool]) -> (usize, Vec<usize>) {
        let mut id = vec![usize::MAX; set.len()];
        let mut n = 0;
        for s in 0..set.len() {
            if !set[s] || id[s] != usize::MAX {
                continue;
            }
            let mut todo = vec![s];
            while let Some(i) = todo.pop() {
                if !set[i] || id[i] != usize::MAX {
                    continue;
                }
                id[i] = n;
                let (x, y) = (i % self.w, i / self.w);
                if x > 0 {
                    todo.push(i - 1);
                }
                if x + 1 < self.w {
                    todo.push(i + 1);
                }
                if y > 0 {
                    todo.push(i - self.w);
                }
                if y + 1 < self.h {
                    todo.push(i + self.w);
                }
            }
            n += 1;
        }
        (n, id)
    }
    /// two cells meet at a corner only
    pub fn pinched(&self, s: &[bool]) -> bool {
        (0..self.h - 1).any(|y| {
            (0..self.w - 1).any(|x| {
                let i = y * self.w + x;
                let (a, b, c, d) = (s[i], s[i + 1], s[i + self.w], s[i + self.w + 1]);
                (a && d && !b && !c) || (b && c && !a && !d)
            })
        })
    }
}
fn flush_ops(c: &Flush, o: &mut Obs) -> Res {
    let s = 2f64.powi(c.pow);
    let f = |p: Vec<P>| p.iter().map(|q| (q.0 * s + c.off.0 as f64, q.1 * s + c.off.1 as f64)).collect::<Vec<P>>();
    let (Some(a), Some(b)) = (c.a.build().map(f), c.b.build().map(f)) else {
        o.discard = true;
        return Ok(());
    };
    let all: Vec<P> = a.iter().chain(&b).copied().collect();
    let g = Cells::new(&all);
    let in_a: Vec<bool> = g.mid.iter().map(|m| in_polygon(&a, *m) > 0).collect();
    let in_b: Vec<bool> = g.mid.iter().map(|m| in_polygon(&b, *m) > 0).collect();
    let both = |f: fn(bool, bool) -> bool| in_a.iter().zip(&in_b).map(|(x, y)| f(*x, *y)).collect::<Vec<bool>>();
    let (uni, int, dif) = (both(|x, y| x || y), both(|x, y| x && y), both(|x, y| x && !y));
    let touch = polys_touch(&a, &b);
    let shared = edges_of(&a).iter().any(|e| edges_of(&b).iter().any(|f| line_crossing(e.0, e.1, f.0, f.1).is_none() && segs_touch(e.0, e.1, f.0, f.1)));
    o.nontrivial = touch;
    o.tag_if(shared, "borders share a segment or are aligned");
    let overlap = int.iter().any(|x| *x);
    o.tag_if(touch && !overlap, "side by side");
    // the polygons are turned, and the results turned back to the grid
    let turned = tilt(c.tilt);
    let place = |p: &[P]| closed(&p.iter().map(|p| if c.tilt == 0 { *p } else { turned(*p) }).collect::<Vec<P>>());
    let (pa, pb) = (place(&a), place(&b));
    let scale = all.iter().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
    let pts = |p: &Polyline| -> Vec<P> {
        // the turn is a complex factor; corners are on the grid, other vertices on borders
        let f = turned((1.0, 0.0));
        let n = f.0 * f.0 + f.1 * f.1;
        let snap = |x: f64, o: i32| {
            let g = ((x - o as f64) / s * 64.0).round() / 64.0 * s + o as f64;
            if (g - x).abs() <= 1e-9 * scale { g } else { x }
        };
        let back = |q: P| (snap((q.0 * f.0 + q.1 * f.1) / n, c.off.0), snap((q.1 * f.0 - q.0 * f.1) / n, c.off.1));
        if c.tilt == 0 { pts(p) } else { pts(p).into_iter().map(back).collect() }
    };
    let check = |name: &str, polys: &[Vec<P>], cells: &[bool], filled: Option<&[bool]>| -> Res {
        let what = |s: String| Err(format!("{name} of {a:?} and {b:?} is {polys:?}: {s}"));
        for p in polys {
            if !simple_polygon(p) || area(p) <= 0.0 {
                return what(format!("{p:?} is not a simple counterclockwise polygon"));
            }
        }
        let (n, _) = g.parts(cells);
        if n != polys.len() {
            return what(format!("expected {n} pieces"));
        }
        for (i, m) in g.mid.iter().enumerate() {
            let k = polys.iter().filter(|p| in_polygon(p, *m) >= 0).count();
            let w = cells[i] || filled.map_or(false, |f| f[i]);
            if k != w as usize {
                return what(format!("{m:?} is in {k} of the pieces, expected {}", w as usize));
            }
        }
        Ok(())
    };
    if !g.pinched(&uni) {
        let (n, _) = g.parts(&uni);
        let u: Vec<Vec<P>> = Polyline::union(&pa, &pb).iter().map(|x| pts(&x.0)).collect();
        if n > 1 {
            if !u.is_empty() {
                return Err(format!("{a:?} and {b:?} are apart but were united: {u:?}"));
            }
        } else {
            // gaps that the two enclose are filled
            let gap: Vec<bool> = uni.iter().map(|x| !x).collect();
            let (_, id) = g.parts(&gap);
            let filled: Vec<bool> = (0..gap.len()).map(|i| gap[i] && id[i] != id[0]).collect();
            o.tag_if(filled.iter().any(|x| *x), "the union encloses a gap");
            // which of the outlines is taken is not specified then
            check("the union", &u, &uni, Some(&filled))?;
        }
    }
    if !g.pinched(&int) {
        let v: Vec<Vec<P>> = Polyline::intersection(&pa, &pb).0.iter().map(|p| pts(p)).collect();
        check("the intersection", &v, &int, None)?;
    }
    if !g.pinched(&dif) && !(overlap && dif.iter().any(|x| *x) && in_b.iter().zip(&in_a).all(|(x, y)| !x || *y) && !touch) {
        let v: Vec<Vec<P>> = Polyline::subtraction(&pa, &pb).0.iter().map(|p| pts(p)).collect();
        // nothing to subtract: an empty list, or the polygon itself
        if !(v.is_empty() && !overlap) {
            check("the difference", &v, &dif, None)?;
        }
    }
    Ok(())
}
pub fn booleans() -> Property {
    Property {
        id: "C08",
        rule: "the borders of the two polygons cross",
        assumptions: &["counterclockwise simple polygons whose borders cross at interior points of edges only, or not at all"],
        subs: vec![
            Sub::new("convex", 8000, 200000, || pair(Kind::Convex, (3, 8)), |c, _, o| pair_ops(c, true, o)).budget(2_000_000).boxed(),
            Sub::new("boxes", 6000, 100000, boxes, |c, _, o| box_ops(c, o)).budget(2_000_000).boxed(),
            Sub::new("flush", 16000, 300000, flush, |c, _, o| flush_ops(c, o)).budget(2_000_000).boxed(),
            Sub::new("convex-tilted", 6000, 150000, || tilted(pair(Kind::Convex, (3, 8))), |c, _, o| pair_ops(c, true, o)).budget(2_000_000).boxed(),
            Sub::new("nonconvex-tilted", 5000, 80000, || tilted(pair(Kind::Tangle, (4, 8))), |c, _, o| pair_ops(c, false, o)).budget(2_000_000).boxed(),
            Sub::new("flush-tilted", 10000, 200000, || (flush(), s_tilt()).prop_map(|(c, tilt)| Flush { tilt, ..c }).boxed(), |c, _, o| flush_ops(c, o)).budget(2_000_000).boxed(),
            Sub::new("nonconvex", 6000, 100000, || pair(Kind::Tangle, (4, 8)), |c, _, o| pair_ops(c, false, o)).budget(2_000_000).boxed(),
            Sub::new("many", 3000, 60000, many, |c, _, o| pair_ops(c, false, o)).budget(10_000_000).boxed(),
            Sub::new("stairs", 4000, 60000, || pair(Kind::Stairs, (4, 7)), |c, _, o| pair_ops(c, false, o)).budget(2_000_000).boxed(),
        ],
    }
}
