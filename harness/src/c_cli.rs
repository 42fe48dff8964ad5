//! The command line tool, from JSON to JSON.
use crate::c_bool::Cells;
use crate::c_refine::{self, area_of, bounds, quality_of};
use crate::cli::*;
use crate::domain::*;
use crate::engine::*;
use crate::exact::*;
use crate::exec::splitmix;
use crate::mesh::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;

/// choices that must not matter
pub struct Mix(u64);
impl Mix {
    pub fn new(s: u64) -> Mix {
        Mix(s)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (splitmix(&mut self.0) % n.max(1) as u64) as usize
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

fn point(p: P, m: &mut Mix) -> Value {
    match m.below(3) {
        0 => json!({"x": p.0, "y": p.1, "z": 7.0}),
        _ => json!({"x": p.0, "y": p.1}),
    }
}
fn points(ps: &[P], m: &mut Mix) -> Vec<Value> {
    ps.iter().map(|p| point(*p, m)).collect()
}
pub fn polyline(intent: &str, p: &[P], m: &mut Mix) -> Value {
    json!({"intent": intent, "geometry": "polyline", "points": points(p, m)})
}
fn vertices(p: &[P], m: &mut Mix) -> Value {
    json!({"intent": "constraint", "geometry": "vertices", "points": points(p, m)})
}
fn segments(s: &[(P, P)], m: &mut Mix) -> Value {
    if m.below(2) == 0 {
        let ends: Vec<P> = s.iter().flat_map(|s| [s.0, s.1]).collect();
        return json!({"intent": "constraint", "geometry": "segments", "points": points(&ends, m)});
    }
    // a list of points, assembled by index
    let mut ps: Vec<P> = s.iter().flat_map(|s| [s.0, s.1]).collect();
    ps.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ps.dedup();
    m.shuffle(&mut ps);
    let ix = |p: P| ps.iter().position(|q| *q == p).unwrap();
    let a: Vec<Value> = s.iter().map(|s| json!([ix(s.0), ix(s.1)])).collect();
    json!({"intent": "constraint", "geometry": "segments", "points": points(&ps, m), "assemble": a})
}
const NAMES: &[&str] = &["part", "", "Sample 4 - Circle", "läng\u{2028}e \"quoted\" \\ \n\t{}", "名前 😀", "null"];
const IDS: &[&str] = &["44a111eb-f387-456e-ad9b-6a65ea6e89b4", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-4fff-bfff-ffffffffffff"];
const DATES: &[&str] = &["2020-09-04T00:00:00.000Z", "", "1970-01-01", "not a date"];

pub struct Doc {
    pub json: Value,
}
impl Doc {
    pub fn new(actions: Vec<Value>, quality: f64, area: Option<f64>, m: &mut Mix) -> Doc {
        let mut params = json!({ "quality": quality });
        if area.is_some() || m.below(2) == 0 {
            params["max_area"] = json!(area);
        }
        let mut json = json!({"name": NAMES[m.below(NAMES.len())], "actions": actions, "params": params});
        if m.below(2) == 0 {
            json["id"] = json!(IDS[m.below(IDS.len())]);
        }
        if m.below(2) == 0 {
            json["date"] = json!(DATES[m.below(DATES.len())]);
        }
        Doc { json }
    }
    /// runs the tool; Err: it did not accept the input
    pub fn run(&self, hash_seed: u64, m: &mut Mix) -> Result<Result<Output, String>, String> {
        if std::env::var("VH_SHOW").is_ok() {
            println!("{}", self.json);
        }
        let dir = Scratch::new();
        let text = if m.below(2) == 0 { self.json.to_string() } else { serde_json::to_string_pretty(&self.json).unwrap() };
        std::fs::write(dir.0.join("in.json"), text).expect("scratch file");
        let to_file = m.below(4) != 0;
        let stale = to_file && m.below(3) == 0;
        if stale {
            std::fs::write(dir.0.join("out.json"), "x".repeat(100_000)).expect("scratch file");
        }
        let args: Vec<&str> = match (to_file, m.below(2)) {
            (true, 0) => vec!["-i", "in.json", "-o", "out.json"],
            (true, _) => vec!["--output", "out.json", "--input", "in.json"],
            (false, 0) => vec!["-i", "in.json"],
            (false, _) => vec!["--input", "in.json"],
        };
        let r = run(&dir, &args, hash_seed);
        if r.code == Some(101) {
            return Ok(Err(r.end()));
        }
        if r.code != Some(0) {
            return Err(format!("the tool {}", r.end()));
        }
        let text = if to_file {
            if !r.stdout.trim().is_empty() {
                return Err(format!("output to a file, yet printed {:?}", r.stdout.chars().take(80).collect::<String>()));
            }
            std::fs::read_to_string(dir.0.join("out.json")).map_err(|e| format!("no output file: {e}"))?
        } else {
            r.stdout
        };
        let out = read_output(&text)?;
        for k in ["name", "id", "date"] {
            match self.json.get(k) {
                Some(v) if out.json.get(k) != Some(v) => return Err(format!("{k} {v} became {:?}", out.json.get(k))),
                _ => {}
            }
        }
        let id = out.json["id"].as_str().unwrap_or("");
        if id.len() != 36 || !id.bytes().enumerate().all(|(i, b)| if [8, 13, 18, 23].contains(&i) { b == b'-' } else { b.is_ascii_hexdigit() }) {
            return Err(format!("{id:?} is not an id"));
        }
        let date = out.json["date"].as_str().unwrap_or("").as_bytes().to_vec();
        if self.json.get("date").is_none() {
            let want = b"0000-00-00T00:00:00";
            if date.len() < want.len() || !want.iter().zip(&date).all(|(w, d)| if *w == b'0' { d.is_ascii_digit() } else { w == d }) {
                return Err(format!("{:?} is not a date", out.json["date"]));
            }
        }
        Ok(Ok(out))
    }
}

// ---- C23: the mesh of a domain ------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    c: c_refine::Case,
    mix: u64,
}
fn file(s: BoxedStrategy<c_refine::Case>) -> BoxedStrategy<FileCase> {
    (s, 0u64..1 << 32).prop_map(|(c, mix)| FileCase { c, mix }).boxed()
}
fn chunks<T: Clone>(v: &[T], m: &mut Mix) -> Vec<Vec<T>> {
    let mut v = v.to_vec();
    m.shuffle(&mut v);
    let k = m.below(v.len() + 1);
    let (a, b) = v.split_at(k);
    [a.to_vec(), b.to_vec()].into_iter().filter(|c| !c.is_empty()).collect()
}
fn faithful(f: &FileCase, hash_seed: u64, o: &mut Obs) -> Res {
    let Some(d) = f.c.build() else {
        o.discard = true;
        return Ok(());
    };
    crate::c_mesh::show(&d);
    crate::c_mesh::classify(&d, o);
    let m = &mut Mix::new(f.mix);
    let mut actions = vec![polyline("include", &d.boundary, m)];
    actions.extend(d.holes.iter().map(|h| polyline("remove", h, m)));
    for c in chunks(&d.segs, m) {
        actions.push(segments(&c, m));
    }
    for c in chunks(&d.verts, m) {
        actions.push(vertices(&c, m));
    }
    m.shuffle(&mut actions);
    let (ratio, max_area) = bounds(&f.c, &d);
    let doc = Doc::new(actions, ratio, max_area, m);
    let mut out = doc.run(hash_seed, m)?.map_err(|e| format!("the tool refused a valid domain: {e}"))?;
    out.mesh.eps = f.c.eps(&d);
    // numbers may lose a bit when they are read
    let off = out.mesh.eps * 1e-3;
    for q in out.mesh.pts.iter_mut() {
        if let Some(k) = d.wanted().iter().map(|k| (f64::from_bits(k.0), f64::from_bits(k.1))).find(|p| (p.0 - q.0).abs() <= off && (p.1 - q.1).abs() <= off) {
            *q = k;
        }
    }
    let mesh = &out.mesh;
    o.nontrivial = mesh.pts.len() > d.constraint_points().len();
    mesh.check_manifold()?;
    mesh.check_tiling(&d.boundary, &d.holes)?;
    for k in 0..mesh.tris.len() {
        let t = mesh.tri(k);
        if quality_of(t) > ratio * (1.0 + 1e-9) {
            return Err(format!("triangle {t:?} has quality {}, over {ratio}", quality_of(t)));
        }
        if max_area.map_or(false, |a| area_of(t) > a * (1.0 + 1e-9)) {
            return Err(format!("triangle {t:?} has area {}, over {max_area:?}", area_of(t)));
        }
    }
    if let Some(k) = d.wanted().difference(&mesh.used_points()).next() {
        return Err(format!("input vertex {:?} is missing in the output", (f64::from_bits(k.0), f64::from_bits(k.1))));
    }
    for c in d.constraints() {
        if !mesh.covers_segment(c) {
            return Err(format!("constraint {:?}-{:?} is not made of edges of the output", c.0, c.1));
        }
    }
    if let Some((a, b, p)) = c_refine::encroached(&d, mesh).first() {
        return Err(format!("constrained edge {a:?}-{b:?} is encroached by {p:?} in the output"));
    }
    Ok(())
}
pub fn output() -> Property {
    Property {
        id: "C23",
        rule: "the output has more vertices than the constraints of the input",
        assumptions: &[
            "one included boundary with removals strictly inside that do not meet, valid segments and vertices, constraints meeting at more than 45 degrees, quality ratio of 1.42 or more",
            "the tool runs as a process with hash keys set by the case; 40 s of processor time count as not terminating",
        ],
        subs: vec![
            Sub::new("file-convex", 700, 15000, || file(c_refine::s_convex()), faithful).direct().boxed(),
            Sub::new("file-parts", 900, 20000, || file(c_refine::s_parts()), faithful).direct().boxed(),
            Sub::new("file-stairs", 700, 15000, || file(c_refine::s_stairs()), faithful).direct().boxed(),
            Sub::new("file-tilted", 500, 10000, || file(c_refine::tilted(prop_oneof![c_refine::s_parts(), c_refine::s_stairs()].boxed())), faithful).direct().boxed(),
            Sub::new("file-bays", 100, 3000, || file(c_refine::s_bays()), faithful).direct().boxed(),
            Sub::new("file-tangle", 400, 8000, || file(c_refine::s_tangle()), faithful).direct().boxed(),
        ],
    }
}

// ---- C24: composition of solids -----------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Blocks {
    pow: i32,
    off: (i32, i32),
    includes: Vec<Block>,
    removes: Vec<Block>,
    mix: u64,
}
/// an L of two boxes, or a box: corner, size, and the notch cut from one corner
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Block {
    at: (u32, u32),
    size: (u32, u32),
    notch: Option<(u32, u32, u32)>,
    turn: u32,
}
impl Block {
    fn build(&self) -> Vec<P> {
        let (x, y, w, h) = (self.at.0 as f64, self.at.1 as f64, self.size.0 as f64, self.size.1 as f64);
        let (x1, y1) = (x + w, y + h);
        let mut p = vec![(x, y), (x1, y), (x1, y1), (x, y1)];
        if let Some((c, a, b)) = self.notch {
            let (a, b) = (a as f64, b as f64);
            if a < w && b < h {
                p = match c % 4 {
                    0 => vec![(x + a, y), (x1, y), (x1, y1), (x, y1), (x, y + b), (x + a, y + b)],
                    1 => vec![(x, y), (x1 - a, y), (x1 - a, y + b), (x1, y + b), (x1, y1), (x, y1)],
                    2 => vec![(x, y), (x1, y), (x1, y1 - b), (x1 - a, y1 - b), (x1 - a, y1), (x, y1)],
                    _ => vec![(x, y), (x1, y), (x1, y1), (x + a, y1), (x + a, y1 - b), (x, y1 - b)],
                };
            }
        }
        let n = p.len();
        p.rotate_left(self.turn as usize % n);
        p
    }
}
fn block(at: u32, size: u32) -> BoxedStrategy<Block> {
    ((0..at, 0..at), (1..=size, 1..=size), prop::option::of((0..4u32, 1..3u32, 1..3u32)), 0..6u32)
        .prop_map(|(at, size, notch, turn)| Block { at, size, notch, turn })
        .boxed()
}
fn blocks() -> BoxedStrategy<Blocks> {
    let sets = prop_oneof![
        // few large pieces, small removals
        3 => (prop::collection::vec(block(6, 8), 1..=3), prop::collection::vec(block(9, 4), 0..=3)),
        // one piece, many removals
        2 => (prop::collection::vec((block(1, 2), 8..12u32, 8..12u32).prop_map(|(b, w, h)| Block { size: (w, h), ..b }), 1..=1), prop::collection::vec(block(10, 3), 1..=5)),
        // a row of pieces side by side
        1 => (prop::collection::vec(block(4, 5), 2..=4), prop::collection::vec(block(6, 2), 0..=2)),
    ];
    (-2..=2i32, (-20..=20i32, -20..=20i32), sets, 0u64..1 << 32)
        .prop_map(|(pow, off, (includes, removes), mix)| Blocks { pow, off, includes, removes, mix })
        .boxed()
}
fn or(a: &[bool], b: &[bool]) -> Vec<bool> {
    a.iter().zip(b).map(|(x, y)| *x || *y).collect()
}
fn minus(a: &[bool], b: &[bool]) -> Vec<bool> {
    a.iter().zip(b).map(|(x, y)| *x && !*y).collect()
}
/// the triangles tile exactly the region
fn tiles(mesh: &Mesh, inside: &dyn Fn(P) -> bool, area: f64, eps: f64) -> Res {
    mesh.check_manifold()?;
    let got: f64 = (0..mesh.tris.len()).map(|i| area_of(mesh.tri(i))).sum();
    if !((got - area).abs() <= 1e-9 * area) {
        return Err(format!("the area of the output is {got}, expected {area}"));
    }
    let em = mesh.edge_map();
    for e in em.keys() {
        if em.contains_key(&(e.1, e.0)) {
            continue;
        }
        let (p, q) = (mesh.pts[e.0], mesh.pts[e.1]);
        let l = (q.0 - p.0).hypot(q.1 - p.1);
        let n = (-(q.1 - p.1) / l * eps, (q.0 - p.0) / l * eps);
        for t in [0.25, 0.5, 0.75] {
            let m = (p.0 + (q.0 - p.0) * t, p.1 + (q.1 - p.1) * t);
            if !inside((m.0 + n.0, m.1 + n.1)) || inside((m.0 - n.0, m.1 - n.1)) {
                return Err(format!("edge {p:?}-{q:?} has no neighbour, but does not part the region from its outside at {m:?}"));
            }
        }
    }
    for i in 0..mesh.tris.len() {
        let [a, b, c] = mesh.tri(i);
        let m = ((a.0 + b.0 + c.0) / 3.0, (a.1 + b.1 + c.1) / 3.0);
        if !inside(m) {
            return Err(format!("triangle {:?} is not in the region", [a, b, c]));
        }
    }
    Ok(())
}
fn compose(c: &Blocks, hash_seed: u64, o: &mut Obs) -> Res {
    let s = 2f64.powi(c.pow);
    let f = |b: &Block| b.build().iter().map(|q| (q.0 * s + c.off.0 as f64, q.1 * s + c.off.1 as f64)).collect::<Vec<P>>();
    let inc: Vec<Vec<P>> = c.includes.iter().map(f).collect();
    let rem: Vec<Vec<P>> = c.removes.iter().map(f).collect();
    let g = Cells::new(&inc.iter().chain(&rem).flatten().copied().collect::<Vec<P>>());
    let cells = |p: &Vec<P>| g.mid.iter().map(|m| in_polygon(p, *m) > 0).collect::<Vec<bool>>();
    let (ci, cr): (Vec<_>, Vec<_>) = (inc.iter().map(cells).collect(), rem.iter().map(cells).collect());
    let empty = vec![false; g.mid.len()];
    let all = |sets: &[Vec<bool>], mask: usize| sets.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).fold(empty.clone(), |a, (_, b)| or(&a, b));
    let any = |s: &[bool]| s.iter().any(|x| *x);
    // pieces of the includes never meet at a corner only, and enclose no gaps
    for mask in 1..1usize << ci.len() {
        let u = all(&ci, mask);
        if g.pinched(&u) || g.parts(&u.iter().map(|x| !x).collect::<Vec<bool>>()).0 != 1 {
            o.discard = true;
            return Ok(());
        }
    }
    let whole = all(&ci, usize::MAX);
    let connected = g.parts(&whole).0 == 1;
    let mut valid = connected;
    let mut region = whole.clone();
    if connected {
        region = minus(&whole, &all(&cr, usize::MAX));
        let (n, _) = g.parts(&region);
        valid = n == 1;
        // on the way from the whole to the region nothing is pinched; if it ends in one piece, it
        // is in one piece all the way
        let mut split = false;
        for mask in 0..1usize << cr.len() {
            let r = all(&cr, mask);
            let d = minus(&whole, &r);
            let k = g.parts(&d).0;
            if g.pinched(&d) || g.pinched(&r) || (valid && k != 1) || k == 0 {
                o.discard = true;
                return Ok(());
            }
            // removals that enclose a part of the domain
            let (_, out) = g.parts(&r.iter().map(|x| !x).collect::<Vec<bool>>());
            if any(&d.iter().enumerate().map(|(i, x)| *x && out[i] != out[0]).collect::<Vec<bool>>()) {
                o.discard = true;
                return Ok(());
            }
            split |= k > 1;
        }
        assert!(valid || split);
    }
    let m = &mut Mix::new(c.mix);
    let mut actions: Vec<Value> = inc.iter().map(|p| polyline("include", p, m)).collect();
    actions.extend(rem.iter().map(|p| polyline("remove", p, m)));
    m.shuffle(&mut actions);
    let doc = Doc::new(actions, 1.5, None, m);
    o.nontrivial = inc.len() + rem.len() >= 2;
    o.tag_if(!connected, "separate includes");
    o.tag_if(connected && !valid, "a removal splits the domain");
    let solid: Vec<bool> = region.iter().map(|x| !x).collect();
    o.tag_if(valid && g.parts(&solid).0 > 1, "with holes");
    o.tag_if(valid && inc.len() > 1, "united includes");
    o.tag_if(valid && region != whole, "with removals");
    let what = || format!("includes {inc:?}, removals {rem:?}");
    match doc.run(hash_seed, m)? {
        Err(_) if !valid => Ok(()),
        Err(e) => Err(format!("{}: refused: {e}", what())),
        Ok(_) if !valid => Err(format!("{}: accepted", what())),
        Ok(out) => {
            let area: f64 = g.mid.iter().zip(&region).zip(g.areas()).filter(|((_, r), _)| **r).map(|(_, a)| a).sum();
            let inside = |p: P| inc.iter().any(|i| in_polygon(i, p) > 0 || on_shared(&inc, p)) && !rem.iter().any(|r| in_polygon(r, p) >= 0);
            tiles(&out.mesh, &inside, area, s / 64.0).map_err(|e| format!("{}: {e}", what()))
        }
    }
}
/// on the border between includes, with all the neighbourhood inside some of them
fn on_shared(inc: &[Vec<P>], p: P) -> bool {
    let e = 1e-7;
    [(e, e), (-e, e), (-e, -e), (e, -e)].iter().all(|d| inc.iter().any(|i| in_polygon(i, (p.0 + d.0, p.1 + d.1)) > 0))
}

/// circles and convex polygons around a common centre, wedges cut from the outside, and holes
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Round {
    at: (i32, i32),
    scale: i32,
    /// radius, resolution and displacement
    circles: Vec<(u32, Option<u32>, (i32, i32))>,
    holes: Vec<(u32, u32, (i32, i32))>,
    mix: u64,
    quality: u32,
    area: Option<u32>,
}
pub fn circle_points(c: P, r: f64, n: u32) -> Vec<P> {
    (0..n)
        .map(|k| {
            let a = 2.0 * std::f64::consts::PI * k as f64 / n as f64;
            (c.0 + r * a.cos(), c.1 + r * a.sin())
        })
        .collect()
}
fn circle(intent: &str, c: P, r: f64, n: Option<f64>, m: &mut Mix) -> Value {
    let mut s = vec![json!(r)];
    s.extend(n.map(|n| json!(n)));
    json!({"intent": intent, "geometry": "circle", "scalars": s, "points": points(&[c], m)})
}
fn rounds() -> BoxedStrategy<Round> {
    let disp = || (-8..=8i32, -8..=8i32);
    (
        (-64..=64i32, -64..=64i32),
        -3..=2i32,
        prop::collection::vec((16..40u32, prop_oneof![5 => (4..24u32).prop_map(Some), 1 => Just(None)], disp()), 1..=2),
        prop::collection::vec((2..10u32, 3..12u32, disp()), 0..=2),
        0u64..1 << 32,
        prop_oneof![Just(150u32), Just(200u32)],
        prop::option::of(2..6u32),
    )
        .prop_map(|(at, scale, circles, holes, mix, quality, area)| Round { at, scale, circles, holes, mix, quality, area })
        .boxed()
}
fn border_dist(p: P, poly: &[P]) -> f64 {
    edges_of(poly).iter().map(|s| seg_dist(p, *s)).fold(f64::INFINITY, f64::min)
}
fn circles(c: &Round, hash_seed: u64, o: &mut Obs) -> Res {
    let s = 2f64.powi(c.scale);
    let at = |d: (i32, i32)| ((c.at.0 + d.0) as f64 * s, (c.at.1 + d.1) as f64 * s);
    let inc: Vec<(P, f64, Option<u32>)> = c.circles.iter().map(|(r, n, d)| (at(*d), *r as f64 * s, *n)).collect();
    let rem: Vec<(P, f64, u32)> = c.holes.iter().map(|(r, n, d)| (at(*d), *r as f64 * s, *n)).collect();
    let pi: Vec<Vec<P>> = inc.iter().map(|(c, r, n)| circle_points(*c, *r, n.unwrap_or(100))).collect();
    let pr: Vec<Vec<P>> = rem.iter().map(|(c, r, n)| circle_points(*c, *r, *n)).collect();
    // includes cross each other clearly, and not at sharp angles; holes keep clear of everything
    let clear = s / 4.0;
    let mut bad = false;
    let mut crossings = 0;
    if pi.len() == 2 {
        bad |= pi[0].iter().any(|p| border_dist(*p, &pi[1]) < clear / 16.0) || pi[1].iter().any(|p| border_dist(*p, &pi[0]) < clear / 16.0);
        for e in edges_of(&pi[0]) {
            for f in edges_of(&pi[1]) {
                if segs_touch(e.0, e.1, f.0, f.1) {
                    crossings += 1;
                    let (u, w) = ((e.1 .0 - e.0 .0, e.1 .1 - e.0 .1), (f.1 .0 - f.0 .0, f.1 .1 - f.0 .1));
                    let cos = (u.0 * w.0 + u.1 * w.1) / (u.0.hypot(u.1) * w.0.hypot(w.1));
                    bad |= cos.abs() > 0.999;
                }
            }
        }
        // one inside the other, or two crossings: no gaps
        bad |= crossings > 2 || (crossings == 0 && in_polygon(&pi[0], inc[1].0) < 0 && in_polygon(&pi[1], inc[0].0) < 0);
    }
    let deep = |p: P| pi.iter().any(|q| in_polygon(q, p) > 0 && border_dist(p, q) > clear);
    for (i, h) in pr.iter().enumerate() {
        bad |= !edges_of(h).iter().all(|e| (0..8).all(|k| deep((e.0 .0 + (e.1 .0 - e.0 .0) * k as f64 / 8.0, e.0 .1 + (e.1 .1 - e.0 .1) * k as f64 / 8.0))));
        bad |= pr[..i].iter().any(|g| polys_touch(g, h) || in_polygon(g, h[0]) >= 0 || in_polygon(h, g[0]) >= 0 || g.iter().any(|p| border_dist(*p, h) < clear) || h.iter().any(|p| border_dist(*p, g) < clear));
    }
    if bad {
        o.discard = true;
        return Ok(());
    }
    let region = |p: P| pi.iter().any(|q| in_polygon(q, p) > 0) && !pr.iter().any(|q| in_polygon(q, p) >= 0);
    let m = &mut Mix::new(c.mix);
    let mut actions = vec![];
    for (c, r, n) in &inc {
        // resolutions are rounded
        let n = n.map(|n| n as f64 + [0.0, 0.4, -0.4][m.below(3)]);
        actions.push(circle("include", *c, *r, n, m));
    }
    for (k, (c, r, n)) in rem.iter().enumerate() {
        actions.push(if m.below(2) == 0 { circle("remove", *c, *r, Some(*n as f64), m) } else { polyline("remove", &pr[k], m) });
    }
    m.shuffle(&mut actions);
    let ratio = c.quality as f64 / 100.0;
    let polys = |p: &[Vec<P>]| p.iter().map(|q| area2(q) / 2.0).collect::<Vec<f64>>();
    let (ai, ar) = (polys(&pi), polys(&pr));
    let total = if pi.len() == 2 { ai[0] + ai[1] - crate::c_bool::clip_area(&pi[0], &pi[1]) } else { ai[0] };
    let total = total - ar.iter().sum::<f64>();
    let max_area = c.area.map(|n| total / 2f64.powi(n as i32));
    o.nontrivial = true;
    o.tag_if(crossings == 2, "two circles cross");
    o.tag_if(!pr.is_empty(), "with holes");
    o.tag_if(c.circles.iter().any(|c| c.1.is_none()), "default resolution");
    let doc = Doc::new(actions, ratio, max_area, m);
    let what = format!("{}", doc.json["actions"]);
    let out = doc.run(hash_seed, m)?.map_err(|e| format!("{what} was refused: {e}"))?;
    let mesh = &out.mesh;
    tiles(mesh, &region, total, s * 1e-6).map_err(|e| format!("{what}: {e}"))?;
    for i in 0..mesh.tris.len() {
        let t = mesh.tri(i);
        if quality_of(t) > ratio * (1.0 + 1e-9) {
            return Err(format!("{what}: triangle {t:?} has quality {}, over {ratio}", quality_of(t)));
        }
        if max_area.map_or(false, |a| area_of(t) > a * (1.0 + 1e-9)) {
            return Err(format!("{what}: triangle {t:?} has area {}, over {max_area:?}", area_of(t)));
        }
    }
    // every corner of the region is a vertex
    for (i, p) in pi.iter().enumerate().flat_map(|(i, q)| q.iter().map(move |p| (i, p))) {
        if pi.iter().enumerate().any(|(j, q)| j != i && in_polygon(q, *p) >= 0) {
            continue;
        }
        if !mesh.pts.iter().any(|q| (q.0 - p.0).hypot(q.1 - p.1) < 1e-9 * (1.0 + p.0.abs() + p.1.abs())) {
            return Err(format!("{what}: {p:?} is missing in the output"));
        }
    }
    for p in pr.iter().flatten() {
        if !mesh.pts.iter().any(|q| (q.0 - p.0).hypot(q.1 - p.1) < 1e-9 * (1.0 + p.0.abs() + p.1.abs())) {
            return Err(format!("{what}: {p:?} of a hole is missing in the output"));
        }
    }
    Ok(())
}
pub fn composition() -> Property {
    Property {
        id: "C24",
        rule: "two or more solids are composed",
        assumptions: &[
            "rectilinear solids, any number of shared sides; compositions in which pieces meet at a corner only, includes enclose a gap, removals enclose a part of the domain, or a part split off is removed afterwards are left out",
        ],
        subs: vec![Sub::new("blocks", 3000, 60000, blocks, compose).direct().boxed()],
    }
}
pub fn round() -> Property {
    Property {
        id: "C26",
        rule: "every case (a circle at least)",
        assumptions: &["circles of 4 to 100 corners, crossing clearly or apart; holes clear of everything else; 1e-9 relative tolerance on areas and corners"],
        subs: vec![Sub::new("circles", 700, 15000, rounds, circles).direct().boxed()],
    }
}

// ---- C25: invalid input -------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Broken {
    c: c_refine::Case,
    flaw: u32,
    pick: u64,
    mix: u64,
}
const FLAWS: u32 = 40;
fn broken() -> BoxedStrategy<Broken> {
    (prop_oneof![c_refine::s_parts(), c_refine::s_stairs()], 0..FLAWS, 0u64..1 << 32, 0u64..1 << 32).prop_map(|(c, flaw, pick, mix)| Broken { c, flaw, pick, mix }).boxed()
}
fn rejected(b: &Broken, hash_seed: u64, o: &mut Obs) -> Res {
    let Some(d) = b.c.build() else {
        o.discard = true;
        return Ok(());
    };
    let m = &mut Mix::new(b.mix);
    let pick = &mut Mix::new(b.pick);
    let mut actions = vec![polyline("include", &d.boundary, m)];
    actions.extend(d.holes.iter().map(|h| polyline("remove", h, m)));
    if !d.segs.is_empty() {
        actions.push(segments(&d.segs, m));
    }
    if !d.verts.is_empty() {
        actions.push(vertices(&d.verts, m));
    }
    let (ratio, max_area) = bounds(&b.c, &d);
    let mut doc = Doc::new(actions, ratio, max_area, m).json;
    let mut text: Option<String> = None;
    let ((x0, x1), (y0, y1)) = extent(&d.boundary);
    let (w, h) = (x1 - x0, y1 - y0);
    let free = (x1 + w, y0);
    let acts = doc["actions"].as_array_mut().unwrap();
    let n = acts.len();
    let k = pick.below(n);
    let poly = pick.below(1 + d.holes.len()); // a polyline
    let tri = |p: P| vec![p, (p.0 + w, p.1), (p.0, p.1 + h)];
    let name: &'static str;
    let mut args: Option<Vec<&str>> = None;
    match b.flaw {
        0 => {
            name = "truncated JSON";
            let s = doc.to_string();
            let mut cut = 1 + pick.below(s.len() - 1);
            while !s.is_char_boundary(cut) {
                cut -= 1;
            }
            text = Some(s[..cut].to_string());
        }
        1 => {
            name = "no JSON";
            text = Some(["", "[]", "null", "name", "{}", "{\"name\": \"x\"}"][pick.below(6)].to_string());
        }
        2 => {
            name = "a required field is missing";
            let f = ["name", "actions", "params"][pick.below(3)];
            doc.as_object_mut().unwrap().remove(f);
        }
        3 => {
            name = "quality is missing or no number";
            if pick.below(2) == 0 {
                doc["params"].as_object_mut().unwrap().remove("quality");
            } else {
                doc["params"]["quality"] = [json!("1.5"), json!(null), json!([1.5])][pick.below(3)].clone();
            }
        }
        4 => {
            name = "an action lacks its intent or geometry";
            acts[k].as_object_mut().unwrap().remove(["intent", "geometry"][pick.below(2)]);
        }
        5 => {
            name = "a coordinate is missing or no number";
            let ps = acts[k]["points"].as_array_mut().unwrap();
            let i = pick.below(ps.len());
            let f = ["x", "y"][pick.below(2)];
            if pick.below(2) == 0 {
                ps[i].as_object_mut().unwrap().remove(f);
            } else {
                ps[i][f] = json!("0");
            }
        }
        6 => {
            name = "an unknown geometry";
            acts[k]["geometry"] = json!(["spline", "", "Polyline", "polylines", "circles"][pick.below(5)]);
        }
        7 => {
            name = "an unknown intent";
            acts[k]["intent"] = json!(["", "Include", "add", "constraints"][pick.below(4)]);
        }
        8 => {
            name = "a polyline as constraint";
            acts[poly]["intent"] = json!("constraint");
        }
        9 => {
            name = "segments or vertices as solid";
            let g = ["segments", "vertices"][pick.below(2)];
            let i = ["include", "remove"][pick.below(2)];
            let (p, q) = (d.boundary[0], d.boundary[1]);
            acts.push(json!({"intent": i, "geometry": g, "points": points(&[p, q], m)}));
        }
        10 => {
            name = "nothing is included";
            if pick.below(2) == 0 {
                acts.clear();
            } else {
                acts.remove(0);
            }
        }
        11 => {
            name = "a polyline without points";
            acts.push(json!({"intent": "remove", "geometry": "polyline"}));
        }
        12 => {
            name = "a polyline of one or two points";
            acts.push(polyline(["include", "remove"][pick.below(2)], &d.boundary[..1 + pick.below(2)], m));
        }
        13 => {
            name = "a polyline that crosses itself";
            let bow = [(x0, y0), (x1, y1), (x1, y0), (x0, y1)];
            acts.push(polyline(["include", "remove"][pick.below(2)], &bow, m));
        }
        14 => {
            name = "a circle without radius";
            acts.push(json!({"intent": "include", "geometry": "circle", "points": points(&d.boundary[..1], m)}));
        }
        15 => {
            name = "a circle without centre, or with two";
            let i = pick.below(2);
            acts.push(json!({"intent": "include", "geometry": "circle", "scalars": [w], "points": points(&d.boundary[..i * 2], m)}));
        }
        16 => {
            name = "a circle of fewer than three corners";
            acts.push(circle("include", d.boundary[0], w, Some([2.0, 1.0, 0.0, 2.4, -5.0][pick.below(5)]), m));
        }
        17 => {
            name = "an odd number of points for segments";
            let mut p = points(&d.boundary[..2], m);
            p.push(point(d.boundary[2], m));
            acts.push(json!({"intent": "constraint", "geometry": "segments", "points": p}));
        }
        18 => {
            name = "a segment assembled of fewer than two points";
            let e = [json!([[0]]), json!([[]]), json!([[0, 1], [1]])][pick.below(3)].clone();
            acts.push(json!({"intent": "constraint", "geometry": "segments", "points": points(&d.boundary[..2], m), "assemble": e}));
        }
        19 => {
            name = "a segment assembled of points that do not exist";
            let e = [json!([[0, 2]]), json!([[7, 0]]), json!([[0, 1], [1, 4294967296u64]])][pick.below(3)].clone();
            acts.push(json!({"intent": "constraint", "geometry": "segments", "points": points(&d.boundary[..2], m), "assemble": e}));
        }
        20 | 21 => {
            name = "a vertex outside the boundary";
            let p = [free, (x0 - w / 8.0, y0), (x0, y1 + h / 1024.0), (x1 + w / 64.0, y0 + h / 2.0)][pick.below(4)];
            acts.push(vertices(&[p], m));
        }
        22 | 23 if !d.holes.is_empty() => {
            name = "a vertex in a hole or on its border";
            let q = &d.holes[pick.below(d.holes.len())];
            let i = pick.below(q.len());
            let (a, b, c) = (q[i], q[(i + 1) % q.len()], q[(i + 2) % q.len()]);
            let mid = |a: P, b: P| ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0);
            let p = match pick.below(3) {
                0 => a,
                1 => mid(a, b),
                _ => mid(mid(a, b), mid(b, c)),
            };
            if in_polygon(q, p) < 0 {
                o.discard = true;
                return Ok(());
            }
            acts.push(vertices(&[p], m));
        }
        24 => {
            name = "a vertex on the boundary";
            let i = pick.below(d.boundary.len());
            let (a, b) = (d.boundary[i], d.boundary[(i + 1) % d.boundary.len()]);
            acts.push(vertices(&[[a, ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0)][pick.below(2)]], m));
        }
        25 | 26 => {
            name = "a segment across the boundary or outside";
            let a = d.boundary[pick.below(d.boundary.len())];
            let far = (a.0 + w, a.1 + 2.0 * h);
            let s = [(free, far), (far, d.verts.first().copied().unwrap_or(far))][pick.below(2)];
            if s.0 == s.1 {
                o.discard = true;
                return Ok(());
            }
            acts.push(segments(&[s], m));
        }
        27 | 28 if !d.holes.is_empty() => {
            name = "a segment across a hole";
            let q = &d.holes[pick.below(d.holes.len())];
            let i = pick.below(q.len());
            // the second end is across the hole
            let (a, b) = (q[i], q[(i + q.len() / 2) % q.len()]);
            if in_polygon(q, ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0)) <= 0 {
                o.discard = true;
                return Ok(());
            }
            acts.push(segments(&[(a, b)], m));
        }
        29 | 30 => {
            name = "a second include, separate";
            acts.push(polyline("include", &tri(free), m));
        }
        31 | 32 => {
            name = "a removal that splits the domain";
            // a band across everything
            let t = 0.25 + pick.below(64) as f64 / 128.0;
            let (a, e) = (x0 + w * t, w / 1024.0);
            let band = [(a, y0 - h), (a + e, y0 - h), (a + e, y1 + h), (a, y1 + h)];
            // without the other parts, which the band would cut
            acts.truncate(1);
            if !(d.boundary.iter().any(|p| p.0 < a) && d.boundary.iter().any(|p| p.0 > a + e)) || d.boundary.iter().any(|p| a - e < p.0 && p.0 < a + 2.0 * e) {
                o.discard = true;
                return Ok(());
            }
            acts.push(polyline("remove", &band, m));
        }
        33 if !d.segs.is_empty() => {
            name = "a removal across a segment";
            let (a, b) = d.segs[pick.below(d.segs.len())];
            let (u, l) = ((b.0 - a.0, b.1 - a.1), 0.25);
            // a quadrilateral around the middle of the segment, inside the domain
            let c = ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0);
            let q = [(c.0 - l * u.0, c.1 - l * u.1), (c.0 + l * u.1, c.1 - l * u.0), (c.0 + l * u.0, c.1 + l * u.1), (c.0 - l * u.1, c.1 + l * u.0)];
            if polys_touch(&q, &d.boundary) || d.holes.iter().any(|h| polys_touch(&q, h)) || area2(&q) <= 0.0 {
                o.discard = true;
                return Ok(());
            }
            acts.push(polyline("remove", &q, m));
        }
        34 => {
            name = "an input file that does not exist";
            args = Some(vec!["-i", "none.json", "-o", "out.json"]);
        }
        35 => {
            name = "an output directory that does not exist";
            args = Some(vec!["-i", "in.json", "-o", "none/out.json"]);
        }
        36 => {
            name = "no input given";
            args = Some([vec!["-o", "out.json"], vec![], vec!["-o", "out.json", "-i"]][pick.below(3)].clone());
        }
        37 => {
            name = "an unknown option";
            args = Some([vec!["-i", "in.json", "-o", "out.json", "--quiet"], vec!["-i", "in.json", "-o", "out.json", "more.json"]][pick.below(2)].clone());
        }
        38 => {
            name = "an id that is none";
            doc["id"] = [json!("12"), json!(""), json!(5), json!("zzzzzzzz-f387-456e-ad9b-6a65ea6e89b4")][pick.below(4)].clone();
        }
        39 => {
            name = "scalars or assemble of the wrong type";
            let f = [("scalars", json!(["1"])), ("assemble", json!([[-1, 0]])), ("assemble", json!([[0.5, 1]])), ("points", json!({}))][pick.below(4)].clone();
            acts[k][f.0] = f.1;
        }
        _ => {
            o.discard = true;
            return Ok(());
        }
    }
    o.nontrivial = true;
    o.tag(name);
    if b.flaw > 2 && b.flaw != 10 && b.flaw < 34 {
        m.shuffle(doc["actions"].as_array_mut().unwrap());
    }
    let dir = Scratch::new();
    std::fs::write(dir.0.join("in.json"), text.unwrap_or_else(|| doc.to_string())).expect("scratch file");
    let stale = m.below(2) == 0;
    if stale {
        std::fs::write(dir.0.join("out.json"), "as it was").expect("scratch file");
    }
    let args = args.unwrap_or_else(|| if m.below(4) == 0 { vec!["-i", "in.json"] } else { vec!["-i", "in.json", "-o", "out.json"] });
    let r = run(&dir, &args, hash_seed);
    let what = || format!("{name}: {}", doc.to_string().chars().take(1500).collect::<String>());
    match r.code {
        Some(0) => return Err(format!("accepted, {}", what())),
        None => return Err(format!("the tool {}, {}", r.end(), what())),
        _ => {}
    }
    if !r.stdout.trim().is_empty() {
        return Err(format!("refused, yet printed {:?}: {}", r.stdout.chars().take(80).collect::<String>(), what()));
    }
    let after = std::fs::read_to_string(dir.0.join("out.json")).ok();
    if after != stale.then(|| "as it was".to_string()) {
        return Err(format!("refused, yet the output file was changed: {}", what()));
    }
    let names: BTreeSet<String> = std::fs::read_dir(&dir.0).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
    if names.iter().any(|n| n != "in.json" && n != "out.json") {
        return Err(format!("refused, yet left {names:?}: {}", what()));
    }
    Ok(())
}
pub fn rejection() -> Property {
    Property {
        id: "C25",
        rule: "every case (one flaw is put into a valid input)",
        assumptions: &["40 kinds of flaws, one at a time; polylines are counterclockwise"],
        subs: vec![Sub::new("flaws", 4000, 80000, broken, rejected).direct().boxed()],
    }
}
