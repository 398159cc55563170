//! Delaunay triangulation properties (Q03) on the real qhull-rs API.
use crate::engine::*;
use crate::geom::*;
use crate::hull::PointSpace;
use nalgebra::{Const, OVector};
use qhull_rs::{Delaunay, RawDelaunay};

/// The triangulation as plain data: vertices (input indices), simplices, neighbours (None = outside).
pub struct Tri { pub simplices: Vec<Vec<usize>>, pub neigh: Vec<Vec<Option<usize>>>, pub used: usize }

macro_rules! typed { ($name:ident, $n:literal) => {
    fn $name(fp: &[Vec<f64>], ctx: &mut Ctx) -> Option<Tri> {
        let a: Vec<[f64; $n]> = fp.iter().map(|p| { let mut a = [0.0; $n]; a.copy_from_slice(p); a }).collect();
        let t = Delaunay::<Const<$n>>::from_arrays(&a);
        ctx.step(1);
        let mut vid = vec![]; let mut seen = vec![false; fp.len()];
        for (k, v) in t.vertices().enumerate() {
            if v.index() != k { ctx.fail("vertex index is not its position", format!("{} at {}", v.index(), k)); return None; }
            let Some(i) = fp.iter().position(|p| p.iter().zip(v.point().as_slice()).all(|(a, b)| a.to_bits() == b.to_bits())) else {
                ctx.fail("triangulation vertex is not an input point", format!("{:?}", v.point().as_slice())); return None; };
            if seen[i] { ctx.fail("triangulation vertex listed twice", format!("{:?}", v.point().as_slice())); return None; }
            seen[i] = true; vid.push(i);
        }
        let mut simplices = vec![]; let mut neigh = vec![];
        for (k, s) in t.simplices().enumerate() {
            if s.index() != k { ctx.fail("simplex index is not its position", format!("{} at {}", s.index(), k)); return None; }
            simplices.push(s.vertices().map(|v| vid[v.index()]).collect());
            neigh.push(s.neighbors().map(|n| n.map(|n| n.index())).collect());
        }
        if t.simplices().len() != simplices.len() || t.vertices().len() != vid.len() { ctx.fail("iterator length is wrong", ""); return None; }
        // plane distances, against the raw facets of the same triangulation
        if $n <= 3 {
            let raw = RawDelaunay::<Const<$n>>::from_arrays(&a);
            let key = |mut v: Vec<usize>| { v.sort(); v };
            let mut probe: Vec<OVector<f64, Const<{ $n + 1 }>>> = vec![OVector::<f64, Const<{ $n + 1 }>>::zeros()];
            for j in 0..$n + 1 { let mut p = OVector::<f64, Const<{ $n + 1 }>>::from_element(0.25); p[j] = 3.0; probe.push(p); }
            for (f, ff) in raw.simplices().zip(raw.full_simplices()) {
                if f.is_upper_delaunay() { continue; }
                let k = key(f.vertices().filter_map(|x| fp.iter().position(|p| p.iter().zip(x.point()).all(|(a, b)| a.to_bits() == b.to_bits()))).collect());
                let Some(i) = simplices.iter().position(|s: &Vec<usize>| key(s.clone()) == k) else { ctx.fail("a raw simplex is missing from the typed triangulation", format!("{:?}", k)); return None; };
                let s = t.simplices().nth(i).unwrap();
                for p in &probe {
                    let (x, y) = (s.plane_distance(p), ff.plane_distance(p));
                    let want: f64 = ff.offset() + ff.normal().iter().zip(p.iter()).map(|(a, b)| a * b).sum::<f64>();
                    ctx.step(1);
                    if !((x - want).abs() < 1e-9) || !((y - want).abs() < 1e-9) { ctx.fail("plane distance is not the distance to the simplex's plane", format!("{} {} want {}", x, y, want)); return None; }
                }
            }
        }
        Some(Tri { simplices, neigh, used: seen.iter().filter(|x| **x).count() })
    }
} }
macro_rules! raw { ($name:ident, $n:literal) => {
    fn $name(fp: &[Vec<f64>], ctx: &mut Ctx) -> Option<Tri> {
        let a: Vec<[f64; $n]> = fp.iter().map(|p| { let mut a = [0.0; $n]; a.copy_from_slice(p); a }).collect();
        let t = RawDelaunay::<Const<$n>>::from_arrays(&a);
        ctx.step(1);
        let low: Vec<_> = t.simplices().filter(|s| !s.is_upper_delaunay()).collect();
        let ids: Vec<u64> = low.iter().map(|s| s.id()).collect();
        let mut seen = vec![false; fp.len()];
        let mut simplices = vec![]; let mut neigh = vec![];
        for s in &low {
            let mut v = vec![];
            for x in s.vertices() {
                let Some(i) = fp.iter().position(|p| p.iter().zip(x.point()).all(|(a, b)| a.to_bits() == b.to_bits())) else {
                    ctx.fail("triangulation vertex is not an input point", format!("{:?}", x.point())); return None; };
                seen[i] = true; v.push(i);
            }
            simplices.push(v);
            let mut nb = vec![];
            for n in s.neighbors() {
                if n.is_upper_delaunay() { nb.push(None) } else {
                    match ids.iter().position(|x| *x == n.id()) { Some(k) => nb.push(Some(k)), None => { ctx.fail("neighbour is not a listed simplex", ""); return None; } }
                }
            }
            neigh.push(nb);
        }
        Some(Tri { simplices, neigh, used: seen.iter().filter(|x| **x).count() })
    }
} }
typed!(t2, 2); typed!(t3, 3); typed!(t4, 4); typed!(t5, 5);
raw!(r2, 2); raw!(r3, 3); raw!(r4, 4); raw!(r5, 5);

pub fn build(d: usize, raw: bool, fp: &[Vec<f64>], ctx: &mut Ctx) -> Option<Tri> {
    match (d, raw) { (2, false) => t2(fp, ctx), (3, false) => t3(fp, ctx), (4, false) => t4(fp, ctx), (5, false) => t5(fp, ctx),
        (2, true) => r2(fp, ctx), (3, true) => r3(fp, ctx), (4, true) => r4(fp, ctx), (5, true) => r5(fp, ctx), _ => unreachable!() }
}

pub fn case(ps: &PointSpace, i: u64, ctx: &mut Ctx, raw: bool) {
    let (pts, _, _) = ps.get(i);
    let d = ps.d;
    if affine_dim(&pts, d) < d { ctx.skip(); return; }
    let fp: Vec<Vec<f64>> = pts.iter().map(|p| ps.f(p)).collect();
    // metric of the circumsphere test: squared scale per axis, as exact integers
    ctx.state(1); ctx.trace(1);
    let Some(t) = build(d, raw, &fp, ctx) else { return };
    let metric = ps.metric;
    check(&pts, d, &t, metric, Some(volume_dfact(&pts, d)), ctx);
}

pub fn check(pts: &[P], d: usize, t: &Tri, metric: Option<[i64; D]>, want: Option<i128>, ctx: &mut Ctx) {
    let Tri { simplices, neigh, used } = t;
    let mut h = simplices.len() as u64;
    for s in simplices { for v in s { h = h.wrapping_mul(31).wrapping_add(*v as u64); } }
    ctx.outcome(h);
    if simplices.is_empty() { ctx.fail("empty triangulation", ""); return; }
    if *used != pts.len() { ctx.fail("an input point is missing from the triangulation", format!("used {} of {}", used, pts.len())); return; }
    let q: Vec<P> = pts.iter().map(|p| { let mut q = *p; if let Some(m) = metric { for j in 0..d { q[j] *= m[j]; } } q }).collect();
    let mut vol = 0i128;
    let mut cosph = false; let mut degen = 0;
    for (k, s) in simplices.iter().enumerate() {
        if s.len() != d + 1 { ctx.fail("simplex does not have N+1 vertices", format!("{:?}", s)); return; }
        let v = simplex_det(pts, s, d).abs();
        if v == 0 { degen += 1; }
        vol += v;
        if metric.is_some() && v != 0 {
            for (i, _) in q.iter().enumerate() {
                if s.contains(&i) { continue; }
                let x = insphere(&q, s, &q[i], d);
                if x > 0 { ctx.fail("a vertex lies inside a simplex's circumsphere", format!("simplex {:?} vertex {}", s, i)); return; }
                if x == 0 { cosph = true; }
            }
        }
        if neigh[k].len() != d + 1 { ctx.fail("simplex does not have N+1 neighbours", ""); return; }
        for (j, g) in neigh[k].iter().enumerate() {
            let face: Vec<usize> = s.iter().enumerate().filter(|(i, _)| *i != j).map(|(_, v)| *v).collect();
            let sharing: Vec<usize> = (0..simplices.len()).filter(|&o| o != k && face.iter().all(|v| simplices[o].contains(v))).collect();
            match g {
                // where triangulating cospherical points left flat simplices, a face can have several of them beside it
                Some(g) => if sharing != [*g] && !(sharing.contains(g) && neigh[*g].contains(&Some(k)) && sharing.iter().chain([&k]).any(|o| simplex_det(pts, &simplices[*o], d) == 0)) { ctx.fail("k-th neighbour is not the simplex across the k-th face", format!("{} {} {:?}", k, j, sharing)); return; }
                None => if !sharing.is_empty() { ctx.fail("a shared face is reported as outer boundary", ""); return; }
            }
        }
    }
    if simplices.len() > 1 || degen > 0 || cosph { ctx.nontrivial(); }
    if let Some(want) = want { if vol != want { ctx.fail("simplices do not tile the hull", format!("{} want {}", vol, want)); } }
}

pub fn space<'a>(ps: PointSpace, raw: bool) -> Space<'a> {
    let p2 = ps.clone();
    Space { name: ps.name.clone(), n: ps.n(), what: ps.what(),
        cpu_limit_s: 20,
        run: Box::new(move |i, c| case(&ps, i, c, raw)),
        desc: Box::new(move |i| p2.desc(i)) }
}
