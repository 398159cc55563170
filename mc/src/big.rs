//! Q01-Q05 with hundreds of points: hulls and triangulations known by construction, so that nothing has to be found by brute force.
use crate::dela::{self, Tri};
use crate::engine::*;
use crate::geom::*;
use crate::hull::{extract, grid, order, PointSpace, Which};
use crate::search::{self, Searcher};
use nalgebra::{Const, DefaultAllocator, ToTypenum};
use nalgebra::base::allocator::Allocator;
use std::cell::RefCell;

/// Points, and what is known of them.
#[derive(Clone)]
pub struct Big {
    pub name: String, pub d: usize, pub pts: Vec<P>, pub scale: f64, pub shift: f64,
    /// which are extreme (hulls)
    pub extreme: Vec<bool>,
    /// d! times the volume of the hull, if known
    pub volume: Option<i128>,
    /// the hull is a box with these sides (from the origin)
    pub sides: Option<[i64; D]>,
}
fn mix(k: usize, j: usize) -> i64 { let mut x = (k as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (j as u64 + 1).wrapping_mul(0xd1b5_4a32_d192_ed03); x ^= x >> 29; x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9); (x >> 40) as i64 }

impl Big {
    /// The points as a space of one set in four orders.
    pub fn values(&self, name: &str) -> PointSpace {
        PointSpace { name: name.into(), d: self.d, grid: self.pts.clone(), kmin: self.pts.len(), kmax: self.pts.len(), scale: [self.scale; D], shift: [self.shift; D], orders: 4, fix0: false, metric: None, dup: false, sets: None }
    }
    fn f(&self, p: &P) -> Vec<f64> { (0..self.d).map(|j| p[j] as f64 * self.scale + self.shift).collect() }
    fn reordered(&self, ord: u64) -> Big {
        let mut ids: Vec<usize> = (0..self.pts.len()).collect();
        order(&mut ids, ord);
        let mut b = self.clone();
        b.pts = ids.iter().map(|&i| self.pts[i]).collect(); b.extreme = ids.iter().map(|&i| self.extreme[i]).collect();
        b
    }
    /// The lattice with m points a side in d-1 dimensions, lifted to a paraboloid (all extreme), and points half-way between two of them.
    pub fn paraboloid(d: usize, m: i64, scale: f64, shift: f64) -> Big {
        let base: Vec<P> = grid(&vec![m; d - 1]).into_iter().map(|mut p| { for j in 0..d - 1 { p[j] *= 2; } p[d - 1] = p[..d - 1].iter().map(|x| x * x / 2).sum(); p }).collect();
        let mut pts = base.clone(); let mut extreme = vec![true; base.len()];
        for a in 0..base.len() { let b = (a * 7 + 3) % base.len(); if a != b && a % 3 == 0 { let mut p = [0; D]; for j in 0..d { p[j] = (base[a][j] + base[b][j]) / 2; } pts.push(p); extreme.push(false); } }
        // between the upper hull, which is linear, and the lower one, which interpolates: axis by axis
        let l = m - 1;
        let twice: i128 = (l * l * l - (0..l).map(|k| k * k + (k + 1) * (k + 1)).sum::<i64>()) as i128;
        let fact: i128 = (1..=d as i128).product();
        let volume = fact * twice * (d as i128 - 1) * (l as i128).pow(d as u32 - 2) * (1 << d) / 2;
        Big { name: format!("{}{}D", if shift != 0.0 { "far " } else { "" }, d), d, pts, scale, shift, extreme, volume: Some(volume), sides: None }
    }
    /// Points on a sphere around the origin, found as the integer solutions of x^2+y^2+z^2 = r2, and points half-way.
    pub fn sphere(r2: i64, scale: f64) -> Big {
        let r = (r2 as f64).sqrt() as i64 + 1;
        let mut pts: Vec<P> = vec![];
        for x in -r..=r { for y in -r..=r { for z in -r..=r { if x * x + y * y + z * z == r2 { pts.push(pt(&[2 * x, 2 * y, 2 * z])); } } } }
        let n = pts.len(); let mut extreme = vec![true; n];
        for a in 0..n { let b = (a * 5 + 1) % n; if a != b && a % 2 == 0 { let mut p = [0; D]; for j in 0..3 { p[j] = (pts[a][j] + pts[b][j]) / 2; } pts.push(p); extreme.push(false); } }
        Big { name: format!("sphere{}", n), d: 3, pts, scale, shift: 0.0, extreme, volume: None, sides: None }
    }
    /// A lattice, or one of which every point is moved a little its own way (corners of the box stay).
    pub fn lattice(sides: &[i64], moved: bool, scale: f64, shift: f64) -> Big {
        let d = sides.len();
        let f = 16i64;
        let mut box_ = [0; D]; for j in 0..d { box_[j] = (sides[j] - 1) * f; }
        let pts: Vec<P> = grid(sides).into_iter().enumerate().map(|(k, p)| { let mut q = [0; D]; let corner = (0..d).all(|j| p[j] == 0 || p[j] == sides[j] - 1); for j in 0..d { q[j] = p[j] * f; if moved && !corner && p[j] != 0 && p[j] != sides[j] - 1 { q[j] += mix(k, j) % 6; } } q }).collect();
        let fact: i128 = (1..=d as i128).product();
        let volume = fact * box_[..d].iter().map(|x| *x as i128).product::<i128>();
        Big { name: format!("{}lattice {:?}", if moved { "uneven " } else { "" }, sides), d, extreme: vec![false; pts.len()], pts, scale, shift, volume: Some(volume), sides: Some(box_) }
    }
}

fn hull_case<const N: usize>(b: &Big, i: u64, ctx: &mut Ctx, raw: bool, which: Which)
where DefaultAllocator: Allocator<f64, Const<N>> + Allocator<usize, Const<N>>, Const<N>: ToTypenum {
    let d = N;
    let fp: Vec<[f64; N]> = b.pts.iter().map(|p| { let mut a = [0.0; N]; a.copy_from_slice(&b.f(p)); a }).collect();
    let mag = fp.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    ctx.state(1); ctx.trace(1); ctx.nontrivial();
    let Some((verts, facets, neigh, normals)) = extract::<N>(&fp, i, ctx, raw, which) else { return };
    let at: std::collections::HashMap<Vec<u64>, usize> = fp.iter().enumerate().map(|(k, p)| (p.iter().map(|x| x.to_bits()).collect(), k)).collect();
    let mut seen = vec![false; fp.len()]; let mut vid = vec![];
    for v in &verts {
        let Some(&k) = at.get(&v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()) else { ctx.fail("hull vertex is not an input point", format!("{:?}", v)); return; };
        if seen[k] { ctx.fail("hull vertex listed twice", format!("{:?}", v)); return; }
        seen[k] = true; vid.push(k);
    }
    if seen != b.extreme { ctx.fail("hull vertices differ from the extreme points", format!("{} vertices, {} extreme points", verts.len(), b.extreme.iter().filter(|x| **x).count())); return; }
    ctx.outcome((verts.len() * 100000 + facets.len()) as u64);
    if which == Which::Vertices { return; }
    let mut vol = 0i128;
    for (k, f) in facets.iter().enumerate() {
        if f.len() != d || f.iter().any(|v| *v >= verts.len()) { ctx.fail("facet does not have N valid vertices", format!("{:?}", f)); return; }
        let idx: Vec<usize> = f.iter().map(|&v| vid[v]).collect();
        let n = normal(&b.pts, &idx, d);
        let flat = n[..d].iter().all(|x| *x == 0);
        if !flat {
            let side: Vec<i128> = b.pts.iter().map(|p| (0..d).map(|j| n[j] * (p[j] - b.pts[idx[0]][j]) as i128).sum()).collect();
            let s: i128 = if side.iter().all(|x| *x <= 0) { 1 } else if side.iter().all(|x| *x >= 0) { -1 } else { ctx.fail("facet is not on the boundary of the hull", format!("{:?}", f)); return; };
            let l = n[..d].iter().map(|x| (*x as f64).powi(2)).sum::<f64>().sqrt();
            let (m, off) = &normals[k];
            let dot: f64 = (0..d).map(|j| m[j] * (s * n[j]) as f64 / l).sum();
            let ml: f64 = m.iter().map(|x| x * x).sum::<f64>().sqrt();
            if (ml - 1.0).abs() > 1e-9 || !(dot > 1.0 - 1e-7) { ctx.fail("facet normal is not the outward unit normal", format!("{:?}", m)); return; }
            for &v in f { let dist: f64 = off + m.iter().zip(&verts[v]).map(|(a, b)| a * b).sum::<f64>(); if !(dist.abs() <= 1e-8 * mag) { ctx.fail("facet offset does not match its vertices", format!("{}", dist)); return; } }
            if d == 3 && !raw && (s * det3(&b.pts, &idx, &n)) < 0 { ctx.fail("3D facet winding disagrees with its outward normal", format!("{:?}", f)); return; }
        } else if d == 3 && !raw { ctx.fail("3D facet has no area", format!("{:?}", f)); return; }
        let c: Vec<usize> = std::iter::once(vid[0]).chain(idx.iter().copied()).collect();
        vol += simplex_det(&b.pts, &c, d).abs();
        if neigh[k].len() != d { ctx.fail("facet does not have N neighbours", format!("{:?}", neigh[k])); return; }
        for (j, &g) in neigh[k].iter().enumerate() {
            if g >= facets.len() || g == k { ctx.fail("neighbour is not another facet", format!("{}", g)); return; }
            let missing: Vec<usize> = f.iter().copied().filter(|v| !facets[g].contains(v)).collect();
            if missing != [f[j]] { ctx.fail("k-th neighbour is not opposite the k-th vertex", format!("facet {:?} neighbour {} = {:?}", f, j, facets[g])); return; }
            if !neigh[g].contains(&k) { ctx.fail("neighbour relation is not symmetric", ""); return; }
        }
    }
    // without a volume: a closed surface of supporting triangles of which no two overlap has as many as Euler says
    match b.volume {
        Some(w) => if vol != w { ctx.fail("facets do not close up around the hull's volume", format!("{} want {}", vol, w)); },
        None => if facets.len() != 2 * verts.len() - 4 { ctx.fail("facets do not close up around the hull's volume", format!("{} facets, {} vertices", facets.len(), verts.len())); },
    }
}
/// Orientation of a triangle's own order against `n`.
fn det3(pts: &[P], f: &[usize], n: &[i128; D]) -> i128 {
    let e = |a: usize, b: usize, j: usize| (pts[f[b]][j] - pts[f[a]][j]) as i128;
    let c = [e(0, 1, 1) * e(0, 2, 2) - e(0, 1, 2) * e(0, 2, 1), e(0, 1, 2) * e(0, 2, 0) - e(0, 1, 0) * e(0, 2, 2), e(0, 1, 0) * e(0, 2, 1) - e(0, 1, 1) * e(0, 2, 0)];
    (0..3).map(|j| c[j] * n[j]).sum()
}

pub fn hulls<'a>(name: &str, sets: Vec<Big>, orders: u64, raw: bool, which: Which) -> Space<'a> {
    let what = format!("{} in {} input orders each, {} layer", sets.iter().map(|b| format!("{} ({} points, {} extreme)", b.name, b.pts.len(), b.extreme.iter().filter(|x| **x).count())).collect::<Vec<_>>().join(", "), orders, if raw { "raw" } else { "typed" });
    let names: Vec<String> = sets.iter().map(|b| b.name.clone()).collect();
    Space { name: name.into(), n: sets.len() as u64 * orders, what, cpu_limit_s: 120,
        run: Box::new(move |i, ctx| {
            let b = sets[(i / orders) as usize].reordered(i % orders);
            match b.d { 2 => hull_case::<2>(&b, i, ctx, raw, which), 3 => hull_case::<3>(&b, i, ctx, raw, which), 4 => hull_case::<4>(&b, i, ctx, raw, which), _ => hull_case::<5>(&b, i, ctx, raw, which) }
        }),
        desc: Box::new(move |i| format!("{}, order {}", names[(i / orders) as usize], i % orders)) }
}

pub fn triangulations<'a>(name: &str, sets: Vec<Big>, orders: u64, raw: bool) -> Space<'a> {
    let what = format!("{} in {} input orders each, {} layer", sets.iter().map(|b| format!("{} ({} points)", b.name, b.pts.len())).collect::<Vec<_>>().join(", "), orders, if raw { "raw" } else { "typed" });
    let names: Vec<String> = sets.iter().map(|b| b.name.clone()).collect();
    Space { name: name.into(), n: sets.len() as u64 * orders, what, cpu_limit_s: 200,
        run: Box::new(move |i, ctx| {
            let b = sets[(i / orders) as usize].reordered(i % orders);
            let fp: Vec<Vec<f64>> = b.pts.iter().map(|p| b.f(p)).collect();
            ctx.state(1); ctx.trace(1);
            let Some(t) = dela::build(b.d, raw, &fp, ctx) else { return };
            dela::check(&b.pts, b.d, &t, Some([1; D]), b.volume, ctx);
        }),
        desc: Box::new(move |i| format!("{}, order {}", names[(i / orders) as usize], i % orders)) }
}

/// Every simplex in turn is the remembered one (or the hint), and every `every`-th query (another part for every start) is asked.
pub fn searches<'a>(name: &str, sets: Vec<Big>, blocks: u64, every: usize, raw: bool) -> Space<'a> {
    let what = format!("{}: from every remembered simplex {} of the queries (vertices, centroids of all simplices, edges' midpoints, points outside) in turn", sets.iter().map(|b| format!("{} ({} points)", b.name, b.pts.len())).collect::<Vec<_>>().join(", "), if every == 1 { "each".to_string() } else { format!("one in {}", every) });
    let names: Vec<String> = sets.iter().map(|b| b.name.clone()).collect();
    Space { name: name.into(), n: sets.len() as u64 * blocks, what, cpu_limit_s: 200,
        run: Box::new(move |i, ctx| { let b = &sets[(i / blocks) as usize]; search_case(b, (i % blocks) as usize, blocks as usize, every, ctx, raw) }),
        desc: Box::new(move |i| format!("{}, start simplices {} modulo {}", names[(i / blocks) as usize], i % blocks, blocks)) }
}

fn search_case(b: &Big, block: usize, blocks: usize, every: usize, ctx: &mut Ctx, raw: bool) {
    let d = b.d; let m = 2 * (d as i64 + 1);
    let sides = b.sides.unwrap();
    let fp: Vec<Vec<f64>> = b.pts.iter().map(|p| b.f(p)).collect();
    let big: Vec<P> = b.pts.iter().map(|p| p.map(|x| x * m)).collect();
    ctx.trace(1); ctx.nontrivial();
    let ctx = RefCell::new(ctx);
    search::with(d, raw, &fp, &mut |tri: &Tri, s: &mut dyn Searcher| {
        let ctx = &mut **ctx.borrow_mut();
        let n = tri.simplices.len();
        let mut qs: Vec<P> = big.clone();
        let centre = |s: &[usize]| { let mut p = [0; D]; for j in 0..d { p[j] = s.iter().map(|&v| b.pts[v][j]).sum::<i64>() * m / s.len() as i64; } p };
        // queries 0..n of `mid` lie inside simplex k (or on it, if it is flat)
        let mid: Vec<P> = tri.simplices.iter().map(|s| centre(s)).collect();
        qs.extend(&mid);
        for s in tri.simplices.iter().step_by(3) { qs.push(centre(&s[..2])); }
        for k in 0..b.pts.len() { let mut p = big[k]; let j = k % d; p[j] = if mix(k, 7) % 2 == 0 { -3 - mix(k, 9) % 40 } else { sides[j] * m + 3 + mix(k, 8) % 40 }; qs.push(p); }
        let fq: Vec<Vec<f64>> = qs.iter().map(|q| (0..d).map(|j| q[j] as f64 / m as f64 * b.scale + b.shift).collect()).collect();
        let inside: Vec<bool> = qs.iter().map(|q| (0..d).all(|j| q[j] >= 0 && q[j] <= sides[j] * m)).collect();
        let nondeg: Vec<bool> = tri.simplices.iter().map(|x| simplex_det(&b.pts, x, d) != 0).collect();
        let judge = |s: &mut dyn Searcher, k: usize, eps: f64, ctx: &mut Ctx, how: &str| -> bool {
            ctx.step(1);
            let bad = match s.query(&fq[k]) {
                None => inside[k].then_some("point inside the triangulation not found"),
                Some((x, c)) => {
                    let tol = eps.sqrt() * 1.01 + 1e-9;
                    if !inside[k] { Some("a point outside the triangulation was found") }
                    else if x >= n { Some("search returned a degenerate simplex") }
                    else if !nondeg[x] {
                        let off = (0..d).any(|j| (tri.simplices[x].iter().zip(&c).map(|(&v, w)| fp[v][j] * w).sum::<f64>() - fq[k][j]).abs() > 1e-6 * b.scale * 16.0) || c.iter().any(|w| !(*w >= -tol && *w <= 1.0 + tol));
                        off.then_some("search returned a degenerate simplex")
                    } else {
                        let (w, o) = bary(&big, &tri.simplices[x], &qs[k], d);
                        let w: Vec<f64> = w.iter().map(|v| *v as f64 / o as f64).collect();
                        if w.iter().any(|v| *v < -tol || *v > 1.0 + tol) { Some("returned simplex does not contain the point") }
                        else if w.iter().zip(&c).any(|(a, b)| !((a - b).abs() < 1e-7)) { Some("barycentric coordinates are wrong") } else { None }
                    }
                }
            };
            if let Some(key) = bad { ctx.fail(key, format!("{} q {:?}/{}", how, &qs[k][..d], m)); }
            bad.is_some()
        };
        let eps = 1e-10;
        s.set(eps, false);
        for x in (block..n).step_by(blocks) {
            ctx.state(1);
            let forced = s.force(x);
            for k in (0..qs.len()).filter(|k| (k + x / blocks) % every == 0) {
                if forced { s.force(x); } else { s.clear(); s.query(&(0..d).map(|j| mid[x][j] as f64 / m as f64 * b.scale + b.shift).collect::<Vec<_>>()); }
                if judge(s, k, eps, ctx, &format!("start {}", x)) { return; }
            }
        }
        // by brute force (in the raw layer: the search without coordinates), and one long history
        s.set(eps, true); s.clear();
        for k in (block..qs.len()).step_by(blocks) { if judge(s, k, eps, ctx, "other search") { return; } }
        s.set(eps, false); s.clear();
        if block == 0 { for k in 0..qs.len() { if judge(s, k, eps, ctx, "history") || judge(s, (k * 7919) % qs.len(), eps, ctx, "history") { return; } } }
    });
}
