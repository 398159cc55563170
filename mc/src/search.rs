//! Point location (Q04 typed searcher with its remembered start hint, Q05 raw search with explicit hints).
//! Explicit-state: the searcher's hidden state is the remembered start simplex; every state is reached
//! by a real query history and every query is applied in every state.
use crate::dela::Tri;
use crate::engine::*;
use crate::geom::*;
use crate::hull::PointSpace;
use nalgebra::{Const, OVector};
use qhull_rs::{Delaunay, RawDelaunay};
use std::cell::RefCell;

pub trait Searcher {
    /// Some((simplex, coords)); `state` selects the start state, None = cleared
    fn query(&mut self, p: &[f64]) -> Option<(usize, Vec<f64>)>;
    fn clear(&mut self);
    fn force(&mut self, _k: usize) -> bool { false }
    fn set(&mut self, eps: f64, brute: bool);
    /// the query without the optional arguments, in every way
    fn plain(&mut self, _p: &[f64]) -> Vec<Option<usize>> { vec![] }
    /// an independent way of getting coordinates, if any
    fn coords(&self, k: usize, p: &[f64]) -> Option<Vec<f64>>;
}

type Cb<'c> = &'c mut dyn FnMut(&Tri, &mut dyn Searcher);

macro_rules! typed { ($f:ident, $w:ident, $n:literal, $n1:literal) => {
    struct $w<'a>(qhull_rs::delaunay::SimplexSearcher<'a, Const<$n>>, &'a Delaunay<Const<$n>>);
    impl<'a> Searcher for $w<'a> {
        fn query(&mut self, p: &[f64]) -> Option<(usize, Vec<f64>)> {
            let v = OVector::<f64, Const<$n>>::from_row_slice(p);
            let mut c = OVector::<f64, Const<$n1>>::from_element(f64::NAN);
            let s = self.0.find_simplex_mut(&v, &mut c)?;
            Some((s.index(), c.as_slice().to_vec()))
        }
        fn clear(&mut self) { self.0.clear_start_hint(); }
        fn set(&mut self, eps: f64, brute: bool) {
            self.0.set_eps(eps).set_bruteforce(brute);
            assert!(self.0.eps() == eps && self.0.bruteforce() == brute);
        }
        fn coords(&self, k: usize, p: &[f64]) -> Option<Vec<f64>> {
            let s = self.1.simplices().nth(k).unwrap();
            Some(self.0.barycentric_coords(s, OVector::<f64, Const<$n>>::from_row_slice(p)).as_slice().to_vec())
        }
    }
    fn $f(fp: &[Vec<f64>], cb: Cb) {
        let a: Vec<[f64; $n]> = fp.iter().map(|p| { let mut a = [0.0; $n]; a.copy_from_slice(p); a }).collect();
        let t = Delaunay::<Const<$n>>::from_arrays(&a);
        let vid: Vec<usize> = t.vertices().map(|v| fp.iter().position(|p| &p[..] == v.point().as_slice()).expect("vertex is an input point")).collect();
        let tri = Tri {
            simplices: t.simplices().map(|s| s.vertices().map(|v| vid[v.index()]).collect()).collect(),
            neigh: t.simplices().map(|s| s.neighbors().map(|n| n.map(|n| n.index())).collect()).collect(), used: 0 };
        let mut w = $w(t.simplex_searcher(), &t);
        cb(&tri, &mut w);
    }
} }
typed!(ts2, T2, 2, 3); typed!(ts3, T3, 3, 4); typed!(ts4, T4, 4, 5); typed!(ts5, T5, 5, 6);

macro_rules! raw { ($f:ident, $w:ident, $n:literal, $n1:literal) => {
    struct $w<'a> { t: &'a RawDelaunay<Const<$n>>, low: Vec<qhull_rs::raw::Facet<'a, Const<$n>>>, cache: qhull_rs::raw::BarycentricSolverCache<Const<$n>>, hint: Option<qhull_rs::raw::Facet<'a, Const<$n>>>, eps: f64, brute: bool }
    impl<'a> Searcher for $w<'a> {
        fn query(&mut self, p: &[f64]) -> Option<(usize, Vec<f64>)> {
            let v = OVector::<f64, Const<$n>>::from_row_slice(p);
            let mut c = OVector::<f64, Const<$n1>>::from_element(f64::NAN);
            let s = if self.brute {
                let mut h = self.hint;
                let r = self.t.find_best_simplex__(v, &self.cache, Some(self.eps), h.as_mut());
                if let Some(s) = &r { c = self.cache.get(s)?.solve(v); }
                self.hint = h; r
            } else {
                let mut h = self.hint;
                let r = self.t.find_best_simplex(v, &self.cache, Some(self.eps), Some(&mut c), h.as_mut());
                self.hint = h; r
            }?;
            let k = self.low.iter().position(|f| *f == s).expect("result is a lower simplex");
            Some((k, c.as_slice().to_vec()))
        }
        fn clear(&mut self) { self.hint = None; }
        fn plain(&mut self, p: &[f64]) -> Vec<Option<usize>> {
            let v = OVector::<f64, Const<$n>>::from_row_slice(p);
            let mut c = OVector::<f64, Const<$n1>>::from_element(f64::NAN);
            let mut h = self.low[self.low.len() / 2];
            let all = [self.t.find_best_simplex(v, &self.cache, None, None, None), self.t.find_best_simplex(v, &self.cache, None, Some(&mut c), None), self.t.find_best_simplex(v, &self.cache, Some(1e-9), None, Some(&mut h)), self.t.find_best_simplex__(v, &self.cache, None, None)];
            all.iter().map(|s| s.as_ref().map(|s| self.low.iter().position(|f| f == s).expect("result is a lower simplex"))).collect()
        }
        fn force(&mut self, k: usize) -> bool { self.hint = Some(self.low[k]); true }
        fn set(&mut self, eps: f64, brute: bool) { self.eps = eps; self.brute = brute; }
        fn coords(&self, k: usize, p: &[f64]) -> Option<Vec<f64>> {
            Some(self.cache.get(&self.low[k])?.solve(OVector::<f64, Const<$n>>::from_row_slice(p)).as_slice().to_vec())
        }
    }
    fn $f(fp: &[Vec<f64>], cb: Cb) {
        let a: Vec<[f64; $n]> = fp.iter().map(|p| { let mut a = [0.0; $n]; a.copy_from_slice(p); a }).collect();
        let t = RawDelaunay::<Const<$n>>::from_arrays(&a);
        let low: Vec<_> = t.simplices().filter(|s| !s.is_upper_delaunay()).collect();
        let simplices = low.iter().map(|s| s.vertices().map(|v| fp.iter().position(|p| &p[..] == v.point()).expect("vertex is an input point")).collect()).collect();
        let tri = Tri { simplices, neigh: vec![], used: 0 };
        let mut w = $w { t: &t, low, cache: t.compute_barycentric_solver_cache(), hint: None, eps: 1e-10, brute: false };
        cb(&tri, &mut w);
    }
} }
raw!(rs2, R2, 2, 3); raw!(rs3, R3, 3, 4); raw!(rs4, R4, 4, 5); raw!(rs5, R5, 5, 6);
fn rawdispatch(d: usize, fp: &[Vec<f64>], cb: Cb) { match d { 2 => rs2(fp, cb), 3 => rs3(fp, cb), 4 => rs4(fp, cb), 5 => rs5(fp, cb), _ => unreachable!() } }

pub fn with(d: usize, raw: bool, fp: &[Vec<f64>], cb: Cb) {
    match (d, raw) { (2, false) => ts2(fp, cb), (3, false) => ts3(fp, cb), (4, false) => ts4(fp, cb), (5, false) => ts5(fp, cb), _ => rawdispatch(d, fp, cb) }
}

/// Query points in units of 1/m of the grid.
pub fn queries(pts: &[P], d: usize, m: i64, tri: &Tri) -> Vec<P> {
    let mut q: Vec<P> = vec![];
    let mut add = |p: P| if !q.contains(&p) { q.push(p) };
    let n = pts.len();
    for a in 0..n {
        let mut p = [0; D]; for j in 0..d { p[j] = pts[a][j] * m; } add(p);
        for b in 0..n {
            if a < b { let mut p = [0; D]; for j in 0..d { p[j] = (pts[a][j] + pts[b][j]) * m / 2; } add(p); }
            if a != b && (b == (a + 1) % n || d < 4) { let mut p = [0; D]; for j in 0..d { p[j] = (3 * pts[a][j] - pts[b][j]) * m / 2; } add(p); }
        }
    }
    for s in &tri.simplices { let mut p = [0; D]; for j in 0..d { p[j] = s.iter().map(|&v| pts[v][j]).sum::<i64>() * m / (d as i64 + 1); } add(p); }
    q
}

pub fn case(ps: &PointSpace, i: u64, ctx: &mut Ctx, raw: bool) {
    let (pts, _, _) = ps.get(i);
    let d = ps.d;
    if affine_dim(&pts, d) < d { ctx.skip(); return; }
    let fp: Vec<Vec<f64>> = pts.iter().map(|p| ps.f(p)).collect();
    let m = 2 * (d as i64 + 1);
    let planes = hull_planes(&pts, d);
    ctx.trace(1);
    let ctx = RefCell::new(ctx);
    with(d, raw, &fp, &mut |tri, s| {
        let ctx = &mut **ctx.borrow_mut();
        let qs = queries(&pts, d, m, tri);
        let big: Vec<P> = pts.iter().map(|p| { let mut q = *p; for j in 0..d { q[j] *= m; } q }).collect();
        let nondeg: Vec<bool> = tri.simplices.iter().map(|x| simplex_det(&pts, x, d) != 0).collect();
        if nondeg.iter().any(|b| !b) || tri.simplices.len() > 1 { ctx.nontrivial(); }
        let fq: Vec<Vec<f64>> = qs.iter().map(|q| (0..d).map(|j| q[j] as f64 / m as f64 * ps.scale[j] + ps.shift[j]).collect()).collect();
        // in a thin simplex, rounding can move coordinates by more than the smaller tolerances
        let wide = pts.iter().any(|p| p[..d].iter().any(|x| x.abs() > 100));
        let thin = wide && tri.simplices.iter().any(|x| { let v = simplex_det(&pts, x, d).unsigned_abs() as f64; v > 0.0 && v < 1e-2 * 1000f64.powi(d as i32) });
        let far = wide || (0..d).any(|j| ps.shift[j].abs() > 8.0 * ps.scale[j]);
        let well_inside = |k: usize| (0..nondeg.len()).any(|x| nondeg[x] && { let (b, o) = bary(&big, &tri.simplices[x], &qs[k], d); b.iter().all(|v| *v as f64 / o as f64 > 1e-6) });
        // where each query really is: 1 = inside or on the hull, 0 = outside
        let inside: Vec<bool> = qs.iter().map(|q| planes.iter().all(|pl| { let mut s = pl.off * m as i128; for j in 0..d { s += pl.n[j] * q[j] as i128; } s <= 0 })).collect();
        let judge = |s: &mut dyn Searcher, k: usize, eps: f64, ctx: &mut Ctx, how: &str| -> Option<usize> {
            let r = s.query(&fq[k]);
            ctx.step(1);
            match r {
                None => { if inside[k] && !(thin && eps < 1e-6 && !well_inside(k)) { ctx.fail("point inside the triangulation not found", format!("{} eps {:e} q {:?}/{}", how, eps, &qs[k][..d], m)); } None }
                Some((x, c)) => {
                    let tol = eps.sqrt() * 1.01 + 1e-9;
                    if x < tri.simplices.len() && !nondeg[x] {
                        // a flat simplex: its coordinates must still represent the point
                        let bad = (0..d).any(|j| (tri.simplices[x].iter().zip(&c).map(|(&v, w)| fp[v][j] * w).sum::<f64>() - fq[k][j]).abs() > 1e-6) || (c.iter().sum::<f64>() - 1.0).abs() > 1e-6 || c.iter().any(|w| !(*w >= -tol && *w <= 1.0 + tol));
                        if !bad { return Some(x); }
                    }
                    if x >= tri.simplices.len() || !nondeg[x] { ctx.fail("search returned a degenerate simplex", format!("{} {}", how, x)); return None; }
                    let (b, o) = bary(&big, &tri.simplices[x], &qs[k], d);
                    let w: Vec<f64> = b.iter().map(|v| *v as f64 / o as f64).collect();
                    if w.iter().any(|v| *v < -tol || *v > 1.0 + tol) { ctx.fail("returned simplex does not contain the point", format!("{} eps {:e} q {:?}/{} simplex {:?} coords {:?}", how, eps, &qs[k][..d], m, tri.simplices[x], w)); return None; }
                    if w.iter().zip(&c).any(|(a, b)| !((a - b).abs() < if thin { 1e-5 } else { 1e-7 })) { ctx.fail("barycentric coordinates are wrong", format!("{} q {:?}/{} {:?} want {:?}", how, &qs[k][..d], m, c, w)); return None; }
                    if let Some(c2) = s.coords(x, &fq[k]) { if c2.iter().zip(&c).any(|(a, b)| (a - b).abs() > if thin { 1e-6 } else { 1e-9 }) { ctx.fail("coordinate queries disagree", format!("{:?} {:?}", c, c2)); return None; } }
                    Some(x)
                }
            }
        };
        for &(eps, brute) in &[(1e-10, false), (1e-4, false), (1e-10, true)] {
            s.set(eps, brute);
            // states reachable from the cleared state, each with the query that leads there
            let mut reach: Vec<Option<usize>> = vec![None; tri.simplices.len()];
            s.clear();
            if eps == 1e-10 && !brute { for k in 0..qs.len() { for (way, x) in s.plain(&fq[k]).into_iter().enumerate() {
                ctx.step(1);
                // the default tolerance is one rounding step of 1: far from the origin it only settles points strictly inside a simplex, or outside
                if far && inside[k] && x.is_none() && !well_inside(k) { continue; }
                if x.is_some() != inside[k] { ctx.fail("a search without optional arguments is wrong", format!("way {} q {:?}/{}: {:?}", way, &qs[k][..d], m, x)); return; }
                if let Some(x) = x.filter(|x| nondeg[*x]) { let (b, o) = bary(&big, &tri.simplices[x], &qs[k], d); if b.iter().any(|v| (*v as f64 / o as f64) < -1e-4) { ctx.fail("returned simplex does not contain the point", format!("way {} q {:?}/{}", way, &qs[k][..d], m)); return; } }
            } } }
            for k in 0..qs.len() {
                s.clear();
                if let Some(x) = judge(s, k, eps, ctx, "cleared") { if reach[x].is_none() { reach[x] = Some(k); } }
                if ctx.failed() { return; }
            }
            ctx.state(1 + reach.iter().filter(|r| r.is_some()).count() as u64);
            for x in 0..tri.simplices.len() {
                if s.force(x) {
                    for k in 0..qs.len() { s.force(x); judge(s, k, eps, ctx, &format!("hint {}", x)); if ctx.failed() { return; } }
                } else if let Some(k0) = reach[x] {
                    for k in 0..qs.len() {
                        s.clear(); s.query(&fq[k0]);
                        judge(s, k, eps, ctx, &format!("after {:?}", &qs[k0][..d]));
                        if ctx.failed() { return; }
                    }
                }
            }
            if brute && !raw { continue; }
            // one long history: the state carries over from query to query
            s.clear();
            for k in 0..qs.len() { judge(s, k, eps, ctx, "history"); if ctx.failed() { return; } }
            for k in (0..qs.len()).rev() { judge(s, k, eps, ctx, "history back"); if ctx.failed() { return; } }
        }
    });
}

pub fn space<'a>(ps: PointSpace, raw: bool) -> Space<'a> {
    let p2 = ps.clone();
    Space { name: ps.name.clone(), n: ps.n(), what: format!("{} x every reachable start hint x every query point x tolerance/bruteforce settings", ps.what()),
        cpu_limit_s: 30,
        run: Box::new(move |i, c| case(&ps, i, c, raw)),
        desc: Box::new(move |i| p2.desc(i)) }
}
