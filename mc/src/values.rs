//! Q07: hulls and triangulations as values (builders, copies, vertices as keys). Q08: barycentric solvers.
use crate::engine::*;
use crate::geom::*;
use crate::hull::PointSpace;
use nalgebra::{Const, OMatrix, OVector};
use qhull_rs::{ConvexHull, Delaunay, RawDelaunay, RawHull};
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};

/// A hull or triangulation as plain data: points, members, neighbours, planes; numbers as bits.
type Plain = (Vec<Vec<u64>>, Vec<Vec<usize>>, Vec<Vec<usize>>, Vec<Vec<u64>>);
fn bits(v: &[f64]) -> Vec<u64> { v.iter().map(|x| x.to_bits()).collect() }
fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

macro_rules! dims { ($hull:ident, $tri:ident, $solve:ident, $n:literal, $n1:literal) => {
    fn $hull(fp: &[[f64; $n]], ctx: &mut Ctx) {
        type H = ConvexHull<Const<$n>>;
        let plain = |h: &H| -> Plain { (h.vertices().map(|v| bits(v.point().as_slice())).collect(), h.facets().map(|f| f.vertices().map(|v| v.index()).collect()).collect(),
            h.facets().map(|f| f.neighbors().map(|g| g.index()).collect()).collect(), h.facets().map(|f| { let mut v = bits(f.normal().as_slice()); v.push(f.offset().to_bits()); v }).collect()) };
        let rawplain = |h: &RawHull<Const<$n>>| -> (Vec<(u64, Vec<u64>)>, Vec<(u64, Vec<u64>, Vec<u64>, u64)>) { (h.vertices().map(|v| (v.id(), bits(v.point()))).collect(),
            h.facets().map(|f| (f.id(), f.vertices().map(|v| v.id()).collect(), f.neighbors().map(|g| g.id()).collect(), f.offset().to_bits())).collect()) };
        let vecs: Vec<OVector<f64, Const<$n>>> = fp.iter().map(|a| OVector::<f64, Const<$n>>::from_row_slice(a)).collect();
        let before = vecs.clone();
        let a = H::from_arrays(fp);
        let all = [vecs.iter().cloned().collect::<H>(), H::from_qhull_raw(RawHull::from_vectors(&vecs)), H::from_qhull_raw(RawHull::from_arrays(fp)), H::from_qhull_raw(vecs.iter().cloned().collect())];
        let want = plain(&a);
        ctx.step(5);
        if vecs != before { ctx.fail("building a hull changed its input", ""); return; }
        for (k, h) in all.iter().enumerate() { if plain(h) != want { ctx.fail("a hull depends on how its points were handed over", format!("way {}", k + 1)); return; } }
        let r = [RawHull::from_arrays(fp), RawHull::from_vectors(&vecs), vecs.iter().cloned().collect()];
        if rawplain(&r[0]) != rawplain(&r[1]) || rawplain(&r[0]) != rawplain(&r[2]) { ctx.fail("a raw hull depends on how its points were handed over", ""); return; }
        // raw handles compare by what they stand for
        for h in &r { let v: Vec<_> = h.vertices().collect(); let f: Vec<_> = h.facets().collect();
            for i in 0..v.len() { for j in 0..v.len() { if (v[i] == v[j]) != (i == j) { ctx.fail("raw vertices compare wrongly", format!("{} {}", i, j)); return; } } }
            for i in 0..f.len() { for j in 0..f.len() { if (f[i] == f[j]) != (i == j) { ctx.fail("raw facets compare wrongly", format!("{} {}", i, j)); return; } } }
            for g in &f { for x in g.vertices() { if v.iter().filter(|y| **y == x).count() != 1 { ctx.fail("raw vertices compare wrongly", "through a facet"); return; } }
                for x in g.neighbors() { if f.iter().filter(|y| **y == x).count() != 1 { ctx.fail("raw facets compare wrongly", "through a neighbour"); return; } } } }
        // vertices as keys
        let b = a.clone();
        if plain(&b) != want { ctx.fail("a copy of a hull differs from it", ""); return; }
        {
            let v: Vec<_> = a.vertices().chain(b.vertices()).chain(all[0].vertices()).collect();
            let n = a.vertices().len();
            for i in 0..v.len() { for j in 0..v.len() {
                ctx.step(1);
                if (v[i] == v[j]) != (i == j) { ctx.fail("vertices compare wrongly", format!("{} of hull {} and {} of hull {}", i % n, i / n, j % n, j / n)); return; }
            } }
            let mut m: HashMap<_, Vec<usize>> = HashMap::new();
            for (hull, h) in [&a, &b, &all[0]].into_iter().enumerate() { for f in h.facets() { for x in f.vertices() {
                let k = hull * n + x.index();
                if x != v[k] || hash(&x) != hash(&v[k]) { ctx.fail("a vertex reached through a facet is another key than the vertex itself", format!("{}", k)); return; }
                m.entry(x).or_default().push(hull);
            } } }
            if m.len() != v.len() || m.iter().any(|(x, h)| h.iter().any(|h| v[h * n + x.index()] != *x)) { ctx.fail("a table keyed by vertices mixes them up", format!("{} keys for {} vertices", m.len(), v.len())); return; }
            for x in &v { let c = *x; if c != *x || hash(&c) != hash(x) || c.index() != x.index() || c.point() != x.point() { ctx.fail("a copy of a vertex differs from it", ""); return; } }
        }
        drop(a); drop(all);
        if plain(&b) != want { ctx.fail("a copy of a hull changed when the hull was dropped", ""); }
        ctx.outcome(hash(&want));
    }
    fn $tri(fp: &[[f64; $n]], ctx: &mut Ctx) {
        type T = Delaunay<Const<$n>>;
        let n = $n + 1;
        let plain = |t: &T| -> Plain { (t.vertices().map(|v| bits(v.point().as_slice())).collect(), t.simplices().map(|s| s.vertices().map(|v| v.index()).collect()).collect(),
            t.simplices().map(|s| s.neighbors().map(|g| g.map_or(usize::MAX, |g| g.index())).collect()).collect(),
            t.simplices().map(|s| (0..=n).map(|j| { let mut p = OVector::<f64, Const<$n1>>::zeros(); if j < n { p[j] = 1.0; } s.plane_distance(&p).to_bits() }).collect()).collect()) };
        let rawplain = |t: &RawDelaunay<Const<$n>>| -> (Vec<(u64, Vec<u64>)>, Vec<(u64, Vec<u64>, Vec<u64>, bool)>) { (t.vertices().map(|v| (v.id(), bits(v.point()))).collect(),
            t.simplices().map(|f| (f.id(), f.vertices().map(|v| v.id()).collect(), f.neighbors().map(|g| g.id()).collect(), f.is_upper_delaunay())).collect()) };
        let vecs: Vec<OVector<f64, Const<$n>>> = fp.iter().map(|a| OVector::<f64, Const<$n>>::from_row_slice(a)).collect();
        let a = T::from_arrays(fp);
        let want = plain(&a);
        let (c, d) = (T::from_qhull_raw(RawDelaunay::from_vectors(&vecs)), T::from_qhull_raw(RawDelaunay::from_arrays(fp)));
        ctx.step(3);
        if plain(&c) != want || plain(&d) != want { ctx.fail("a triangulation depends on how its points were handed over", ""); return; }
        let (r, s) = (RawDelaunay::from_arrays(fp), RawDelaunay::from_vectors(&vecs));
        if rawplain(&r) != rawplain(&s) { ctx.fail("a raw triangulation depends on how its points were handed over", ""); return; }
        // the full views list the same simplices and vertices, with the lifted coordinate last
        if r.full_simplices().count() != r.simplices().count() || r.full_vertices().count() != r.vertices().count() { ctx.fail("the full view of a raw triangulation has another size", ""); return; }
        for (x, y) in r.vertices().zip(r.full_vertices()) { if x.id() != y.id() || y.point().len() != n || bits(x.point()) != bits(&y.point()[..$n]) { ctx.fail("a vertex differs between the views of a raw triangulation", format!("{:?} {:?}", x.point(), y.point())); return; } }
        for (x, y) in r.simplices().zip(r.full_simplices()) { if x.id() != y.id() || x.vertices().map(|v| v.id()).ne(y.vertices().map(|v| v.id())) || x.is_upper_delaunay() != y.is_upper_delaunay() { ctx.fail("a simplex differs between the views of a raw triangulation", ""); return; } }
        let b = a.clone();
        if plain(&b) != want { ctx.fail("a copy of a triangulation differs from it", ""); return; }
        // the copy finds what the original finds, and a searcher refuses simplices that are not its own
        let queries: Vec<OVector<f64, Const<$n>>> = vecs.iter().enumerate().flat_map(|(k, v)| { let w = &vecs[(k + 1) % vecs.len()]; [v.clone(), (v + w) * 0.5, v * 2.0 - w] }).collect();
        let ask = |t: &T, ctx: &mut Ctx| -> Vec<(usize, Vec<u64>)> {
            let s = t.simplex_searcher();
            queries.iter().map(|q| { ctx.step(1); let mut o = OVector::<f64, Const<$n1>>::zeros(); match s.find_simplex_mut(q, &mut o) { Some(f) => (f.index(), bits(o.as_slice())), None => (usize::MAX, vec![]) } }).collect()
        };
        let found = ask(&a, ctx);
        {
            let s = a.simplex_searcher();
            for (q, w) in queries.iter().zip(&found) {
                ctx.step(1);
                if s.find_simplex(q).map_or(usize::MAX, |f| f.index()) != w.0 { ctx.fail("looking for a simplex without its coordinates gives another one", ""); return; }
                if w.0 == usize::MAX { continue; }
                let f = a.simplices().nth(w.0).unwrap();
                let mut o = OVector::<f64, Const<$n1>>::from_element(7.0);
                s.barycentric_coords_mut(f, *q, &mut o);
                let far = |v: &[f64]| v.iter().zip(&w.1).any(|(a, b)| !((a - f64::from_bits(*b)).abs() < 1e-9 * (1.0 + a.abs())));
                if far(o.as_slice()) || far(s.barycentric_coords(f, *q).as_slice()) { ctx.fail("coordinates differ between the ways of asking for them", ""); return; }
            }
            let other = b.simplices().next().unwrap();
            if guarded(|| s.barycentric_coords(other, queries[0])).is_ok() || guarded(|| { let mut o = OVector::<f64, Const<$n1>>::zeros(); s.barycentric_coords_mut(other, queries[0], &mut o) }).is_ok() { ctx.fail("a searcher took another triangulation's simplex for its own", ""); return; }
        }
        drop(a); drop(c); drop(d);
        if plain(&b) != want || ask(&b, ctx) != found { ctx.fail("a copy of a triangulation differs once the original is dropped", ""); }
        ctx.outcome(hash(&want));
    }
    fn $solve(fp: &[[f64; $n]], pts: &[P], ps: &PointSpace, ctx: &mut Ctx) {
        let idx: Vec<usize> = (0..pts.len()).collect();
        let m = OMatrix::<f64, Const<$n>, Const<$n1>>::from_fn(|r, c| fp[c][r]);
        let s = qhull_rs::raw::BarycentricSolver::<Const<$n>>::new(m);
        let s2 = s.clone();
        // every point of the grid and around it, in halves
        let lim = ps.grid.iter().flat_map(|p| p[..$n].iter()).max().unwrap() + 1;
        let side = 2 * lim + 3;
        let big: Vec<P> = pts.iter().map(|p| p.map(|x| x * 2)).collect();
        let total = (side as u64).pow($n).min(4000);
        for t in 0..total {
            let mut q = [0i64; D]; let mut k = t * (side as u64).pow($n) / total;
            for j in 0..$n { q[j] = (k % side as u64) as i64 - 2; k /= side as u64; }
            let f = OVector::<f64, Const<$n>>::from_fn(|j, _| q[j] as f64 / 2.0 * ps.scale[j] + ps.shift[j]);
            let (b, o) = bary(&big, &idx, &q, $n);
            let got = s.solve(f);
            let mut out = OVector::<f64, Const<$n1>>::from_element(5.0);
            s2.solve_mut(f, &mut out);
            ctx.step(1);
            if got.iter().zip(out.iter()).any(|(a, b)| !((a - b).abs() < 1e-9 * (1.0 + a.abs()))) { ctx.fail("solve and solve_mut differ", format!("{:?}", q)); return; }
            if b.iter().zip(got.iter()).any(|(w, g)| !((*w as f64 / o as f64 - g).abs() < 1e-9)) { ctx.fail("barycentric coordinates are wrong", format!("{:?}/2: {:?}", &q[..$n], got.as_slice())); return; }
        }
        ctx.outcome(hash(&bits(s.solve(OVector::<f64, Const<$n>>::from_element(0.3)).as_slice())));
    }
} }
dims!(h2, d2, s2, 2, 3); dims!(h3, d3, s3, 3, 4); dims!(h4, d4, s4, 4, 5); dims!(h5, d5, s5, 5, 6);
fn arr<const N: usize>(ps: &PointSpace, pts: &[P]) -> Vec<[f64; N]> { pts.iter().map(|p| { let v = ps.f(p); let mut a = [0.0; N]; a.copy_from_slice(&v); a }).collect() }
#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Hull, Tri, Solver }
pub fn space<'a>(ps: PointSpace, kind: Kind) -> Space<'a> {
    let p2 = ps.clone();
    Space { name: ps.name.clone(), n: ps.n(), cpu_limit_s: 30,
        what: format!("{}, {}", ps.what(), match kind { Kind::Hull => "as hulls", Kind::Tri => "as triangulations", Kind::Solver => "as simplices, every half grid point asked" }),
        run: Box::new(move |i, ctx| {
            let (pts, _, _) = ps.get(i);
            if affine_dim(&pts, ps.d) < ps.d { ctx.skip(); return; }
            ctx.state(1); ctx.trace(1); ctx.nontrivial();
            macro_rules! go { ($n:literal, $h:ident, $t:ident, $s:ident) => { { let fp = arr::<$n>(&ps, &pts); match kind { Kind::Hull => $h(&fp, ctx), Kind::Tri => $t(&fp, ctx), Kind::Solver => $s(&fp, &pts, &ps, ctx) } } } }
            match ps.d { 2 => go!(2, h2, d2, s2), 3 => go!(3, h3, d3, s3), 4 => go!(4, h4, d4, s4), 5 => go!(5, h5, d5, s5), _ => unreachable!() }
        }),
        desc: Box::new(move |i| p2.desc(i)) }
}
