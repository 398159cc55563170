//! Convex hull properties (Q01 vertices, Q02 facets) on the real qhull-rs API.
use crate::engine::*;
use crate::geom::*;
use nalgebra::{Const, DefaultAllocator, OVector, ToTypenum};
use nalgebra::base::allocator::Allocator;
use qhull_rs::{ConvexHull, RawHull};

#[derive(Clone)]
pub struct PointSpace { pub name: String, pub d: usize, pub grid: Vec<P>, pub kmin: usize, pub kmax: usize, pub scale: [f64; D], pub shift: [f64; D], pub orders: u64, pub fix0: bool, pub metric: Option<[i64; D]>, pub dup: bool, pub sets: Option<std::rc::Rc<Vec<u64>>> }

impl PointSpace {
    pub fn n(&self) -> u64 { self.orders * match &self.sets { Some(s) => s.len() as u64, None => (self.kmin..=self.kmax).map(|k| self.cnt(k)).sum::<u64>() } }
    pub fn what(&self) -> String {
        let g = format!("of {}..{} points of a {}-point grid in {}D", self.kmin, self.kmax, self.grid.len(), self.d);
        format!("{} {}, {} input orders", if self.sets.is_some() { "a representative of every class (under the grid's symmetries) of point sets" } else { "all point sets" }, g, self.orders)
    }
    fn cnt(&self, k: usize) -> u64 { if self.fix0 { binom(self.grid.len() as u64 - 1, k as u64 - 1) } else { binom(self.grid.len() as u64, k as u64) } }
    pub fn get(&self, i: u64) -> (Vec<P>, Vec<usize>, u64) {
        let ord = i % self.orders;
        let mut r = i / self.orders;
        if let Some(s) = &self.sets {
            let mut ids: Vec<usize> = (0..self.grid.len()).filter(|k| s[r as usize] >> k & 1 == 1).collect();
            order(&mut ids, ord);
            return (ids.iter().map(|&j| self.grid[j]).collect(), ids, ord);
        }
        for k in self.kmin..=self.kmax {
            let c = self.cnt(k);
            if r < c {
                let mut ids = if self.fix0 { let mut v = vec![0]; v.extend(unrank(self.grid.len() - 1, k - 1, r).iter().map(|x| x + 1)); v } else { unrank(self.grid.len(), k, r) };
                order(&mut ids, ord);
                return (ids.iter().map(|&j| self.grid[j]).collect(), ids, ord);
            }
            r -= c;
        }
        unreachable!()
    }
    pub fn f(&self, p: &P) -> Vec<f64> { (0..self.d).map(|j| p[j] as f64 * self.scale[j] + self.shift[j]).collect() }
    pub fn desc(&self, i: u64) -> String {
        let (p, _, _) = self.get(i);
        let v: Vec<String> = p.iter().map(|p| format!("({})", p[..self.d].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect();
        format!("{}D scale {:?}: {}", self.d, &self.scale[..self.d], v.join(" "))
    }
}

pub fn order(ids: &mut Vec<usize>, ord: u64) {
    let n = ids.len();
    match ord {
        0 => {}
        1 => ids.reverse(),
        2 => ids.rotate_left(n / 2),
        3 => { let mut v = vec![]; for i in 0..n { v.push(ids[if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }]); } *ids = v; }
        _ => { let s = ord as usize; ids.rotate_left(s % n); ids.swap(0, n / 2) }
    }
}

pub fn grid(dims: &[i64]) -> Vec<P> {
    let mut out = vec![[0i64; D]];
    for (j, &m) in dims.iter().enumerate() {
        out = out.into_iter().flat_map(|p| (0..m).map(move |v| { let mut q = p; q[j] = v; q })).collect();
    }
    out
}

fn arr<const N: usize>(ps: &PointSpace, pts: &[P]) -> Vec<[f64; N]> {
    pts.iter().map(|p| { let v = ps.f(p); let mut a = [0.0; N]; a.copy_from_slice(&v); a }).collect()
}

/// Index of the input point whose coordinates are bit-identical to `v`.
fn lookup<const N: usize>(fp: &[[f64; N]], v: &[f64]) -> Option<usize> { fp.iter().position(|p| p.iter().zip(v).all(|(a, b)| a.to_bits() == b.to_bits())) }

#[derive(Clone, Copy, PartialEq)]
pub enum Which { Vertices, Facets }

/// Vertices, facets' vertices, neighbours, normals with offsets.
pub type Parts = (Vec<Vec<f64>>, Vec<Vec<usize>>, Vec<Vec<usize>>, Vec<(Vec<f64>, f64)>);
/// The implementation's hull as plain data (built in another way depending on `i`).
pub fn extract<const N: usize>(fp: &[[f64; N]], i: u64, ctx: &mut Ctx, raw: bool, which: Which) -> Option<Parts>
where DefaultAllocator: Allocator<f64, Const<N>> + Allocator<usize, Const<N>>, Const<N>: ToTypenum {
    let mag = fp.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    Some(if !raw {
        let h: ConvexHull<Const<N>> = if i % 2 == 0 { ConvexHull::from_arrays(fp) } else { fp.iter().map(|a| OVector::<f64, Const<N>>::from_row_slice(a)).collect() };
        ctx.step(1);
        if h.vertices().len() != h.vertices().count() || h.facets().len() != h.facets().count() { ctx.fail("iterator length is wrong", ""); return None; }
        for (k, v) in h.vertices().enumerate() { if v.index() != k { ctx.fail("vertex index is not its position", format!("{} at {}", v.index(), k)); return None; } }
        if which == Which::Facets { for (k, f) in h.facets().enumerate() { if f.index() != k { ctx.fail("facet index is not its position", format!("{} at {}", f.index(), k)); return None; } } }
        (h.vertices().map(|v| v.point().as_slice().to_vec()).collect(),
         h.facets().map(|f| f.vertices().map(|v| v.index()).collect()).collect(),
         h.facets().map(|f| f.neighbors().map(|g| g.index()).collect()).collect(),
         h.facets().map(|f| (f.normal().as_slice().to_vec(), f.offset())).collect())
    } else {
        let vecs = || fp.iter().map(|a| OVector::<f64, Const<N>>::from_row_slice(a));
        let h: RawHull<Const<N>> = match i % 3 { 0 => RawHull::from_arrays(fp), 1 => RawHull::from_vectors(&vecs().collect::<Vec<_>>()), _ => vecs().collect() };
        ctx.step(1);
        let vid: Vec<u64> = h.vertices().map(|v| v.id()).collect();
        let fid: Vec<u64> = h.facets().map(|f| f.id()).collect();
        let vm: std::collections::HashMap<u64, usize> = vid.iter().enumerate().map(|(k, x)| (*x, k)).collect();
        let fm: std::collections::HashMap<u64, usize> = fid.iter().enumerate().map(|(k, x)| (*x, k)).collect();
        let vi = |id: u64| vm.get(&id).copied().unwrap_or(usize::MAX);
        let fi = |id: u64| fm.get(&id).copied().unwrap_or(usize::MAX);
        // plane_distance agrees with the facet's own normal and offset, and no input point lies outside
        for f in h.facets().filter(|_| which == Which::Facets) {
            if f.is_upper_delaunay() { ctx.fail("hull facet claims to be upper Delaunay", ""); return None; }
            for p in fp {
                let v = OVector::<f64, Const<N>>::from_row_slice(p);
                let want: f64 = f.offset() + f.normal()[..N].iter().zip(p).map(|(a, b)| a * b).sum::<f64>();
                let got = f.plane_distance(&v);
                if (want - got).abs() > 1e-9 * mag { ctx.fail("plane_distance disagrees with normal and offset", format!("{} vs {}", got, want)); return None; }
            }
        }
        if which == Which::Facets { for v in h.vertices() {
            let mut got: Vec<u64> = v.neighbors().map(|f| f.id()).collect();
            let mut want: Vec<u64> = h.facets().filter(|f| f.vertices().any(|x| x.id() == v.id())).map(|f| f.id()).collect();
            got.sort(); want.sort();
            if got != want { ctx.fail("a raw vertex's neighbours are not the facets around it", format!("{:?} want {:?}", got, want)); return None; }
        } }
        (h.vertices().map(|v| v.point().to_vec()).collect(),
         h.facets().map(|f| f.vertices().map(|v| vi(v.id())).collect()).collect(),
         h.facets().map(|f| f.neighbors().map(|g| fi(g.id())).collect()).collect(),
         h.facets().map(|f| (f.normal()[..N].to_vec(), f.offset())).collect())
    })
}

pub fn case<const N: usize>(ps: &PointSpace, i: u64, ctx: &mut Ctx, raw: bool, which: Which)
where DefaultAllocator: Allocator<f64, Const<N>> + Allocator<usize, Const<N>>, Const<N>: ToTypenum {
    let (pts, _, _) = ps.get(i);
    let d = N;
    if affine_dim(&pts, d) < d { ctx.skip(); return; }
    let mut fp = arr::<N>(ps, &pts);
    // some orders also repeat every point
    if ps.dup && i % 2 == 1 { let mut r = fp.clone(); r.reverse(); fp.extend(r); }
    let planes = hull_planes(&pts, d);
    let ext = extreme_mask(&pts, &planes, d);
    ctx.state(1); ctx.trace(1);
    if (ext.count_ones() as usize) < pts.len() || planes.iter().any(|p| p.on.count_ones() as usize > d) { ctx.nontrivial(); }
    let mag = fp.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    let Some((verts, facets, neigh, normals)) = extract::<N>(&fp, i, ctx, raw, which) else { return };
    // Q01: vertices are exactly the extreme points, bit for bit, once each
    let mut got = 0u64;
    let mut vid = vec![];
    for v in &verts {
        let Some(k) = lookup(&fp, v) else { ctx.fail("hull vertex is not an input point", format!("{:?}", v)); return; };
        if got >> k & 1 == 1 { ctx.fail("hull vertex listed twice", format!("{:?}", v)); return; }
        got |= 1 << k;
        vid.push(k);
    }
    if got != ext { ctx.fail("hull vertices differ from the extreme points", format!("got {:b} want {:b}", got, ext)); return; }
    ctx.outcome((verts.len() * 1000 + facets.len()) as u64 * 31 + planes.len() as u64);
    if which == Which::Vertices { return; }
    let mut vol = 0i128;
    for (k, f) in facets.iter().enumerate() {
        if f.len() != d || f.iter().any(|v| *v >= verts.len()) { ctx.fail("facet does not have N valid vertices", format!("{:?}", f)); return; }
        let mut s = f.clone(); s.sort(); s.dedup();
        if s.len() != d { ctx.fail("facet repeats a vertex", format!("{:?}", f)); return; }
        let m: u64 = f.iter().map(|&v| 1u64 << vid[v]).sum();
        if !planes.iter().any(|p| p.on & m == m) { ctx.fail("facet is not on the boundary of the hull", format!("{:?}", f)); return; }
        // outward unit normal and offset in the scaled coordinates: n'_j = n_j/scale_j
        // (a zero-area facet, which triangulating a non-simplicial one can leave, lies in several planes)
        let (n, off) = &normals[k];
        let nl: f64 = n.iter().map(|a| a * a).sum::<f64>().sqrt();
        let best = planes.iter().filter(|p| p.on & m == m).map(|pl| {
            let mut w: Vec<f64> = (0..d).map(|j| pl.n[j] as f64 / ps.scale[j]).collect();
            let l = w.iter().map(|x| x * x).sum::<f64>().sqrt();
            for x in w.iter_mut() { *x /= l; }
            (n.iter().zip(&w).map(|(a, b)| a * b).sum::<f64>(), w, pl)
        }).max_by(|a, b| a.0.total_cmp(&b.0)).unwrap();
        let (dot, w, pl) = best;
        if (nl - 1.0).abs() > 1e-9 || dot < 1.0 - 1e-7 { ctx.fail("facet normal is not the outward unit normal", format!("{:?} want {:?}", n, w)); return; }
        for &v in f { let dist: f64 = off + n.iter().zip(&verts[v]).map(|(a, b)| a * b).sum::<f64>(); if dist.abs() > 1e-8 * mag { ctx.fail("facet offset does not match its vertices", format!("{}", dist)); return; } }
        if d == 3 && !raw {
            let p: Vec<&P> = f.iter().map(|&v| &pts[vid[v]]).collect();
            let e = |a: &P, b: &P| [(b[0] - a[0]) as i128, (b[1] - a[1]) as i128, (b[2] - a[2]) as i128];
            let (a, b) = (e(p[0], p[1]), e(p[0], p[2]));
            let c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
            let o: i128 = (0..3).map(|j| c[j] * pl.n[j]).sum();
            if o < 0 { ctx.fail("3D facet winding disagrees with its outward normal", format!("{:?}", f)); return; }
            if o == 0 { ctx.fail("3D facet has no area", format!("{:?}", f)); return; }
        }
        let c: Vec<usize> = std::iter::once(0).chain(f.iter().map(|&v| vid[v])).collect();
        vol += simplex_det(&pts, &c, d).abs();
        // neighbours: the k-th neighbour shares every vertex but the k-th
        if neigh[k].len() != d { ctx.fail("facet does not have N neighbours", format!("{:?}", neigh[k])); return; }
        for (j, &g) in neigh[k].iter().enumerate() {
            if g >= facets.len() || g == k { ctx.fail("neighbour is not another facet", format!("{}", g)); return; }
            let missing: Vec<usize> = f.iter().copied().filter(|v| !facets[g].contains(v)).collect();
            if missing != [f[j]] { ctx.fail("k-th neighbour is not opposite the k-th vertex", format!("facet {:?} neighbour {} = {:?}", f, j, facets[g])); return; }
            if !neigh[g].contains(&k) { ctx.fail("neighbour relation is not symmetric", ""); return; }
        }
    }
    // facets, coned from input point 0, fill the hull exactly once
    let want = volume_dfact(&pts, d);
    if vol != want { ctx.fail("facets do not close up around the hull's volume", format!("{} want {}", vol, want)); }
}

pub fn space<'a>(ps: PointSpace, raw: bool, which: Which) -> Space<'a> {
    let p2 = ps.clone();
    Space { name: ps.name.clone(), n: ps.n(), what: ps.what(),
        cpu_limit_s: 20,
        run: Box::new(move |i, c| match ps.d { 2 => case::<2>(&ps, i, c, raw, which), 3 => case::<3>(&ps, i, c, raw, which), 4 => case::<4>(&ps, i, c, raw, which), 5 => case::<5>(&ps, i, c, raw, which), _ => unreachable!() }),
        desc: Box::new(move |i| p2.desc(i)) }
}

pub fn ps(name: &str, dims: &[i64], kmin: usize, kmax: usize, scale: &[f64], orders: u64, fix0: bool) -> PointSpace {
    let mut s = [1.0; D]; s[..scale.len()].copy_from_slice(scale);
    PointSpace { name: name.into(), d: dims.len(), grid: grid(dims), kmin, kmax, scale: s, shift: [0.0; D], orders, fix0, metric: Some([1; D]), dup: false, sets: None }
}

impl PointSpace {
    pub fn shifted(mut self, shift: &[f64]) -> Self { self.shift[..shift.len()].copy_from_slice(shift); self }
    /// only one of each class of point sets that a symmetry of the grid maps to each other
    pub fn orbits(mut self) -> Self { let m = self.grid.iter().map(|p| p[0]).max().unwrap() + 1; self.sets = Some(orbits(m, self.d, self.kmin, self.kmax)); self }
    pub fn dup(mut self) -> Self { self.dup = true; self.orders *= 2; self }
    pub fn metric(mut self, m: Option<&[i64]>) -> Self { self.metric = m.map(|m| { let mut a = [1; D]; a[..m.len()].copy_from_slice(m); a }); self }
}

/// A raw hull facet's normal is documented as the facet's normal: it must have one entry per dimension.
pub fn normal_len<'a>() -> Space<'a> {
    fn one<const N: usize>(ctx: &mut Ctx) where DefaultAllocator: Allocator<f64, Const<N>> + Allocator<usize, Const<N>>, Const<N>: ToTypenum {
        let mut a = vec![[0.0; N]; N + 1];
        for j in 0..N { a[j + 1][j] = 1.0; }
        let h: RawHull<Const<N>> = RawHull::from_arrays(&a);
        ctx.state(1); ctx.step(1); ctx.nontrivial();
        if let Some(f) = h.facets().find(|f| f.normal().len() != N) { ctx.fail("raw facet normal reads past its end", format!("{} entries in {}D", f.normal().len(), N)); }
    }
    Space { name: "rawnormal".into(), n: 4, what: "length of a raw hull facet's normal in 2D..5D".into(), cpu_limit_s: 20,
        run: Box::new(|i, c| match i { 0 => one::<2>(c), 1 => one::<3>(c), 2 => one::<4>(c), _ => one::<5>(c) }),
        desc: Box::new(|i| format!("unit simplex in {}D", i + 2)) }
}

/// One set (as a bit mask over `grid`) of every class of kmin..=kmax-subsets of the m^d grid under its reflections and axis permutations.
pub fn orbits(m: i64, d: usize, kmin: usize, kmax: usize) -> std::rc::Rc<Vec<u64>> {
    thread_local! { static MEMO: std::cell::RefCell<Vec<((i64, usize, usize, usize), std::rc::Rc<Vec<u64>>)>> = Default::default(); }
    if let Some(v) = MEMO.with(|v| v.borrow().iter().find(|x| x.0 == (m, d, kmin, kmax)).map(|x| x.1.clone())) { return v; }
    let g = grid(&vec![m; d]);
    assert!(g.len() <= 32);
    // every symmetry as four tables of the images of eight points each
    let mut perms: Vec<Vec<usize>> = vec![vec![]];
    for j in 0..d { perms = perms.into_iter().flat_map(|p| (0..=j).map(move |k| { let mut q = p.clone(); q.insert(k, j); q })).collect(); }
    let mut tables: Vec<[[u32; 256]; 4]> = vec![];
    for p in &perms { for f in 0..1usize << d {
        let to: Vec<usize> = g.iter().map(|x| { let mut y = [0; D]; for j in 0..d { y[j] = if f >> j & 1 == 1 { m - 1 - x[p[j]] } else { x[p[j]] }; } g.iter().position(|q| *q == y).unwrap() }).collect();
        let mut t = [[0u32; 256]; 4];
        for b in 0..4 { for v in 0..256usize { for k in 0..8 { if v >> k & 1 == 1 { if let Some(x) = to.get(b * 8 + k) { t[b][v] |= 1 << x; } } } } }
        tables.push(t);
    } }
    let canon = |s: u32| tables.iter().map(|t| t[0][s as usize & 255] | t[1][s as usize >> 8 & 255] | t[2][s as usize >> 16 & 255] | t[3][s as usize >> 24]).min().unwrap();
    let mut level = vec![0u32]; let mut out = vec![];
    for k in 1..=kmax {
        let mut next: std::collections::BTreeSet<u32> = Default::default();
        for s in &level { for x in 0..g.len() { if s >> x & 1 == 0 { next.insert(canon(s | 1 << x)); } } }
        level = next.into_iter().collect();
        if k >= kmin { out.extend(level.iter().map(|s| *s as u64)); }
    }
    let out = std::rc::Rc::new(out);
    MEMO.with(|v| v.borrow_mut().push(((m, d, kmin, kmax), out.clone())));
    out
}
/// The corners of a simplex and points a hair (a thousandth of its size) inside and outside its faces, edges and corners.
pub fn thin(name: &str, d: usize, kmax: usize, scale: f64, step: usize) -> PointSpace {
    let p = |c: &[i64]| { let mut q = [0i64; D]; q[..d].copy_from_slice(&c[..d]); q };
    let mut g: Vec<P> = (0..=d).map(|j| { let mut q = [0i64; D]; if j < d { q[j] = 1000; } q }).collect();
    let rest: &[&[i64]] = match d {
        2 => &[&[1000, 1000], &[500, 501], &[480, 519], &[500, 1], &[470, -1], &[1, 333], &[-1, 690], &[999, 1], &[300, 340], &[501, 999], &[2, 2]],
        3 => &[&[1000, 1000, 1000], &[333, 333, 333], &[330, 337, 334], &[300, 310, 1], &[340, 290, -1], &[500, 1, 1], &[470, -1, -1], &[1, 1, 1], &[240, 270, 260], &[998, 1, 2]],
        4 => &[&[250, 250, 250, 249], &[240, 255, 251, 255], &[1, 300, 310, 190], &[-1, 250, 230, 270], &[500, 1, 1, 1], &[1, 1, 1, 1], &[200, 210, 190, 180]],
        _ => &[&[200, 200, 200, 200, 199], &[203, 195, 201, 199, 203], &[1, 190, 210, 200, 180], &[-1, 170, 180, 190, 220], &[150, 160, 170, 180, 190]],
    };
    g.extend(rest.iter().step_by(step).map(|c| p(c)));
    PointSpace { name: name.into(), d, grid: g, kmin: d + 1, kmax, scale: [scale; D], shift: [0.0; D], orders: 1, fix0: false, metric: (d < 5).then_some([1; D]), dup: false, sets: None }
}
