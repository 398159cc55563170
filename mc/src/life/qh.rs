//! Q06: qhull handles give back all their memory, whatever is built, fails, is used and dropped in between.
use super::alloc;
use super::capi::watched;
use mcore::engine::*;
use nalgebra::{Const, DMatrix, OVector};
use qhull_rs::delaunay::SimplexSearcher;
use qhull_rs::{ConvexHull, Delaunay, RawDelaunay, RawHull};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { RawHull(usize), RawDelaunay(usize), Hull(usize), Delaunay(usize), Use(usize), Drop(usize) }
/// Point sets 0 and 1 are solid, 2 is flat, 3 is empty, 4 has too few points.
pub fn pts(k: usize) -> Vec<[f64; 3]> {
    match k {
        0 => (0..8).map(|i| [(i & 1) as f64, (i >> 1 & 1) as f64, (i >> 2) as f64]).collect(),
        1 => vec![[0.1, 0.2, 0.3], [5.0, 0.0, 0.0], [0.0, 6.0, 1.0], [1.0, 2.0, 9.0], [4.0, 4.0, 4.0], [1.5, 1.5, 1.5]],
        2 => (0..6).map(|i| [i as f64, (i * i) as f64, 0.0]).collect(),
        3 => vec![],
        _ => vec![[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]],
    }
}
enum Obj { RawHull(RawHull<Const<3>>), RawDelaunay(RawDelaunay<Const<3>>), Hull(ConvexHull<Const<3>>), Delaunay(Delaunay<Const<3>>) }
fn build(op: Op) -> Result<Obj, String> {
    let f = |k: usize| -> Vec<OVector<f64, Const<3>>> { pts(k).into_iter().map(|p| p.into()).collect() };
    let r = guarded(|| match op {
        // the different ways in: arrays, vectors, iterators
        Op::RawHull(k) => Obj::RawHull(match k { 0 => RawHull::from_arrays(&pts(k)), 1 => RawHull::from_vectors(&f(k)), _ => f(k).into_iter().collect() }),
        Op::RawDelaunay(k) => Obj::RawDelaunay(match k { 1 => RawDelaunay::from_vectors(&f(k)), _ => RawDelaunay::from_arrays(&pts(k)) }),
        Op::Hull(k) => Obj::Hull(match k { 0 => f(k).into_iter().collect(), 1 => ConvexHull::from_arrays(&pts(k)), _ => ConvexHull::from_qhull_raw(RawHull::from_vectors(&f(k))) }),
        Op::Delaunay(k) => Obj::Delaunay(match k { 1 => Delaunay::from_qhull_raw(RawDelaunay::from_arrays(&pts(k))), _ => Delaunay::from_arrays(&pts(k)) }),
        _ => unreachable!(),
    });
    drop_panic_message();
    r
}
pub fn drop_panic_message() { mcore::engine::forget_panic() }

fn bits(v: &mut Vec<u64>, p: &[f64]) { v.extend(p.iter().map(|x| x.to_bits())); }
/// Everything readable, as numbers.
fn observe(o: &Obj) -> Vec<u64> {
    let mut v = vec![];
    match o {
        Obj::RawHull(h) => {
            for x in h.vertices() { v.push(x.id()); bits(&mut v, x.point()); v.extend(x.neighbors().map(|f| f.id())); }
            for f in h.facets() { v.push(f.id()); v.push(f.offset().to_bits()); bits(&mut v, &f.normal()[..3]); v.extend(f.vertices().map(|x| x.id())); v.extend(f.neighbors().map(|x| x.id())); v.push(f.is_upper_delaunay() as u64); }
        }
        Obj::RawDelaunay(d) => {
            for x in d.vertices() { v.push(x.id()); bits(&mut v, x.point()); }
            for f in d.simplices() { v.push(f.id()); v.push(f.offset().to_bits()); bits(&mut v, f.normal()); v.extend(f.vertices().map(|x| x.id())); v.push(f.is_upper_delaunay() as u64); }
            let cache = d.compute_barycentric_solver_cache();
            for p in [[0.4, 0.4, 0.4], [2.0, 2.0, 2.0]] { v.push(d.find_best_simplex(p.into(), &cache, None, None, None).map_or(u64::MAX, |s| s.id())); }
        }
        Obj::Hull(h) => {
            for x in h.vertices() { v.push(x.index() as u64); bits(&mut v, x.point().as_slice()); }
            for f in h.facets() { v.push(f.offset().to_bits()); bits(&mut v, f.normal().as_slice()); v.extend(f.vertices().map(|x| x.index() as u64)); v.extend(f.neighbors().map(|x| x.index() as u64)); }
        }
        Obj::Delaunay(d) => {
            for x in d.vertices() { bits(&mut v, x.point().as_slice()); }
            for s in d.simplices() { v.extend(s.vertices().map(|x| x.index() as u64)); v.extend(s.neighbors().map(|x| x.map_or(u64::MAX, |x| x.index() as u64))); }
            let mut s = SimplexSearcher::new(d);
            for p in [[0.4, 0.4, 0.4], [2.0, 2.0, 2.0], [0.9, 0.1, 0.6]] {
                let mut b = OVector::<f64, Const<4>>::zeros();
                v.push(s.find_simplex_mut(&p.into(), &mut b).map_or(u64::MAX, |s| s.index() as u64)); bits(&mut v, b.as_slice());
            }
        }
    }
    let _ = DMatrix::<f64>::zeros(1, 1);
    v
}

fn alphabet() -> Vec<Op> {
    let mut v = vec![];
    for k in 0..2 { v.extend([Op::RawHull(k), Op::RawDelaunay(k), Op::Hull(k), Op::Delaunay(k), Op::Use(k), Op::Drop(k)]); }
    v.extend([Op::RawHull(2), Op::Delaunay(2), Op::Hull(2), Op::RawDelaunay(3), Op::Hull(4), Op::RawHull(3), Op::Delaunay(4)]);
    v
}

pub fn lifecycles(depth: usize) -> Space<'static> {
    let ops = alphabet();
    let mut seqs: Vec<u8> = vec![];
    // occupancy of the two slots; objects are built into the first free one
    fn rec(ops: &[Op], occ: [bool; 2], cur: &mut Vec<u8>, depth: usize, out: &mut Vec<u8>) {
        if cur.len() == depth { out.extend_from_slice(cur); return; }
        for (i, op) in ops.iter().enumerate() {
            let mut o = occ;
            let ok = match op { Op::Use(s) => occ[*s], Op::Drop(s) => { o[*s] = false; occ[*s] } Op::RawHull(k) | Op::RawDelaunay(k) | Op::Hull(k) | Op::Delaunay(k) => { if *k < 2 { if let Some(f) = occ.iter().position(|x| !x) { o[f] = true; true } else { false } } else { true } } };
            if ok { cur.push(i as u8); rec(ops, o, cur, depth, out); cur.pop(); }
        }
    }
    rec(&ops, [false; 2], &mut vec![], depth, &mut seqs);
    let n = (seqs.len() / depth) as u64;
    let seqs = std::rc::Rc::new(seqs); let s2 = seqs.clone(); let o2 = ops.clone();
    let fills = [0xa5u8, 0x00];
    let mut reference: std::collections::HashMap<String, Vec<u64>> = Default::default();
    for op in &ops { if let Ok(Ok(o)) = guarded(|| build(*op)).map(|r| r) { if let Ok(v) = guarded(|| observe(&o)) { reference.insert(format!("{:?}", op), v); } } else { drop_panic_message() } if matches!(op, Op::Use(_) | Op::Drop(_)) { continue; } }
    Space { name: format!("handles{}", depth), n, what: format!("every sequence of {} builds (usable, flat, empty, too few points), reads and drops over two slots, with two patterns of fresh memory", depth), cpu_limit_s: 20,
        run: Box::new(move |i, ctx| {
            let seq = &seqs[i as usize * depth..(i as usize + 1) * depth];
            for fill in fills {
                alloc::FILL.store(fill, std::sync::atomic::Ordering::SeqCst);
                watched(ctx, |ctx| {
                    let mut slots: [Option<(Op, Obj)>; 2] = [None, None];
                    for k in seq {
                        let op = ops[*k as usize];
                        ctx.step(1);
                        match op {
                            Op::Use(s) => { let (b, o) = slots[s].as_ref().unwrap(); let v = observe(o); if reference.get(&format!("{:?}", b)) != Some(&v) { ctx.fail("what a handle holds depends on what happened around it", format!("{:?}", b)); return; } ctx.outcome(hash_bytes(&v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>())); }
                            Op::Drop(s) => slots[s] = None,
                            _ => match build(op) {
                                Ok(o) => { if let Some(f) = slots.iter().position(|x| x.is_none()) { slots[f] = Some((op, o)); } }
                                Err(m) => { let k = match op { Op::RawHull(k) | Op::RawDelaunay(k) | Op::Hull(k) | Op::Delaunay(k) => k, _ => 0 }; if k < 2 { ctx.fail("building from usable points failed", m); return; } }
                            },
                        }
                    }
                });
                if ctx.failed() { return; }
            }
            ctx.state(depth as u64); ctx.trace(2); ctx.nontrivial();
        }),
        desc: Box::new(move |i| format!("{:?}", s2[i as usize * depth..].iter().take(depth).map(|k| o2[*k as usize]).collect::<Vec<_>>())) }
}
