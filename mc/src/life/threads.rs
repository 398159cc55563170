//! T01: what one thread computes does not depend on what another one does meanwhile.
use super::sched;
use mcore::engine::*;
use mcore::misc::demo_image;
use mcore::recolor::*;
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};
use nalgebra::{Const, OVector};
use qhull_rs::{ConvexHull, Delaunay};

type Job = Box<dyn Fn() -> Vec<u8> + Sync>;
pub const KINDS: [&str; 9] = ["simplified palette", "weights+decompose", "decompose a shared image", "recolour a shared decomposition", "hull", "failing hull", "palette", "palettes around their error bound", "decompose a shared image to palettes that differ in size and darkest colour"];

/// The job `kind` of thread `t`: the two threads' jobs have different inputs of the same shapes.
fn job(kind: usize, t: usize, w: &'static ImageWeights, d: &'static DecomposedImage) -> Job {
    let (iw, ih, px) = demo_image(if t == 0 { 0 } else { 2 });
    let p: Vec<Col> = if t == 0 { vec![[10, 10, 10], [200, 20, 30], [30, 210, 40], [20, 30, 220]] } else { vec![[0, 0, 0], [255, 10, 0], [0, 255, 0], [0, 9, 255]] };
    let q: Vec<Col> = (0..8).map(|i| [(i * 31 + t * 7) as u8, (255 - i * 13) as u8, (i * t * 11) as u8]).collect();
    match kind {
        0 => Box::new(move || compute_palette(&img(iw, ih, &px), 4, 5, 0.1).iter().flat_map(|c| c.0).collect()),
        1 => Box::new(move || { let w = ImageWeights::new(&img(iw, ih, &px)); DecomposedImage::new(&w, &pal(&p)).unwrap().reconstruct(&pal(&q[..4])).unwrap().into_raw() }),
        2 => Box::new(move || { let d = DecomposedImage::new(w, &pal(&p)).unwrap(); let mut v = d.reconstruct(&pal(&q[..4])).unwrap().into_raw(); v.extend(d.get_channel_grayscale(t).unwrap().into_raw()); v }),
        3 => Box::new(move || { let mut v = d.reconstruct(&pal(&q)).unwrap().into_raw(); v.extend(d.get_channel_grayscale(t).unwrap().into_raw()); v.push(d.reconstruct(&pal(&q[..3])).is_none() as u8); v }),
        4 => Box::new(move || {
            let pts: Vec<[f64; 3]> = (0..6).map(|i| { let c = px[i]; [c[0] as f64, c[1] as f64, c[2] as f64] }).collect();
            let h = ConvexHull::<Const<3>>::from_arrays(&pts);
            let mut v: Vec<u8> = h.facets().flat_map(|f| f.vertices().map(|v| v.index() as u8).collect::<Vec<_>>()).collect();
            let tri = Delaunay::<Const<3>>::from_arrays(&pts);
            let mut s = tri.simplex_searcher();
            for p in &pts { let mut b = OVector::<f64, Const<4>>::zeros(); v.push(s.find_simplex_mut(&(*p).into(), &mut b).map_or(255, |s| s.index() as u8)); v.extend(b.iter().flat_map(|x| x.to_le_bytes())); }
            v }),
        6 => Box::new(move || compute_palette(&img(5, 1, &[p[0], p[1], p[2], p[3], [60, 61 + t as u8, 62]]), 4, 255, 1.0).iter().flat_map(|c| c.0).collect()),
        7 => {
            // both sides of the bound at which the palette changes: any other error sum shows
            let px: Vec<Col> = vec![[0, 0, 0], [255, 9 * t as u8, 0], [0, 255, 0], [250, 255, 3], [90, 100 + t as u8, 255]];
            let at = move |b: f64| -> Vec<u8> { compute_palette(&img(px.len() as u32, 1, &px), 4, 5, b).iter().flat_map(|c| c.0).collect() };
            let (zero, mut lo, mut hi) = (at(0.0), 0.0, 1.0);
            assert_ne!(zero, at(hi));
            while hi - lo > 1e-9 { let m = (lo + hi) / 2.0; if at(m) == zero { lo = m } else { hi = m } }
            assert!(lo > 1e-4);
            Box::new(move || { let mut v = at(lo * (1.0 - 1e-5)); v.push(0); v.extend(at(hi * (1.0 + 1e-5))); v })
        }
        8 => {
            let p: Vec<Col> = if t == 0 { vec![[250, 30, 20], [30, 240, 40], [10, 20, 15], [20, 30, 250], [230, 235, 240]] } else { vec![[255, 255, 0], [0, 255, 255], [255, 0, 255], [255, 255, 255], [9, 0, 255], [0, 255, 8], [255, 7, 0], [0, 0, 0]] };
            Box::new(move || { let d = DecomposedImage::new(w, &pal(&p)).unwrap(); let n = d.num_channels(); let mut v = d.reconstruct(&pal(&q[..n])).unwrap().into_raw(); for k in 0..n { v.extend(d.get_channel_grayscale(k).unwrap().into_raw()); } v })
        }
        _ => Box::new(move || { let flat: Vec<[f64; 3]> = (0..6).map(|i| [(i + t) as f64, (i * i) as f64, 0.0]).collect(); vec![guarded(|| ConvexHull::<Const<3>>::from_arrays(&flat)).is_err() as u8] }),
    }
}

/// Both orders of start, every point at which the first thread is interrupted, every `stride`-th point at which the other one is.
pub fn pair(k0: usize, k1: usize, bound: u32, fine: bool) -> Space<'static> {
    use std::sync::atomic::Ordering::SeqCst;
    let (w, h, px) = demo_image(1);
    let im = img(w, h, &px);
    let wt: &'static ImageWeights = Box::leak(Box::new(ImageWeights::new(&im)));
    let dt: &'static DecomposedImage = Box::leak(Box::new(DecomposedImage::new(wt, &pal(&corners(255))).unwrap()));
    let jobs: [Job; 2] = [job(k0, 0, wt, dt), job(k1, 1, wt, dt)];
    let want = [jobs[0](), jobs[1]()];
    // points per thread: the largest of a few runs without interruption, since hashing is seeded afresh each time
    let mut pts = [0u64; 2];
    sched::FINE.store(fine, SeqCst);
    for _ in 0..8 { for f in 0..2 { let (_, n) = sched::run(f, 0, 0, &*jobs[0], &*jobs[1]); for t in 0..2 { pts[t] = pts[t].max(n[t]); } } }
    let n = move |b: u32| if b == 1 { pts[0] + pts[1] } else { 2 * pts[0] * pts[1] };
    let dec = move |i: u64| -> (u32, u64, u64) {
        if bound == 1 { if i < pts[0] { (0, i + 1, 0) } else { (1, i - pts[0] + 1, 0) } }
        else { let m = pts[0] * pts[1]; let (f, r) = ((i / m) as usize, i % m); let a = pts[f]; (f as u32, r % a + 1, r / a + 1) }
    };
    Space { name: format!("{}{}-{}{}", if fine { "fine" } else { "coarse" }, bound, k0, k1), n: n(bound), what: format!("'{}' against '{}': every schedule of {} preemption(s) at {}/{} scheduling points ({})", KINDS[k0], KINDS[k1], bound, pts[0], pts[1], if fine { "function entries and allocator calls" } else { "allocator calls" }), cpu_limit_s: 20,
        run: Box::new(move |i, ctx| {
            let (f, a, b) = dec(i);
            sched::FINE.store(fine, SeqCst);
            let (r, n) = sched::run(f, a, b, &*jobs[0], &*jobs[1]);
            ctx.state(1); ctx.step(n[0] + n[1]); ctx.trace(1);
            if n[f as usize] >= a { ctx.nontrivial(); }
            for t in 0..2 { if r[t] != want[t] { ctx.fail("a thread's result depends on another thread", format!("'{}' next to '{}': {:?} instead of {:?}", KINDS[if t == 0 { k0 } else { k1 }], KINDS[if t == 0 { k1 } else { k0 }], r[t], want[t])); return; } }
            ctx.outcome(n[0] << 32 | n[1]);
        }),
        desc: Box::new(move |i| { let (f, a, b) = dec(i); format!("thread {} first, interrupted at its point {}, the other one at {}", f, a, if b == 0 { "its end".into() } else { b.to_string() }) }) }
}
