//! Decomposition and reconstruction (C01..C04) on the real library API.
use crate::engine::*;
use crate::geom::*;
use image::{ImageBuffer, Rgb};
use image_palette_recoloring::{DecomposedImage, ImageWeights};

pub type Img = ImageBuffer<Rgb<u8>, Vec<u8>>;
pub type Col = [u8; 3];

pub fn img(w: u32, h: u32, px: &[Col]) -> Img { ImageBuffer::from_vec(w, h, px.iter().flat_map(|c| c.iter().copied()).collect()).unwrap() }
pub fn pal(p: &[Col]) -> Vec<Rgb<u8>> { p.iter().map(|c| Rgb(*c)).collect() }
pub fn p3(c: &Col) -> P { pt(&[c[0] as i64, c[1] as i64, c[2] as i64]) }
/// The pixels as exact 5D points (colour and grid position): affinely equivalent to what the library uses.
pub fn p5(w: u32, px: &[Col]) -> Vec<P> { px.iter().enumerate().map(|(i, c)| pt(&[c[0] as i64, c[1] as i64, c[2] as i64, (i as u32 % w) as i64, (i as u32 / w) as i64])).collect() }
pub fn hexs(p: &[Col]) -> String { p.iter().map(|c| format!("{:02x}{:02x}{:02x}", c[0], c[1], c[2])).collect::<Vec<_>>().join(" ") }

/// Exact model of a palette's hull.
pub struct Hull3 { pub pts: Vec<P>, pub planes: Vec<Plane>, pub ext: u64, pub tris: Vec<[[f64; 3]; 3]> }
impl Hull3 {
    /// None if the colours do not span three dimensions.
    pub fn new(c: &[Col]) -> Option<Hull3> {
        let pts: Vec<P> = c.iter().map(p3).collect();
        if affine_dim(&pts, 3) < 3 { return None; }
        let planes = hull_planes(&pts, 3);
        let ext = extreme_mask(&pts, &planes, 3);
        let mut tris = vec![];
        for pl in &planes {
            let on: Vec<usize> = (0..pts.len()).filter(|i| pl.on >> i & 1 == 1 && ext >> i & 1 == 1).collect();
            combos(on.len(), 3, |c| {
                let f = |k: usize| { let p = &pts[on[c[k]]]; [p[0] as f64, p[1] as f64, p[2] as f64] };
                tris.push([f(0), f(1), f(2)]);
            });
        }
        Some(Hull3 { pts, planes, ext, tris })
    }
    pub fn contains(&self, c: &P) -> bool { self.planes.iter().all(|p| p.eval(c, 3) <= 0) }
    /// Whether the corners lie on one face (at most three of them are ever asked for).
    pub fn share_face(&self, of: &[usize]) -> bool { of.is_empty() || self.planes.iter().any(|p| of.iter().all(|i| p.on >> i & 1 == 1)) }
    /// Closest point of the (solid) hull.
    pub fn closest(&self, c: [f64; 3]) -> ([f64; 3], f64) {
        if self.planes.iter().all(|p| p.off as f64 + (0..3).map(|j| p.n[j] as f64 * c[j]).sum::<f64>() <= 0.0) { return (c, 0.0); }
        let mut best = ([0.0; 3], f64::INFINITY);
        for t in &self.tris { let q = tri_closest(c, t); let d = dist2(c, q); if d < best.1 { best = (q, d); } }
        (best.0, best.1.sqrt())
    }
}
pub fn dist2(a: [f64; 3], b: [f64; 3]) -> f64 { (0..3).map(|j| (a[j] - b[j]).powi(2)).sum() }
fn sub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn seg_closest(p: [f64; 3], a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    let d = sub(b, a);
    let t = (dot(sub(p, a), d) / dot(d, d)).clamp(0.0, 1.0);
    [a[0] + t * d[0], a[1] + t * d[1], a[2] + t * d[2]]
}
/// Brute force: the plane projection if it falls inside, else the best of the three edges.
pub fn tri_closest(p: [f64; 3], t: &[[f64; 3]; 3]) -> [f64; 3] {
    let n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
    let l2 = dot(n, n);
    if l2 > 0.0 {
        let k = dot(sub(p, t[0]), n) / l2;
        let q = [p[0] - k * n[0], p[1] - k * n[1], p[2] - k * n[2]];
        if (0..3).all(|i| dot(cross(sub(t[(i + 1) % 3], t[i]), sub(q, t[i])), n) >= 0.0) { return q; }
    }
    let mut best = (t[0], f64::INFINITY);
    for i in 0..3 { let q = seg_closest(p, t[i], t[(i + 1) % 3]); let d = dist2(p, q); if d < best.1 { best = (q, d); } }
    best.0
}

/// Colours lying exactly on one sphere around the middle of the cube: every subset of them is in convex position.
pub fn sphere_colors(n: usize) -> Vec<Col> { sphere_colors_from(n, 7) }
pub fn sphere_colors_from(n: usize, first: usize) -> Vec<Col> {
    let mut v: Vec<Col> = vec![];
    for r in (1..=255i64).step_by(2) { for g in (1..=255i64).step_by(2) { for b in (1..=255i64).step_by(2) {
        if r * r + g * g + b * b == 59219 { for s in 0..8 { v.push([r, g, b].iter().enumerate().map(|(j, x)| ((255 + if s >> j & 1 == 1 { -x } else { *x }) / 2) as u8).collect::<Vec<_>>().try_into().unwrap()); } }
    } } }
    // spread: a fixed stride through the list
    let m = v.len(); assert_eq!(m, 3672);
    (0..n).map(|k| v[(k * 1291 + first) % m]).collect()
}
/// A colour half-way between two of the colours.
pub fn midpoint(p: &[Col]) -> Option<Col> {
    for a in 0..p.len() { for b in a + 1..p.len() { if (0..3).all(|j| (p[a][j] as i32 + p[b][j] as i32) % 2 == 0) { return Some([0, 1, 2].map(|j| ((p[a][j] as i32 + p[b][j] as i32) / 2) as u8)); } } }
    None
}

pub struct ImgSpace { pub name: String, pub w: u32, pub h: u32, pub n: u64, pub gen: Box<dyn Fn(u64) -> Vec<Col>>, pub palettes: Vec<Vec<Col>>, pub what: String }

#[derive(Clone, Copy, PartialEq)]
pub enum Prop { Identity, Closest, Channels, Star }

/// Palettes that the recolouring step is tried with, on top of the decomposition palette.
fn image_case(sp: &ImgSpace, i: u64, ctx: &mut Ctx, prop: Prop) {
    let px = (sp.gen)(i);
    let pts5 = p5(sp.w, &px);
    if affine_dim(&pts5, 5) < 5 { ctx.skip(); return; }
    let exact5 = px.len() <= 64;
    let known = sp.name.starts_with("sphere"); // too many colours for the exact oracle, but enclosed by construction
    let im = img(sp.w, sp.h, &px);
    let w = ImageWeights::new(&im);
    ctx.trace(1); ctx.step(1);
    if w.width() != sp.w || w.height() != sp.h { ctx.fail("weights report wrong dimensions", format!("{}x{}", w.width(), w.height())); return; }
    let ext5 = if matches!(prop, Prop::Closest | Prop::Star) && exact5 { let pl = hull_planes(&pts5, 5); extreme_mask(&pts5, &pl, 5) } else { 0 };
    for (pi, p) in sp.palettes.iter().enumerate() {
        if known && pi as u64 != i { continue; }
        if !palette_case((sp.w, sp.h), &px, &w, (pi, p), known, ext5, exact5, ctx, prop) { return; }
    }
}
/// One image under one palette; whether to go on.
fn palette_case((iw, ih): (u32, u32), px: &[Col], w: &ImageWeights, (pi, p): (usize, &[Col]), known: bool, ext5: u64, exact5: bool, ctx: &mut Ctx, prop: Prop) -> bool {
    {
        let h = if known { None } else { Some(Hull3::new(p).expect("palettes of the space are valid")) };
        let encl = h.as_ref().map_or(true, |h| px.iter().all(|c| h.contains(&p3(c))));
        if prop == Prop::Identity && !encl { return true; }
        if prop == Prop::Closest && encl { return true; }
        ctx.state(1); ctx.step(2);
        let tag = |s: &str| format!("palette #{} [{}]: {}", pi, hexs(p), s);
        let d = match guarded(|| DecomposedImage::new(w, &pal(p))) {
            Err(m) => { ctx.fail(format!("decomposition panics: {}", first_line(&m)), tag(&m)); return false; }
            Ok(Err(e)) => { ctx.fail("a valid palette was refused", tag(&e)); return false; }
            Ok(Ok(d)) => d };
        if d.num_channels() != p.len() || d.width() != iw || d.height() != ih { ctx.fail("decomposition has wrong dimensions or channel count", tag("")); return false; }
        match prop {
            Prop::Identity | Prop::Closest => {
                let Some(out) = d.reconstruct(&pal(p)) else { ctx.fail("reconstruct refused the decomposition palette", tag("")); return false; };
                if out.width() != iw || out.height() != ih { ctx.fail("reconstruction has wrong dimensions", tag("")); return false; }
                ctx.outcome(hash_bytes(out.as_raw()));
                if prop == Prop::Identity {
                    ctx.nontrivial();
                    for (k, c) in px.iter().enumerate() {
                        let o = out.get_pixel(k as u32 % iw, k as u32 / iw).0;
                        if (0..3).any(|j| (o[j] as i32 - c[j] as i32).abs() > 1) { ctx.fail("recolouring with the decomposition palette changed a pixel it can represent", tag(&format!("pixel {}: {:?} became {:?}", k, c, o))); return false; }
                    }
                } else {
                    let h = h.unwrap();
                    for (k, c) in px.iter().enumerate() {
                        let o = out.get_pixel(k as u32 % iw, k as u32 / iw).0;
                        let of = [o[0] as f64 + 0.5, o[1] as f64 + 0.5, o[2] as f64 + 0.5];
                        // every output colour is a mixture of palette colours
                        if h.closest(of).1 > 0.88 + 1e-6 { ctx.fail("output colour is not a mixture of the palette", tag(&format!("pixel {} -> {:?}", k, o))); return false; }
                        if exact5 && ext5 >> k & 1 == 1 {
                            let (q, dist) = h.closest([c[0] as f64, c[1] as f64, c[2] as f64]);
                            if dist > 0.0 { ctx.nontrivial(); }
                            if (0..3).any(|j| (o[j] as f64 - q[j]) > 0.01 || (o[j] as f64 - q[j]) < -1.01) { ctx.fail("pixel outside the palette's range did not become the closest representable colour", tag(&format!("pixel {}: {:?} became {:?}, closest is {:?}", k, c, o, q))); return false; }
                        }
                    }
                }
            }
            Prop::Channels => {
                ctx.nontrivial();
                let n = p.len();
                let np = px.len();
                let mut g: Vec<Vec<u8>> = vec![];
                for c in 0..n {
                    let Some(x) = d.get_channel_grayscale(c) else { ctx.fail("an existing channel was refused", tag("")); return false; };
                    if x.width() != iw || x.height() != ih { ctx.fail("channel has wrong dimensions", tag("")); return false; }
                    g.push(x.as_raw().clone());
                }
                if d.get_channel_grayscale(n).is_some() || d.get_channel_grayscale(usize::MAX).is_some() { ctx.fail("a channel past the end was returned", tag("")); return false; }
                let rec = |q: &[Col]| d.reconstruct(&pal(q));
                if rec(&p[..n - 1]).is_some() || rec(&[]).is_some() || { let mut q = p.to_vec(); q.push([9, 9, 9]); rec(&q).is_some() } { ctx.fail("a palette of the wrong size was accepted", tag("")); return false; }
                ctx.step(n as u64 * 3 + 3);
                // channel k is palette colour k's: the palette itself gives back what it can represent
                if encl {
                    let o = rec(p).unwrap();
                    for (k, c) in px.iter().enumerate() { let o = o.get_pixel(k as u32 % iw, k as u32 / iw).0; if (0..3).any(|j| (o[j] as i32 - c[j] as i32).abs() > 1) { ctx.fail("channels are not those of their palette colours", tag(&format!("pixel {}: {:?} became {:?}", k, c, o))); return false; } }
                }
                // weights sum to one
                for v in [[255u8, 255, 255], [0, 100, 200]] {
                    let o = rec(&vec![v; n]).unwrap();
                    if o.pixels().any(|o| (0..3).any(|j| o[j] > v[j] || (o[j] as i32) + 1 < v[j] as i32)) { ctx.fail("channel weights do not sum to one", tag(&format!("uniform palette {:?} gave {:?}", v, o.as_raw()))); return false; }
                }
                for k in 0..np { let s: i32 = (0..n).map(|c| g[c][k] as i32).sum(); if s > 256 || s < 255 - n as i32 { ctx.fail("channel weights do not sum to one", tag(&format!("pixel {}: grayscale sum {}", k, s))); return false; } }
                for c in 0..n {
                    let mut q = vec![[128u8, 0, 255]; n]; q[c] = [255, 255, 0];
                    let o = rec(&q).unwrap();
                    for k in 0..np {
                        let o = o.get_pixel(k as u32 % iw, k as u32 / iw).0;
                        let w = g[c][k] as f64; // 255*weight in [w, w+1)
                        let lo = (w / 255.0, (w + 1.0) / 255.0);
                        let ok = |v: u8, a: f64, b: f64| { let (a, b) = (a.min(b), a.max(b)); v as f64 >= a - 1.01 && v as f64 <= b + 0.01 };
                        if o[0] < 127 { ctx.fail("a channel weight is negative", tag(&format!("channel {} pixel {}: {:?}", c, k, o))); return false; }
                        if !ok(o[0], 128.0 + 127.0 * lo.0, 128.0 + 127.0 * lo.1) || !ok(o[1], 255.0 * lo.0, 255.0 * lo.1) || !ok(o[2], 255.0 - 255.0 * lo.0, 255.0 - 255.0 * lo.1) {
                            ctx.fail("reconstruction is not the mixture the channels describe", tag(&format!("channel {} pixel {}: weight {}/255 out {:?}", c, k, w, o))); return false; }
                    }
                }
                ctx.outcome(hash_bytes(&g.concat()));
            }
            Prop::Star => {
                let Some(h) = h else { return true };
                let n = p.len();
                let norm = |c: &Col| c.iter().map(|v| *v as i64 * *v as i64).sum::<i64>();
                let least = p.iter().map(norm).min().unwrap();
                let mut g: Vec<Vec<u8>> = vec![];
                for c in 0..n { let Some(x) = d.get_channel_grayscale(c) else { ctx.fail("an existing channel was refused", tag("")); return false; }; g.push(x.as_raw().clone()); }
                for k in 0..px.len().min(64) { if ext5 >> k & 1 == 1 {
                    let used: Vec<usize> = (0..n).filter(|c| g[*c][k] > 0).collect();
                    ctx.step(1);
                    if used.len() > 2 { ctx.nontrivial(); }
                    // some darkest colour, and colours of one face of the palette's hull
                    let ok = (0..n).any(|s| norm(&p[s]) == least && { let rest: Vec<usize> = used.iter().copied().filter(|c| *c != s).collect(); rest.len() <= 3 && h.share_face(&rest) });
                    if !ok { ctx.fail("a pixel is not mixed from the darkest colour and those of one face", tag(&format!("pixel {} {:?}: channels {:?}", k, px[k], used.iter().map(|c| (*c, g[*c][k])).collect::<Vec<_>>()))); return false; }
                } }
                ctx.outcome(hash_bytes(&g.concat()));
            }
        }
    }    true
}

/// A few images under many palettes, each of its own.
pub fn sweep<'a>(name: &str, what: &str, images: Vec<(u32, u32, Vec<Col>)>, palettes: Vec<Vec<Col>>, prop: Prop) -> Space<'a> {
    let np = palettes.len() as u64;
    let made: Vec<_> = images.iter().map(|(w, h, px)| {
        let ext5 = if matches!(prop, Prop::Closest | Prop::Star) { let pts = p5(*w, px); let pl = hull_planes(&pts, 5); extreme_mask(&pts, &pl, 5) } else { 0 };
        (guarded(|| ImageWeights::new(&img(*w, *h, px))), ext5)
    }).collect();
    forget_panic();
    let palettes = std::rc::Rc::new(palettes); let p2 = palettes.clone();
    let n = images.len() as u64 * np;
    Space { name: name.into(), n, what: format!("{} images {} under every one of {} palettes", images.len(), what, np), cpu_limit_s: 20,
        run: Box::new(move |i, ctx| {
            let ((w, h, px), (weights, ext5)) = (&images[(i / np) as usize], &made[(i / np) as usize]);
            ctx.trace(1);
            match weights { Err(m) => ctx.fail("weights of a usable image panic", m.clone()), Ok(wt) => { palette_case((*w, *h), px, wt, ((i % np) as usize, &palettes[(i % np) as usize]), false, *ext5, true, ctx, prop); } }
        }),
        desc: Box::new(move |i| format!("image {} palette {}", i / np, hexs(&p2[(i % np) as usize]))) }
}

pub fn space<'a>(sp: ImgSpace, prop: Prop) -> Space<'a> {
    let sp = std::rc::Rc::new(sp);
    let s2 = sp.clone();
    Space { name: sp.name.clone(), n: sp.n, what: format!("{}; {} palettes each", sp.what, sp.palettes.len()), cpu_limit_s: 20,
        run: Box::new(move |i, c| image_case(&sp, i, c, prop)),
        desc: Box::new(move |i| format!("{}x{} image {}", s2.w, s2.h, hexs(&(s2.gen)(i)))) }
}

pub fn corners(v: u8) -> Vec<Col> { (0..8).map(|i| [if i & 1 > 0 { v } else { 0 }, if i & 2 > 0 { v } else { 0 }, if i & 4 > 0 { v } else { 0 }]).collect() }
/// All palettes (in ascending index order) of 4..=kmax colours of `cols`, valid as decomposition palettes.
pub fn valid_palettes(cols: &[Col], kmin: usize, kmax: usize) -> Vec<Vec<Col>> {
    let mut out = vec![];
    for k in kmin..=kmax { combos(cols.len(), k, |c| {
        let p: Vec<Col> = c.iter().map(|&i| cols[i]).collect();
        if let Some(h) = Hull3::new(&p) { if h.ext.count_ones() as usize == p.len() { out.push(p); } }
    }); }
    out
}
/// One valid palette of kmin..=kmax corner colours of every class under the symmetries of the colour cube.
pub fn palette_classes(kmin: usize, kmax: usize) -> Vec<Vec<Col>> {
    crate::hull::orbits(2, 3, kmin, kmax).iter().map(|m| (0..8).filter(|k| m >> k & 1 == 1).map(|k| corners(255)[k]).collect::<Vec<Col>>()).filter(|p| Hull3::new(p).is_some_and(|h| h.ext.count_ones() as usize == p.len())).collect()
}
/// Images whose pixels are all words over an alphabet.
pub fn words(name: &str, w: u32, h: u32, alpha: Vec<Col>, palettes: Vec<Vec<Col>>) -> ImgSpace {
    let n = (alpha.len() as u64).pow(w * h);
    let a = alpha.clone();
    ImgSpace { name: name.into(), w, h, n, what: format!("every {}x{} image over {} colours", w, h, a.len()), palettes,
        gen: Box::new(move |mut i| (0..w * h).map(|_| { let c = alpha[(i % alpha.len() as u64) as usize]; i /= alpha.len() as u64; c }).collect()) }
}

/// Wide two-line images: the eight corner colours at both ends (rotated), grey between, and one pixel colour swept
/// over a dense set of levels at each of five places. Neighbouring pixels are nearly equal in all five dimensions.
pub fn banner(name: &str, ws: Vec<u32>, levels: Vec<u8>, palettes: Vec<Vec<Col>>) -> Vec<ImgSpace> {
    ws.into_iter().map(|w| {
        let cols = grid_colors_of(&levels);
        let n = cols.len() as u64 * 4;
        let what = format!("{}x2 images with the corner colours at both ends in 4 rotations and a pixel swept over {} colours next to them and in the middle", w, cols.len());
        ImgSpace { name: format!("{}{}", name, w), w, h: 2, n, what, palettes: palettes.clone(),
            gen: Box::new(move |i| {
                let (c, rot) = (cols[(i / 4) as usize], (i % 4) as u32);
                let mut px = vec![[128u8; 3]; 2 * w as usize];
                let k8 = corners(255);
                for k in 0..8u32 {
                    let x = (k + 4 - rot) % 4;
                    px[(k / 4 * w + x) as usize] = k8[k as usize];
                    px[(k / 4 * w + w - 1 - x) as usize] = k8[k as usize];
                }
                for x in [4, w / 2, w - 5] { px[x as usize] = c; }
                for x in [4, w - 5] { px[(w + x) as usize] = c; }
                px
            }) }
    }).collect()
}
fn grid_colors_of(l: &[u8]) -> Vec<Col> { l.iter().flat_map(|&r| l.iter().flat_map(move |&g| l.iter().map(move |&b| [r, g, b]))).collect() }
/// Images that hold every colour of a k^3 grid once, laid out by every odd stride of the list.
pub fn dense(name: &str, w: u32, levels: Vec<u8>, strides: Vec<u64>, palettes: Vec<Vec<Col>>) -> ImgSpace {
    let cols = grid_colors_of(&levels);
    let m = cols.len() as u64;
    assert!(m % w as u64 == 0);
    ImgSpace { name: name.into(), w, h: (m / w as u64) as u32, n: strides.len() as u64, palettes,
        what: format!("images holding each of {} colours once, in {} layouts", m, strides.len()),
        gen: Box::new(move |i| { let s = strides[i as usize]; (0..m).map(|k| cols[(k * s % m) as usize]).collect() }) }
}

/// Palettes of many colours: image i is made of palette i's colours and of colours half-way between two of them.
pub fn sphere(name: &str, sizes: Vec<usize>) -> ImgSpace {
    let palettes: Vec<Vec<Col>> = sizes.iter().map(|n| sphere_colors(*n)).collect();
    let p2 = palettes.clone();
    ImgSpace { name: format!("sphere{}", name), w: 13, h: 3, n: sizes.len() as u64, palettes, what: format!("13x3 images under palettes of {:?} colours", sizes),
        gen: Box::new(move |i| { let p = &p2[i as usize]; let n = p.len(); (0..39).map(|k| { let (a, b) = (p[k * 7 % n], p[(k * 31 + n / 2) % n]); if k % 3 == 0 { a } else { midpoint(&[a, b]).unwrap_or(a) } }).collect() }) }
}

/// Images of many pixels in unusual shapes: a few patterns each of corner colours, greys and a ramp.
pub fn shapes(name: &str, w: u32, h: u32, palettes: Vec<Vec<Col>>) -> ImgSpace {
    ImgSpace { name: format!("{}{}x{}", name, w, h), w, h, n: 6, palettes, what: format!("six {}x{} images of corner colours, greys and a ramp", w, h),
        gen: Box::new(move |i| { let k8 = corners(255); (0..w as u64 * h as u64).map(|k| match (k * (2 * i + 1) + k / w as u64 * (i + 1)) % 11 { x if x < 8 => k8[x as usize], 8 => [(k % 256) as u8; 3], 9 => [(k / 3 % 256) as u8, (k / 7 % 256) as u8, 9], _ => [200, 100, 50] }).collect() }) }
}

/// Palettes of many colours that leave every corner colour outside: their facets, edges and corners all get pixels.
pub fn balls(sizes: Vec<usize>) -> ImgSpace {
    let palettes: Vec<Vec<Col>> = sizes.iter().map(|n| sphere_colors(*n)).filter(|p| Hull3::new(p).is_some_and(|h| h.ext.count_ones() as usize == p.len())).collect();
    ImgSpace { name: "balls".into(), w: 7, h: 2, n: 60, what: format!("60 7x2 images of colours on the surface of the colour cube under palettes of {:?} colours on a sphere in it", sizes), palettes,
        gen: Box::new(|i| { (0..14u64).map(|k| {
            if k < 8 && i % 3 == 0 { return corners(255)[k as usize]; }
            let x = (k * 37 + i * 101) as u32; let v = |m: u32| (x.wrapping_mul(m) >> 3) as u8;
            let mut c = [v(2654435761), v(40503 * 7), v(97561 + 2 * i as u32)]; c[(k % 3) as usize] = if (k + i) % 2 == 0 { 255 } else { 0 }; c }).collect() }) }
}
