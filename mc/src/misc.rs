//! C04 palette acceptance, C08 purity of call histories, C09 totality.
use crate::engine::*;
use crate::geom::*;
use crate::recolor::*;
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};

// ---------------------------------------------------------------- C04

fn distinct(p: &[Col]) -> bool { let mut s = p.to_vec(); s.sort(); s.windows(2).all(|w| w[0] != w[1]) }
fn valid(p: &[Col]) -> bool {
    let mut s = p.to_vec(); s.sort();
    p.len() >= 4 && s.windows(2).all(|w| w[0] != w[1]) && Hull3::new(p).is_some_and(|h| h.ext.count_ones() as usize == p.len())
}

pub struct PalList { pub name: String, pub what: String, pub n: u64, pub gen: Box<dyn Fn(u64) -> Vec<Col>> }

pub fn sequences(name: &str, alpha: Vec<Col>, kmax: usize) -> PalList {
    let a = alpha.len() as u64;
    PalList { name: name.into(), what: format!("every sequence (order and repetition included) of 0..{} colours out of {}", kmax, a), n: (0..=kmax as u32).map(|k| a.pow(k)).sum(),
        gen: Box::new(move |mut i| { let mut k = 0; while i >= a.pow(k) { i -= a.pow(k); k += 1; } (0..k).map(|_| { let c = alpha[(i % a) as usize]; i /= a; c }).collect() }) }
}
pub fn palsets(name: &str, cols: Vec<Col>, ks: std::ops::RangeInclusive<usize>) -> PalList {
    let n = cols.len();
    let cnt: Vec<(usize, u64)> = ks.map(|k| (k, binom(n as u64, k as u64))).collect();
    PalList { name: name.into(), what: format!("every set of {:?} colours out of {}", cnt.iter().map(|c| c.0).collect::<Vec<_>>(), n), n: cnt.iter().map(|c| c.1).sum(),
        gen: Box::new(move |mut i| { for (k, c) in &cnt { if i < *c { let mut v: Vec<Col> = unrank(n, *k, i).into_iter().map(|j| cols[j]).collect(); if i % 2 == 1 { v.reverse(); } return v; } i -= c; } unreachable!() }) }
}

/// Palettes of up to `max` colours: all valid, with a redundant colour, and with a repeated one. Valid or not by construction.
pub fn spheres(sizes: Vec<usize>) -> (PalList, Box<dyn Fn(u64) -> bool>) {
    let what = format!("palettes of {} to {} colours on a sphere; with one more colour, inside or repeated, at the start, in the middle or at the end", sizes[0], sizes.last().unwrap());
    let n = sizes.len() as u64 * 7;
    (PalList { name: "spheres".into(), what, n, gen: Box::new(move |i| {
        let k = sizes[(i / 7) as usize];
        let mut p = sphere_colors(k);
        let v = (i % 7) as usize;
        if v > 0 { let x = if v % 2 == 1 { midpoint(&p).unwrap_or(p[k / 3]) } else { p[k / 2] }; p.insert([0, k / 2 + 1, k][(v - 1) / 2], x); }
        p }) }, Box::new(|i| i % 7 == 0))
}

pub fn demo_image(k: u64) -> (u32, u32, Vec<Col>) {
    match k % 3 {
        // the same size, and as many hull vertices, as image 0
        2 => (3, 2, vec![[255, 255, 255], [0, 0, 255], [255, 0, 0], [0, 255, 0], [90, 30, 60], [0, 0, 0]]),
        0 => (3, 2, vec![[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [90, 60, 30], [255, 255, 255]]),
        _ => (2, 4, vec![[10, 200, 30], [200, 10, 30], [1, 2, 3], [0, 0, 255], [90, 60, 30], [255, 255, 255], [77, 200, 11], [3, 3, 200]]),
    }
}

pub fn accept<'a>(l: PalList) -> Space<'a> { accept_known(l, None) }
pub fn accept_known<'a>(l: PalList, known: Option<Box<dyn Fn(u64) -> bool>>) -> Space<'a> {
    let l = std::rc::Rc::new(l); let l2 = l.clone();
    let w: Vec<ImageWeights> = (0..2).map(|k| { let (w, h, p) = demo_image(k); ImageWeights::new(&img(w, h, &p)) }).collect();
    Space { name: l.name.clone(), n: l.n, what: l.what.clone(), cpu_limit_s: 20,
        run: Box::new(move |i, ctx| {
            let p = (l.gen)(i);
            let ok = match &known { Some(f) => f(i), None => valid(&p) };
            ctx.state(1); ctx.step(2); ctx.trace(1);
            if ok { ctx.nontrivial(); }
            for w in &w {
                match guarded(|| DecomposedImage::new(w, &pal(&p))) {
                    Err(m) => { ctx.fail(format!("decomposition panics: {}", first_line(&m)), m); return; }
                    Ok(Err(e)) => { if ok { ctx.fail("a valid palette was refused", e.clone()); return; } if e.is_empty() { ctx.fail("refused without a reason", ""); return; } ctx.outcome(hash_bytes(e.as_bytes())); }
                    Ok(Ok(d)) => {
                        if !ok { ctx.fail("an unusable palette was accepted", format!("{} channels", d.num_channels())); return; }
                        ctx.outcome(d.num_channels() as u64);
                        if d.num_channels() != p.len() { ctx.fail("one channel per palette colour was promised", format!("{} for {}", d.num_channels(), p.len())); return; }
                        if d.width() != w.width() || d.height() != w.height() { ctx.fail("dimensions changed", ""); return; }
                        let mut q = pal(&p);
                        if d.reconstruct(&q).is_none() || d.get_channel_grayscale(p.len() - 1).is_none() { ctx.fail("a palette or channel of the right size was refused", ""); return; }
                        let k = p.len();
                        for m in (0..2 * k + 4).chain([255, 256, 257, 256 + k, 65536 + k]) {
                            if m == k { continue; }
                            q.resize(m, image::Rgb([m as u8, 7, (m >> 8) as u8]));
                            if d.reconstruct(&q).is_some() { ctx.fail("a palette of the wrong size was accepted", format!("{} for {}", m, k)); return; }
                        }
                        for c in (k..2 * k + 4).chain([255, 256, 256 + k - 1, 65536, 1 << 31, 1 << 32, (1 << 32) + k - 1, usize::MAX / 2, usize::MAX]) {
                            if c >= k && d.get_channel_grayscale(c).is_some() { ctx.fail("a channel that does not exist was given", format!("{} of {}", c, k)); return; }
                        }
                    }
                }
            }
        }),
        desc: Box::new(move |i| format!("palette {}", hexs(&(l2.gen)(i)))) }
}

// ---------------------------------------------------------------- C08

/// The abstract state: which weights and which decomposition exist, and from what.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Weights(usize), Decompose(usize), Refused, Recolor(usize), Gray, Palette(usize), Drop, Fail }
const OPS: [Op; 14] = [Op::Weights(0), Op::Weights(1), Op::Weights(2), Op::Decompose(0), Op::Decompose(1), Op::Refused, Op::Recolor(0), Op::Recolor(1), Op::Gray, Op::Palette(0), Op::Palette(1), Op::Palette(2), Op::Drop, Op::Fail];

fn dec_pal(k: usize) -> Vec<Col> { if k == 0 { corners(255) } else { vec![[10, 10, 10], [30, 210, 40], [200, 20, 30], [20, 30, 220], [250, 250, 250]] } }
fn rec_pal(n: usize, k: usize) -> Vec<Col> { (0..n).map(|i| [(i * 37 + k * 91) as u8, (i * 101 + 13 * k) as u8, (200 + i * 11 + k) as u8]).collect() }
fn op_image(k: usize) -> Img { let (w, h, p) = demo_image(k as u64); img(w, h, &p) }

struct Obj { w: Option<(usize, ImageWeights)>, d: Option<(usize, usize, DecomposedImage)> }
/// None: not enabled in this state.
fn apply(op: Op, o: &mut Obj) -> Option<(String, Vec<u8>)> {
    Some(match op {
        Op::Weights(k) => { let w = ImageWeights::new(&op_image(k)); let r = vec![w.width() as u8, w.height() as u8]; o.w = Some((k, w)); (format!("w{}", k), r) }
        Op::Decompose(p) => { let (k, w) = o.w.as_ref()?; let d = DecomposedImage::new(w, &pal(&dec_pal(p))); let r = vec![d.is_ok() as u8]; let key = format!("d{}{}", k, p); if let Ok(d) = d { o.d = Some((*k, p, d)); } (key, r) }
        Op::Refused => { let (k, w) = o.w.as_ref()?; let mut p = dec_pal(1); p.push([60, 60, 60]); (format!("x{}", k), DecomposedImage::new(w, &pal(&p)).err().unwrap_or_default().into_bytes()) }
        Op::Recolor(q) => { let (k, p, d) = o.d.as_ref()?; let r = d.reconstruct(&pal(&rec_pal(dec_pal(*p).len(), q)))?.into_raw(); (format!("r{}{}{}", k, p, q), r) }
        Op::Gray => { let (k, p, d) = o.d.as_ref()?; let mut r = vec![]; for c in 0..d.num_channels() { r.extend(d.get_channel_grayscale(c)?.into_raw()); } (format!("g{}{}", k, p), r) }
        Op::Palette(k) => (format!("p{}", k), compute_palette(&op_image(k), 4, 6, 0.02).iter().flat_map(|c| c.0).collect()),
        // images of a single colour: both may panic, which must leave nothing behind
        Op::Fail => {
            let flat = img(3, 2, &[[9, 9, 9]; 6]);
            let a = guarded(|| compute_palette(&flat, 4, 6, 0.02).iter().flat_map(|c| c.0).collect()).unwrap_or(b"panicked".to_vec());
            let b = guarded(|| { let w = ImageWeights::new(&flat); vec![w.width() as u8, w.height() as u8] }).unwrap_or(b"panicked".to_vec());
            let r = [a, b].concat();
            ("fail".into(), r)
        }
        Op::Drop => { if o.w.is_none() && o.d.is_none() { return None; } o.w = None; o.d = None; ("-".into(), vec![]) }
    })
}

/// What a (child) process that does nothing else gets.
fn in_child(f: impl FnOnce() -> Option<Vec<u8>>) -> Option<Vec<u8>> {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        if pid == 0 {
            if let Ok(Some(b)) = guarded(f) { let mut at = 0; while at < b.len() { let n = libc::write(fds[1], b[at..].as_ptr().cast(), b.len() - at); if n <= 0 { break; } at += n as usize; } }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let (mut all, mut buf) = (vec![], [0u8; 4096]);
        loop { let n = libc::read(fds[0], buf.as_mut_ptr().cast(), buf.len()); if n <= 0 { break; } all.extend(&buf[..n as usize]); }
        libc::close(fds[0]);
        libc::waitpid(pid, &mut fds[0], 0);
        if all.is_empty() { None } else { Some(all) }
    }
}
/// The last operation's result when these operations are all a process ever does.
fn isolated(ops: &[Op]) -> Option<(String, Vec<u8>)> {
    let all = in_child(|| { let mut o = Obj { w: None, d: None }; let mut last = None; for op in ops { last = apply(*op, &mut o); } last.map(|(k, v)| [&[k.len() as u8][..], k.as_bytes(), &v].concat()) })?;
    let n = all[0] as usize;
    Some((String::from_utf8_lossy(&all[1..1 + n]).into_owned(), all[1 + n..].to_vec()))
}

/// Every operation's result in a process that has done nothing else but what it needs.
fn references() -> std::collections::HashMap<String, Vec<u8>> {
    let mut reference: std::collections::HashMap<String, Vec<u8>> = Default::default();
    for k in 0..3 {
        let mut add = |ops: &[Op]| if let Some((key, v)) = isolated(ops) { reference.insert(key, v); };
        add(&[Op::Palette(k)]); add(&[Op::Weights(k)]); add(&[Op::Weights(k), Op::Refused]);
        for p in 0..2 { let b = [Op::Weights(k), Op::Decompose(p)]; add(&b); for l in [Op::Recolor(0), Op::Recolor(1), Op::Gray] { add(&[b[0], b[1], l]); } }
    }
    if let Some((key, v)) = isolated(&[Op::Fail]) { reference.insert(key, v); }
    reference.insert("-".into(), vec![]);
    reference
}
pub fn histories<'a>(depth: u32) -> Space<'a> {
    let reference = references();
    let n = (OPS.len() as u64).pow(depth);
    let dec = move |mut i: u64| -> Vec<Op> { (0..depth).map(|_| { let o = OPS[(i % OPS.len() as u64) as usize]; i /= OPS.len() as u64; o }).collect() };
    Space { name: format!("hist{}", depth), n, what: format!("every sequence of {} operations over three images (two of one size), two palettes, refused palettes, failing calls and drops ({} operations)", depth, OPS.len()), cpu_limit_s: 20,
        run: Box::new(move |i, ctx| {
            let ops = dec(i);
            let mut o = Obj { w: None, d: None };
            let mut out = vec![];
            // a sequence with a disabled operation is covered by a shorter one
            for op in &ops {
                let Some((key, r)) = apply(*op, &mut o) else { ctx.skip(); return };
                ctx.step(1);
                match reference.get(&key) {
                    Some(want) if *want == r => {}
                    _ => { ctx.fail("a result depends on what was computed before", format!("{:?} at {} in {:?}", op, key, ops)); return; }
                }
                out.extend(r);
            }
            ctx.state(depth as u64); ctx.trace(1); ctx.nontrivial();
            ctx.outcome(hash_bytes(&out));
        }),
        desc: Box::new(move |i| format!("{:?}", dec(i))) }
}

/// Everything that goes into one use of the library.
#[derive(Clone, PartialEq)]
struct Job { w: u32, h: u32, px: Vec<Col>, dec: Vec<Col>, rec: Vec<Col>, sizes: (usize, usize), bound: f64 }
type Made = (ImageWeights, Option<DecomposedImage>);
impl Job {
    fn run(&self) -> (Vec<u8>, Made) {
        let im = img(self.w, self.h, &self.px);
        let mut out = vec![];
        let p = compute_palette(&im, self.sizes.0, self.sizes.1, self.bound);
        out.push(p.len() as u8); out.extend(p.iter().flat_map(|c| c.0));
        let w = ImageWeights::new(&im);
        out.extend([w.width() as u8, w.height() as u8]);
        let d = match DecomposedImage::new(&w, &pal(&self.dec)) { Ok(d) => Some(d), Err(e) => { out.extend(e.into_bytes()); None } };
        if let Some(d) = &d {
            out.push(d.num_channels() as u8);
            for c in 0..d.num_channels() { out.extend(d.get_channel_grayscale(c).unwrap().into_raw()); }
            for q in [&self.rec, &self.dec] { if let Some(r) = d.reconstruct(&pal(q)) { out.extend(r.into_raw()); } else { out.push(0); } }
        }
        (out, (w, d))
    }
}
/// A use of the library, and every one that differs from it in one detail.
fn jobs() -> Vec<(String, Job)> {
    let (w, h, mut px) = (4u32, 3u32, crate::palette::ico([128, 126, 130], 70, 105));
    px.truncate(12);
    let base = Job { w, h, px, dec: dec_pal(1), rec: rec_pal(5, 0), sizes: (4, 8), bound: 0.02 };
    let mut v = vec![("the same".to_string(), base.clone())];
    let mut add = |name: String, j: Job| if j != base { v.push((name, j)); };
    let n = base.px.len();
    for k in 0..n { for j in 0..3 { for by in [1u8, 255, 100] { let mut b = base.clone(); b.px[k][j] = b.px[k][j].wrapping_add(by); add(format!("pixel {k} component {j} + {by}"), b); } } }
    for k in 0..n { for l in k + 1..n { let mut b = base.clone(); b.px.swap(k, l); add(format!("pixels {k} and {l} swapped"), b); } }
    for which in 0..2 { for k in 0..5 {
        fn of(b: &mut Job, which: usize) -> &mut Vec<Col> { if which == 0 { &mut b.dec } else { &mut b.rec } }
        let name = ["decomposition", "new"][which];
        for j in 0..3 { for by in [1u8, 255, 3] { let mut b = base.clone(); { let p = &mut of(&mut b, which)[k]; p[j] = p[j].wrapping_add(by); } add(format!("{name} palette colour {k} component {j} + {by}"), b); } }
        for l in k + 1..5 { let mut b = base.clone(); of(&mut b, which).swap(k, l); add(format!("{name} palette colours {k} and {l} swapped"), b); }
        for j in 0..3 { let mut b = base.clone(); of(&mut b, which)[k].swap(j, (j + 1) % 3); add(format!("{name} palette colour {k} components from {j} swapped"), b); }
    } }
    for s in [(4, 4), (5, 5), (4, 6), (6, 6), (4, 255), (0, 0), (12, 255)] { let mut b = base.clone(); b.sizes = s; add(format!("palette sizes {s:?}"), b); }
    for e in [0.0, 0.001, 0.0200001, 0.05, 1.0, -1.0] { let mut b = base.clone(); b.bound = e; add(format!("error bound {e}"), b); }
    { let mut b = base.clone(); (b.w, b.h) = (b.h, b.w); add("width and height swapped".into(), b); }
    { let mut b = base.clone(); let q = b.px[..w as usize].to_vec(); b.px.extend(q); b.h += 1; add("a row more".into(), b); }
    { let mut b = base.clone(); b.px.truncate(n - w as usize); b.h -= 1; add("a row less".into(), b); }
    { let mut b = base.clone(); b.px.reverse(); add("upside down".into(), b); }
    v
}
/// One use of the library after another one that differs in one detail only, whose objects are still there.
pub fn twins<'a>() -> Space<'a> {
    let all = std::rc::Rc::new(jobs()); let a2 = all.clone();
    // this process has not used the library itself yet
    let alone: Vec<Option<Vec<u8>>> = all.iter().map(|(_, j)| in_child(|| Some(j.run().0))).collect();
    Space { name: "twins".into(), n: all.len() as u64 * 2, what: format!("a palette, a decomposition and a recolouring before or after one that differs in one of {} details", all.len()), cpu_limit_s: 20,
        run: Box::new(move |i, ctx| {
            let (a, b) = (&all[0].1, &all[(i / 2) as usize].1);
            let Some(ra) = &alone[0] else { ctx.fail("the API fails in a process of its own", ""); return };
            // whether the odd one is of use at all is for others to say
            let Some(rb) = &alone[(i / 2) as usize] else { ctx.skip(); return };
            let order = if i % 2 == 0 { [(a, ra), (b, rb)] } else { [(b, rb), (a, ra)] };
            ctx.state(2); ctx.trace(1); ctx.step(10);
            if ra != rb { ctx.nontrivial(); }
            let mut kept = vec![];
            for (k, (j, want)) in order.iter().enumerate() {
                let (got, made) = j.run();
                kept.push(made);
                ctx.outcome(hash_bytes(&got));
                if got != **want { ctx.fail("a result depends on what was computed before", format!("use {} of two that differ in: {}", k + 1, all[(i / 2) as usize].0)); return; }
            }
        }),
        desc: Box::new(move |i| format!("{} ({})", a2[(i / 2) as usize].0, if i % 2 == 0 { "after" } else { "before" })) }
}

/// Long histories: every two operations (or three, with a fixed first) in turn, hundreds of times.
pub fn marathon<'a>(times: usize) -> Space<'a> {
    let reference = references();
    let k = OPS.len() as u64;
    let dec = move |i: u64| -> Vec<Op> { vec![OPS[(i % k) as usize], OPS[(i / k % k) as usize], OPS[(i / k / k) as usize]] };
    Space { name: format!("turns{}", times), n: k * k * k, what: format!("every three operations in turn, {} times over, after an image and a decomposition were made", times), cpu_limit_s: 60,
        run: Box::new(move |i, ctx| {
            let ops = dec(i);
            let mut o = Obj { w: None, d: None };
            let start = [Op::Weights(0), Op::Decompose(0)];
            for (t, op) in start.iter().chain((0..times).flat_map(|_| &ops)).enumerate() {
                let Some((key, r)) = apply(*op, &mut o) else { continue };
                ctx.step(1);
                if reference.get(&key) != Some(&r) { ctx.fail("a result depends on what was computed before", format!("call {}: {:?}", t, op)); return; }
            }
            ctx.state(1); ctx.trace(1); ctx.nontrivial();
        }),
        desc: Box::new(move |i| format!("{:?} over and over", dec(i))) }
}

/// Every palette computation three times over (the pixel table is hashed with a fresh seed each time), in both pixel orders' images.
pub fn repeat<'a>(cols: Vec<Col>, k: usize) -> Space<'a> {
    let n = cols.len();
    let gen = move |i: u64| -> Vec<Col> { unrank(n, k, i).into_iter().enumerate().flat_map(|(t, j)| std::iter::repeat(cols[j]).take(1 + t % 3)).collect() };
    let g2 = gen.clone();
    Space { name: format!("repeat{}of{}", k, n), n: binom(n as u64, k as u64), what: format!("every image of {} of {} colours: palette and recolouring computed repeatedly", k, n), cpu_limit_s: 20,
        run: Box::new(move |i, ctx| {
            let px = gen(i);
            if affine_dim(&px.iter().map(p3).collect::<Vec<_>>(), 3) < 3 { ctx.skip(); return; }
            ctx.state(1); ctx.trace(1); ctx.nontrivial();
            let im = img(px.len() as u32, 1, &px);
            for b in [0.0, 0.013, 0.05] {
                let r: Vec<_> = (0..3).map(|_| compute_palette(&im, 4, 255, b)).collect();
                ctx.step(3);
                if r[0] != r[1] || r[0] != r[2] { ctx.fail("the same call gave different palettes", format!("{:?}", r)); return; }
                ctx.outcome(hash_bytes(&r[0].iter().flat_map(|c| c.0).collect::<Vec<_>>()));
            }
            let mut p2 = px.clone(); p2.extend(px.iter().rev());
            if affine_dim(&p5(px.len() as u32, &p2), 5) < 5 { return; }
            let im = img(px.len() as u32, 2, &p2);
            let out: Vec<Vec<u8>> = (0..2).map(|_| { let w = ImageWeights::new(&im); let d = DecomposedImage::new(&w, &pal(&dec_pal(1))).unwrap(); let mut v = d.reconstruct(&pal(&rec_pal(5, 1))).unwrap().into_raw(); v.extend(d.get_channel_grayscale(2).unwrap().into_raw()); v }).collect();
            ctx.step(2);
            if out[0] != out[1] { ctx.fail("the same decomposition gave different results", ""); }
        }),
        desc: Box::new(move |i| format!("pixels {}", hexs(&g2(i)))) }
}

// ---------------------------------------------------------------- C09

/// Every image of the given size over the alphabet, through the whole API with extreme settings.
/// Palettes whose extent is decided by the last bit of an error: a bound of nothing at all, and bounds a rounding step
/// below and at the one where the palette changes.
pub fn brink<'a>(sizes: Vec<usize>) -> Space<'a> {
    let s2 = sizes.clone();
    Space { name: "brink".into(), n: sizes.len() as u64, what: format!("images of {:?} extreme colours and as many between them, unevenly often: palettes with no error allowed and with bounds on either side of a change, each computed 6 times", sizes), cpu_limit_s: 120,
        run: Box::new(move |i, ctx| {
            let mut p = sphere_colors(sizes[i as usize]);
            let n = p.len();
            for a in 0..n { if let Some(m) = midpoint(&[p[a], p[(a * 5 + 3) % n]]) { p.push(m); } }
            let px: Vec<Col> = p.iter().enumerate().flat_map(|(k, c)| std::iter::repeat(*c).take(1 + k * k % 7)).collect();
            let im = img(px.len() as u32, 1, &px);
            ctx.state(1); ctx.trace(1); ctx.nontrivial();
            let size = |b: f64| compute_palette(&im, 4, 255, b);
            let mut bounds = vec![0.0];
            for top in [0.02, 0.3] {
                let (mut lo, mut hi) = (0.0f64, top);
                let base = size(lo);
                if size(hi) == base { continue; }
                while hi.to_bits() - lo.to_bits() > 1 { let mid = f64::from_bits((lo.to_bits() + hi.to_bits()) / 2); ctx.step(1); if size(mid) == base { lo = mid; } else { hi = mid; } }
                bounds.extend([lo, hi]);
            }
            for b in bounds {
                let r: Vec<_> = (0..6).map(|_| size(b)).collect();
                ctx.step(6);
                if r.iter().any(|x| *x != r[0]) { ctx.fail("the same call gave different palettes", format!("bound {:e}: sizes {:?}", b, r.iter().map(|x| x.len()).collect::<Vec<_>>())); return; }
                ctx.outcome(hash_bytes(&r[0].iter().flat_map(|c| c.0).collect::<Vec<_>>()));
            }
        }),
        desc: Box::new(move |i| format!("{} colours", s2[i as usize])) }
}

pub fn total<'a>(name: &str, w: u32, h: u32, alpha: Vec<Col>) -> Space<'a> {
    let a = alpha.len() as u64;
    let what = format!("every {}x{} image over {} colours, full-dimensional or not", w, h, a);
    total_of(name, what, w, h, a.pow(w * h), 5, move |mut i: u64| -> Vec<Col> { (0..w * h).map(|_| { let c = alpha[(i % a) as usize]; i /= a; c }).collect() })
}
/// Large images: of one, two, three, four colours in a pattern, of grey levels, of a plane of colours, with single odd pixels, and of everything.
pub fn total_long<'a>(w: u32, h: u32) -> Space<'a> {
    let n = w as u64 * h as u64;
    total_of(&format!("t{}x{}", w, h), format!("{}x{} images: 1 to 4 colours in patterns, greys, a plane, single odd pixels, everything", w, h), w, h, 12, 90, move |i: u64| -> Vec<Col> {
        let k8 = corners(255);
        (0..n).map(|k| match i {
            0..=4 => k8[(k * 7 % (i + 1)) as usize],
            5 => [(k % 256) as u8; 3],
            6 => [(k % 256) as u8, (k / 256 % 256) as u8, 77],
            7 => if k == n - 1 { [1, 2, 3] } else { [200; 3] },
            8 => if k == n / 2 { [0; 3] } else { [(k % 256) as u8, (k / 256 % 256) as u8, 77] },
            9 => if k < 5 { k8[k as usize] } else { [128; 3] },
            10 => if k + 5 > n { k8[(n - k) as usize] } else { [128; 3] },
            _ => { let x = (k as u32).wrapping_mul(2654435761); [x as u8, (x >> 9) as u8, (x >> 20) as u8] }
        }).collect()
    })
}
fn total_of<'a>(name: &str, what: String, w: u32, h: u32, n: u64, limit: u32, gen: impl Fn(u64) -> Vec<Col> + Clone + 'a) -> Space<'a> {
    let g2 = gen.clone();
    let palettes: Vec<Vec<Col>> = vec![corners(255), vec![], vec![[0; 3]; 4], vec![[1, 1, 1], [2, 2, 2], [3, 3, 3], [4, 4, 4]], vec![[60, 60, 60], [61, 60, 60], [60, 61, 60], [60, 60, 61]], vec![[0, 0, 0], [255, 255, 255], [255, 255, 254], [255, 254, 255], [0, 1, 0]]];
    Space { name: name.into(), n, what, cpu_limit_s: limit,
        run: Box::new(move |i, ctx| {
            let px = gen(i);
            ctx.state(1); ctx.trace(1);
            let im = img(w, h, &px);
            let full3 = px.len() > 0 && affine_dim(&px.iter().map(p3).collect::<Vec<_>>(), 3) == 3;
            let full5 = px.len() > 0 && affine_dim(&p5(w.max(1), &px), 5) == 5;
            if full3 || full5 { ctx.nontrivial(); }
            for (mn, mx, b) in [(0, 0, 0.0), (4, 10, 2.0 / 255.0), (usize::MAX, usize::MAX, f64::INFINITY), (4, usize::MAX, f64::NAN), (0, 4, -1.0), (5, 4, f64::MAX)] {
                ctx.step(1);
                match guarded(|| compute_palette(&im, mn, mx, b)) {
                    Err(m) => if full3 { ctx.fail("compute_palette panics on a usable image", format!("{} {} {}: {}", mn, mx, b, m)); return; },
                    Ok(p) => { ctx.outcome(p.len() as u64); let p: Vec<Col> = p.iter().map(|c| c.0).collect(); if if p.len() > 60 { !distinct(&p) } else { !valid(&p) } { ctx.fail("compute_palette returned an unusable palette", hexs(&p)); return; } }
                }
            }
            ctx.step(1);
            match guarded(|| ImageWeights::new(&im)) {
                Err(m) => if full5 { ctx.fail("ImageWeights panics on a usable image", m); },
                Ok(w) => {
                    for p in &palettes {
                        ctx.step(1);
                        match guarded(|| DecomposedImage::new(&w, &pal(p))) {
                            Err(m) => { ctx.fail(format!("decomposition panics: {}", first_line(&m)), hexs(p)); return; }
                            Ok(Ok(d)) => { for q in 0..10 { let _ = d.reconstruct(&pal(&rec_pal(q, 3))); let _ = d.get_channel_grayscale(q); } }
                            Ok(Err(_)) => {}
                        }
                    }
                }
            }
        }),
        desc: Box::new(move |i| if w * h > 100 { format!("{}x{} image {}", w, h, i) } else { format!("{}x{} image {}", w, h, hexs(&g2(i))) }) }
}
