//! F01 the C interface does what the library does, through the shipped header; F02 lifecycles of its objects.
use super::alloc::{self, Guarded};
use image::Rgb;
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};
use mcore::engine::*;
use mcore::geom::*;
use mcore::recolor::{self, *};
use mcore::checks::{skew_palettes, LONG};
use mcore::misc::demo_image;
use std::ffi::c_void;

extern crate capi as _;

mod ffi {
    use std::ffi::c_void;
    extern "C" {
        pub fn create_image_weights(); pub fn free_image_weights(); pub fn compute_palette(); pub fn free_computed_palette();
        pub fn create_decomposed_image(); pub fn free_decomposed_image(); pub fn get_decomposed_image_width(); pub fn get_decomposed_image_height();
        pub fn get_decomposed_image_num_channels(); pub fn reconstruct_image(); pub fn grayscale_image_channel();
        pub fn dlopen(f: *const libc::c_char, n: i32) -> *mut c_void; pub fn dlsym(h: *mut c_void, n: *const libc::c_char) -> *mut c_void;
    }
}

/// What a C program sees: calls compiled by a C compiler against the shipped header.
macro_rules! shim { ($($f:ident: fn($($t:ty),*) $(-> $r:ty)?;)*) => {
    #[derive(Clone, Copy)] pub struct Shim { $(pub $f: unsafe extern "C" fn($($t),*) $(-> $r)?),* }
    unsafe fn load(h: *mut c_void) -> Shim { Shim { $($f: std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) $(-> $r)?>({ let p = ffi::dlsym(h, concat!("shim_", stringify!($f), "\0").as_ptr().cast()); assert!(!p.is_null()); p })),* } }
} }
shim! {
    weights: fn(u32, u32, *const u8) -> *mut c_void;
    free_weights: fn(*mut c_void);
    palette: fn(u32, u32, *const u8, u8, u8, f64, *mut u8) -> *mut u8;
    free_palette: fn(*mut u8, u8);
    decompose: fn(*mut c_void, u8, *const u8) -> *mut c_void;
    free_decomposed: fn(*mut c_void);
    width: fn(*mut c_void) -> u32;
    height: fn(*mut c_void) -> u32;
    channels: fn(*mut c_void) -> u8;
    reconstruct: fn(*mut c_void, *const u8, *mut u8) -> u8;
    grayscale: fn(*mut c_void, u8, *mut u8) -> u8;
}
const SHIM_C: &str = r#"
#include "image-palette-recoloring.h"
static void **T;
void shim_init(void **t) { T = t; }
#define F(i, f) ((__typeof__(&f))T[i])
void *shim_weights(uint32_t w, uint32_t h, const uint8_t *b) { return F(0, create_image_weights)(w, h, b); }
void shim_free_weights(void *p) { F(1, free_image_weights)((image_weights *)p); }
uint8_t *shim_palette(uint32_t w, uint32_t h, const uint8_t *b, uint8_t mn, uint8_t mx, double e, uint8_t *n) { return F(2, compute_palette)(w, h, b, mn, mx, e, n); }
void shim_free_palette(uint8_t *p, uint8_t n) { F(3, free_computed_palette)(p, n); }
void *shim_decompose(void *w, uint8_t n, const uint8_t *p) { return F(4, create_decomposed_image)((const image_weights *)w, n, p); }
void shim_free_decomposed(void *p) { F(5, free_decomposed_image)((decomposed_image *)p); }
uint32_t shim_width(void *d) { return F(6, get_decomposed_image_width)((const decomposed_image *)d); }
uint32_t shim_height(void *d) { return F(7, get_decomposed_image_height)((const decomposed_image *)d); }
uint8_t shim_channels(void *d) { return F(8, get_decomposed_image_num_channels)((const decomposed_image *)d); }
uint8_t shim_reconstruct(void *d, const uint8_t *p, uint8_t *o) { return F(9, reconstruct_image)((const decomposed_image *)d, p, o); }
uint8_t shim_grayscale(void *d, uint8_t c, uint8_t *o) { return F(10, grayscale_image_channel)((const decomposed_image *)d, c, o); }
"#;

/// Compiles the calls against /repo's header (as C, and for syntax as C++) and loads them.
pub fn shim() -> Result<Shim, String> {
    let dir = scratch_dir();
    let (c, so) = (dir.join("shim.c"), dir.join("shim.so"));
    std::fs::write(&c, SHIM_C).unwrap();
    let cc = |prog: &str, args: &[&str]| -> Result<(), String> {
        let o = std::process::Command::new(prog).args(args).arg("-I/repo/image-palette-recoloring-c").arg(&c).output().map_err(|e| e.to_string())?;
        if o.status.success() { Ok(()) } else { Err(format!("{}: {}", prog, String::from_utf8_lossy(&o.stderr).lines().filter(|l| l.contains("error")).next().unwrap_or("failed"))) }
    };
    cc("g++", &["-x", "c++", "-fsyntax-only"])?;
    cc("gcc", &["-std=gnu11", "-O1", "-shared", "-fPIC", "-o", so.to_str().unwrap()])?;
    unsafe {
        let p = std::ffi::CString::new(so.to_str().unwrap()).unwrap();
        let h = ffi::dlopen(p.as_ptr(), 2);
        if h.is_null() { return Err("the compiled calls cannot be loaded".into()); }
        let init: unsafe extern "C" fn(*const *const c_void) = std::mem::transmute(ffi::dlsym(h, b"shim_init\0".as_ptr().cast()));
        let t: Vec<*const c_void> = vec![ffi::create_image_weights as *const () as _, ffi::free_image_weights as *const () as _, ffi::compute_palette as *const () as _, ffi::free_computed_palette as *const () as _,
            ffi::create_decomposed_image as *const () as _, ffi::free_decomposed_image as *const () as _, ffi::get_decomposed_image_width as *const () as _, ffi::get_decomposed_image_height as *const () as _,
            ffi::get_decomposed_image_num_channels as *const () as _, ffi::reconstruct_image as *const () as _, ffi::grayscale_image_channel as *const () as _];
        init(Box::leak(t.into_boxed_slice()).as_ptr());
        let _ = std::fs::remove_file(&c); let _ = std::fs::remove_file(&so);
        Ok(load(h))
    }
}

pub fn flat(p: &[Col]) -> Vec<u8> { p.concat() }

/// The palettes every image is decomposed with: valid ones and all kinds of invalid ones.
pub fn palettes() -> Vec<Vec<Col>> {
    let mut v = skew_palettes();
    v.push(corners(255));
    v.push(vec![]);
    v.push(corners(255)[..3].to_vec());
    v.push(vec![[0; 3]; 4]);
    v.push(corners(255)[..4].to_vec());
    v.push([corners(255), vec![[9, 9, 9]]].concat());
    v.push([corners(255), vec![[0, 0, 0]]].concat());
    v
}

/// A case watched for memory errors and leaks: `f` must give back everything.
pub fn watched(ctx: &mut Ctx, f: impl FnOnce(&mut Ctx)) {
    let before = (alloc::BLOCKS.load(std::sync::atomic::Ordering::SeqCst), alloc::BYTES.load(std::sync::atomic::Ordering::SeqCst));
    alloc::watch();
    f(ctx);
    let after = (alloc::BLOCKS.load(std::sync::atomic::Ordering::SeqCst), alloc::BYTES.load(std::sync::atomic::Ordering::SeqCst));
    let e = alloc::unwatch();
    if ctx.failed() { return; }
    if let Some(e) = e { ctx.fail(format!("memory {}", e), ""); }
    else if after != before { ctx.fail("memory was not given back", format!("{} blocks, {} bytes", after.0 - before.0, after.1 - before.1)); }
}

/// Everything the C interface can be asked about one image, against the library.
fn conform(s: &Shim, w: u32, h: u32, px: &[Col], settings: &[(u8, u8, f64)], palettes: &[Vec<Col>], ctx: &mut Ctx) {
    let im = img(w, h, px);
    let full3 = affine_dim(&px.iter().map(p3).collect::<Vec<_>>(), 3) == 3;
    let full5 = affine_dim(&p5(w, px), 5) == 5;
    if !full3 && !full5 { ctx.skip(); return; }
    ctx.state(1); ctx.trace(1); ctx.nontrivial();
    let inb = Guarded::new(&flat(px));
    unsafe {
        if full3 { for &(mn, mx, b) in settings {
            let want = compute_palette(&im, mn as usize, mx as usize, b);
            let out = Guarded::new(&[0xee]);
            let p = (s.palette)(w, h, inb.p, mn, mx, b, out.p);
            ctx.step(1);
            let n = *out.p;
            if want.len() > 255 {
                if !p.is_null() || n != 0 || !out.intact() { ctx.fail("a palette of more than 255 colours was not refused", format!("{} reported as {}", want.len(), n)); return; }
                (s.free_palette)(p, n);
                ctx.outcome(want.len() as u64);
                continue;
            }
            if p.is_null() { ctx.fail("compute_palette returned NULL", ""); return; }
            let got = std::slice::from_raw_parts(p, n as usize * 3).to_vec();
            (s.free_palette)(p, n);
            if !out.intact() { ctx.fail("bytes before out_palette_color_count were written", ""); return; }
            if n as usize != want.len() { ctx.fail("palette size is not the library's", format!("min {} max {} bound {}: {} for {}", mn, mx, b, n, want.len())); return; }
            if got != flat(&want.iter().map(|c| c.0).collect::<Vec<_>>()) { ctx.fail("palette is not the library's", format!("{:?}", got)); return; }
            ctx.outcome(hash_bytes(&got));
        } }
        if !full5 { return; }
        let lw = ImageWeights::new(&im);
        let cw = (s.weights)(w, h, inb.p);
        if cw.is_null() { ctx.fail("create_image_weights returned NULL", ""); return; }
        if !inb.intact() || inb.bytes() != &flat(px)[..] { ctx.fail("the input image was written", ""); return; }
        drop(inb);
        for p in palettes {
            ctx.step(1);
            let tag = |m: &str| format!("palette [{}]: {}", hexs(p), m);
            let pb = Guarded::new(&flat(p));
            let cd = (s.decompose)(cw, p.len() as u8, pb.p);
            if pb.bytes() != &flat(p)[..] || !pb.intact() { ctx.fail("the palette was written", tag("")); return; }
            drop(pb);
            let ld = match DecomposedImage::new(&lw, &pal(p)) {
                Err(_) => { if !cd.is_null() { ctx.fail("a palette the library refuses did not give NULL", tag("")); return; } continue; }
                Ok(d) => d };
            if cd.is_null() { ctx.fail("a palette the library accepts gave NULL", tag("")); return; }
            if (s.width)(cd) != w || (s.height)(cd) != h || (s.channels)(cd) as usize != p.len() { ctx.fail("wrong dimensions or channel count", tag(&format!("{}x{} {}", (s.width)(cd), (s.height)(cd), (s.channels)(cd)))); return; }
            for q in 0..2 {
                let q: Vec<Rgb<u8>> = if q == 0 { pal(p) } else { (0..p.len()).map(|i| Rgb([(i * 37) as u8, 255u8.wrapping_sub((i * 11) as u8), (i * 101 + 3) as u8])).collect() };
                let want = ld.reconstruct(&q).unwrap().into_raw();
                let qb = Guarded::new(&q.iter().flat_map(|c| c.0).collect::<Vec<_>>());
                let out = Guarded::new(&vec![0xee; want.len()]);
                ctx.step(1);
                let r = (s.reconstruct)(cd, qb.p, out.p);
                if r != 1 { ctx.fail("reconstruct_image did not report success", tag(&r.to_string())); return; }
                if !out.intact() || !qb.intact() { ctx.fail("bytes outside the output buffer were written", tag("reconstruct")); return; }
                if out.bytes() != &want[..] { ctx.fail("reconstructed image is not the library's", tag("")); return; }
            }
            let past = Guarded::new(&vec![0xee; px.len()]);
            for c in 0..=255u8 {
                let want = ld.get_channel_grayscale(c as usize).map(|x| x.into_raw());
                let fresh;
                let out = if want.is_some() { fresh = Guarded::new(&vec![0xee; px.len()]); &fresh } else { &past };
                ctx.step(1);
                let r = (s.grayscale)(cd, c, out.p);
                if !out.intact() { ctx.fail("bytes outside the output buffer were written", tag("grayscale")); return; }
                match want {
                    None => if r != 0 || out.bytes().iter().any(|b| *b != 0xee) { ctx.fail("a channel past the end was not refused untouched", tag(&c.to_string())); return; },
                    Some(want) => if r != 1 || out.bytes() != &want[..] { ctx.fail("grayscale channel is not the library's", tag(&c.to_string())); return; },
                }
            }
            (s.free_decomposed)(cd);
        }
        (s.free_weights)(cw);
    }
}

const SETTINGS: [(u8, u8, f64); 5] = [(4, 10, 2.0 / 255.0), (0, 4, 0.0), (5, 255, 0.5), (255, 255, 1e300), (200, 3, f64::NAN)];
pub fn interface(name: &str, w: u32, h: u32, alpha: Vec<Col>) -> Space<'static> {
    let a = alpha.len() as u64;
    let gen = move |mut i: u64| -> Vec<Col> { (0..w * h).map(|_| { let c = alpha[(i % a) as usize]; i /= a; c }).collect() };
    let g2 = gen.clone();
    let s = shim();
    let pals = palettes();
    let n = if s.is_err() { 1 } else { a.pow(w * h) };
    Space { name: name.into(), n, what: format!("every {}x{} image over {} colours through the C interface: palettes with 5 settings, {} decomposition palettes, all 256 channel numbers", w, h, a, palettes().len()), cpu_limit_s: 20,
        run: Box::new(move |i, ctx| match &s {
            Err(e) => ctx.fail("a C program that uses the functions as implemented does not compile against the shipped header", e.clone()),
            Ok(s) => watched(ctx, |ctx| conform(s, w, h, &gen(i), &SETTINGS, &pals, ctx)),
        }),
        desc: Box::new(move |i| format!("{}x{} image {}", w, h, hexs(&g2(i)))) }
}

/// Colours spread over a sphere, nearly all of them extreme: palettes around and beyond the 255 colours the interface can count.
fn sphere(n: usize, phase: f64, r: f64) -> Vec<Col> {
    (0..n).map(|i| { let z = 1.0 - 2.0 * (i as f64 + 0.5) / n as f64; let s = (1.0 - z * z).sqrt(); let t = i as f64 * 2.399963229728653 + phase; [s * t.cos(), s * t.sin(), z].map(|x| (127.5 + r * x).round() as u8) }).collect()
}
pub fn many() -> Space<'static> {
    // the last ones cannot be brought down to 255 colours
    const CASES: [(usize, f64, f64); 8] = [(254, 0.0, 127.4), (255, 0.0, 127.4), (256, 0.0, 127.4), (257, 0.0, 127.4), (366, 0.0, 127.4), (370, 5.0, 120.0), (412, 4.0, 125.0), (390, 1.0, 127.4)];
    let s = shim();
    let n = if s.is_err() { 0 } else { CASES.len() as u64 };
    Space { name: "many".into(), n, what: "images with 254 to 412 extreme colours: palettes and decompositions of up to 255 colours, larger palettes refused".into(), cpu_limit_s: 120,
        run: Box::new(move |i, ctx| if let Ok(s) = &s {
            let (n, phase, r) = CASES[i as usize];
            let px = sphere(n, phase, r);
            let all: Vec<Col> = px[..255.min(n)].to_vec();
            watched(ctx, |ctx| conform(s, n as u32, 1, &px, &[(4, 255, 0.0)], &[], ctx));
            if ctx.failed() { return; }
            // a second row, so that decompositions have something to do
            let two: Vec<Col> = px.iter().chain(px.iter().rev()).copied().collect();
            watched(ctx, |ctx| conform(s, n as u32, 2, &two, &[], &[all.clone(), all[..200].to_vec(), corners(255)], ctx));
        }),
        desc: Box::new(|i| format!("{:?}", CASES[i as usize])) }
}

/// Images whose sizes do not fit a smaller integer.
pub fn shapes() -> Space<'static> {
    let s = shim();
    let imgs: Vec<ImgSpace> = LONG.iter().map(|(w, h)| recolor::shapes("long", *w, *h, vec![])).collect();
    let n = if s.is_err() { 0 } else { imgs.len() as u64 * 3 };
    let pick = |i: u64| ((i / 3) as usize, i % 3 * 2);
    let what = format!("three images each of {:?} pixels: palettes, decompositions, recolourings, channels", LONG);
    let ball: Vec<Col> = recolor::sphere_colors(129);
    Space { name: "shapes".into(), n, what, cpu_limit_s: 120,
        run: Box::new(move |i, ctx| if let Ok(s) = &s {
            let (k, j) = pick(i);
            let sp = &imgs[k];
            watched(ctx, |ctx| conform(s, sp.w, sp.h, &(sp.gen)(j), &SETTINGS[..2], &[skew_palettes()[1].clone(), ball.clone(), vec![]], ctx));
        }),
        desc: Box::new(move |i| format!("{:?} image {}", LONG[pick(i).0], pick(i).1)) }
}

// ---------------------------------------------------------------- F02

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Weights(usize, usize), FreeWeights(usize), Decompose(usize, usize, usize), FreeDecomposed(usize), Recolor(usize), Gray(usize), Palette(usize, usize), FreePalette(usize) }
fn alphabet() -> Vec<Op> {
    let mut v = vec![Op::Palette(0, 0), Op::Palette(0, 1), Op::Palette(1, 1), Op::Palette(1, 3), Op::FreePalette(0), Op::FreePalette(1)];
    for s in 0..2 { v.extend([Op::Weights(s, s), Op::Weights(s, 2), Op::FreeWeights(s), Op::FreeDecomposed(s), Op::Recolor(s), Op::Gray(s)]); for w in 0..2 { for p in [0, 1, 2] { if p != 2 || s == 0 { v.push(Op::Decompose(s, w, p)); } } } }
    v
}
fn dec_pal(p: usize) -> Vec<Col> { match p { 0 => corners(255), 1 => vec![[10, 10, 10], [30, 210, 40], [200, 20, 30], [20, 30, 220], [250, 250, 250]], _ => vec![[1, 1, 1], [2, 2, 2], [3, 3, 3], [4, 4, 4]] } }

/// Which slots are occupied: weights, decompositions (dimension of palette known only at run time), palettes.
#[derive(Clone, Copy, Default)]
struct Abs { w: [bool; 2], d: [bool; 2], p: [bool; 2] }
fn step(a: Abs, op: Op) -> Option<Abs> {
    let mut b = a;
    let ok = match op {
        Op::Weights(s, _) => { b.w[s] = true; !a.w[s] }
        Op::FreeWeights(s) => { b.w[s] = false; a.w[s] }
        Op::Decompose(s, w, p) => { b.d[s] = a.d[s] || p != 2; a.w[w] && !a.d[s] }
        Op::FreeDecomposed(s) => { b.d[s] = false; a.d[s] }
        Op::Recolor(s) | Op::Gray(s) => a.d[s],
        Op::Palette(s, _) => { b.p[s] = true; !a.p[s] }
        Op::FreePalette(s) => { b.p[s] = false; a.p[s] }
    };
    ok.then_some(b)
}

fn picture(k: usize) -> (u32, u32, Vec<Col>) { if k < 3 { demo_image(k as u64) } else { (12, 1, mcore::palette::ico([128, 126, 130], 77, 124)) } }
fn most(k: usize) -> u8 { if k < 3 { 6 } else { 255 } }
struct Mem { w: [(usize, *mut c_void); 2], d: [(usize, usize, *mut c_void); 2], p: [(usize, *mut u8, u8); 2] }
unsafe fn exec(s: &Shim, m: &mut Mem, op: Op) -> Option<Vec<u8>> {
    let im = |k: usize| { let (w, h, px) = picture(k); (w, h, flat(&px)) };
    Some(match op {
        Op::Weights(i, k) => { let (w, h, b) = im(k); let p = (s.weights)(w, h, b.as_ptr()); m.w[i] = (k, p); vec![p.is_null() as u8] }
        Op::FreeWeights(i) => { (s.free_weights)(m.w[i].1); m.w[i].1 = std::ptr::null_mut(); vec![] }
        Op::Decompose(i, w, p) => { let b = dec_pal(p); let d = (s.decompose)(m.w[w].1, b.len() as u8, flat(&b).as_ptr()); if p == 2 { return Some(vec![d.is_null() as u8]); } m.d[i] = (m.w[w].0, p, d); vec![d.is_null() as u8, (s.width)(d) as u8, (s.height)(d) as u8, (s.channels)(d)] }
        Op::FreeDecomposed(i) => { (s.free_decomposed)(m.d[i].2); m.d[i].2 = std::ptr::null_mut(); vec![] }
        Op::Recolor(i) => { let (k, p, d) = m.d[i]; let (w, h, _) = im(k); let q: Vec<u8> = (0..dec_pal(p).len() * 3).map(|x| (x * 29) as u8).collect(); let mut o = vec![7u8; (w * h * 3) as usize]; let r = (s.reconstruct)(d, q.as_ptr(), o.as_mut_ptr()); o.push(r); o }
        Op::Gray(i) => { let (k, _, d) = m.d[i]; let (w, h, _) = im(k); let mut o = vec![]; for c in [0u8, 3, 200] { let mut x = vec![7u8; (w * h) as usize]; let r = (s.grayscale)(d, c, x.as_mut_ptr()); o.extend(x); o.push(r); } o }
        Op::Palette(i, k) => { let (w, h, b) = im(k); let mut n = 0; let p = (s.palette)(w, h, b.as_ptr(), 4, most(k), 0.02, &mut n); m.p[i] = (k, p, n); let mut v = std::slice::from_raw_parts(p, n as usize * 3).to_vec(); v.push(n); v }
        Op::FreePalette(i) => { (s.free_palette)(m.p[i].1, m.p[i].2); m.p[i].1 = std::ptr::null_mut(); vec![] }
    })
}
fn key(m: &Mem, op: Op) -> String {
    match op { Op::Recolor(i) => format!("r{}-{}", m.d[i].0, m.d[i].1), Op::Gray(i) => format!("g{}-{}", m.d[i].0, m.d[i].1), Op::Decompose(_, w, p) => format!("d{}-{}", m.w[w].0, p), Op::Weights(_, k) => format!("w{}", k), Op::Palette(_, k) => format!("p{}", k), _ => "-".into() }
}
fn empty() -> Mem { Mem { w: [(0, std::ptr::null_mut()); 2], d: [(0, 0, std::ptr::null_mut()); 2], p: [(0, std::ptr::null_mut(), 0); 2] } }

/// Palettes and decompositions of every size, each with a copy: made, held, used and freed in both orders.
pub fn sizes(thorough: bool) -> Space<'static> {
    let sh = shim();
    let all: Vec<usize> = if thorough { (4..=255).collect() } else { (4..=33).chain([48, 63, 64, 65, 96, 127, 128, 129, 192, 254, 255]).collect() };
    let n = if sh.is_err() { 0 } else { all.len() as u64 }; let a2 = all.clone();
    Space { name: "sizes".into(), n, what: "palettes and decompositions of many sizes from 4 to 255 colours, two of each, freed in both orders and read in between".into(), cpu_limit_s: 60,
        run: Box::new(move |i, ctx| if let Ok(s) = &sh {
            let c = recolor::sphere_colors(all[i as usize]);
            let px: Vec<Col> = c.iter().chain(c.iter().rev()).copied().collect();
            let (w, h) = (c.len() as u32, 2);
            let want = compute_palette(&img(w, h, &px), 4, 255, 0.0);
            if want.len() > 255 { ctx.skip(); return; }
            let want: Vec<u8> = want.iter().flat_map(|c| c.0).collect();
            let b = flat(&px); let p = flat(&c);
            for order in 0..2 {
                watched(ctx, |ctx| unsafe {
                    let made: Vec<(*mut u8, u8)> = (0..2).map(|_| { let mut n = 0; let q = (s.palette)(w, h, b.as_ptr(), 4, 255, 0.0, &mut n); (q, n) }).collect();
                    let wt = (s.weights)(w, h, b.as_ptr());
                    let d: Vec<_> = (0..2).map(|_| (s.decompose)(wt, c.len() as u8, p.as_ptr())).collect();
                    let read = |d: *mut c_void| -> Vec<u8> { if d.is_null() { return vec![]; } let mut o = vec![7u8; (w * h * 3) as usize]; let r = (s.reconstruct)(d, p.as_ptr(), o.as_mut_ptr()); let mut g = vec![7u8; (w * h) as usize]; let r2 = (s.grayscale)(d, (c.len() - 1) as u8, g.as_mut_ptr()); o.extend(g); o.extend([r, r2, (s.channels)(d)]); o };
                    let first = read(d[0]);
                    if read(d[1]) != first { ctx.fail("a result depends on the other objects", format!("{} colours", c.len())); return; }
                    if order == 0 { (s.free_weights)(wt); }
                    for k in [order, 1 - order] {
                        for j in (0..2).filter(|j| *j == k || k == order) {
                            if made[j].1 as usize * 3 != want.len() || std::slice::from_raw_parts(made[j].0, want.len()) != &want[..] { ctx.fail("a palette changed while it was held", format!("{} colours: {} {:?} {:?}", c.len(), order, std::slice::from_raw_parts(made[j].0, made[j].1 as usize * 3), want)); return; }
                            if read(d[j]) != first { ctx.fail("a result depends on the other objects", format!("{} colours", c.len())); return; }
                        }
                        (s.free_palette)(made[k].0, made[k].1);
                        if !d[k].is_null() { (s.free_decomposed)(d[k]); }
                        ctx.step(8);
                    }
                    if order == 1 { (s.free_weights)(wt); }
                });
                if ctx.failed() { return; }
            }
            ctx.state(1); ctx.trace(2); ctx.nontrivial();
        }),
        desc: Box::new(move |i| format!("{} colours", a2[i as usize])) }
}

pub fn lifecycles(depth: usize) -> Space<'static> {
    let ops = alphabet();
    // all sequences that respect the header's protocol
    let mut seqs: Vec<u8> = vec![];
    fn rec(ops: &[Op], a: Abs, cur: &mut Vec<u8>, depth: usize, out: &mut Vec<u8>) {
        if cur.len() == depth { out.extend_from_slice(cur); return; }
        for (i, op) in ops.iter().enumerate() { if let Some(b) = step(a, *op) { cur.push(i as u8); rec(ops, b, cur, depth, out); cur.pop(); } }
    }
    rec(&ops, Abs::default(), &mut vec![], depth, &mut seqs);
    let n = (seqs.len() / depth) as u64;
    let seqs = std::rc::Rc::new(seqs); let s2 = seqs.clone(); let o2 = ops.clone();
    let sh = shim();
    let mut reference: std::collections::HashMap<String, Vec<u8>> = Default::default();
    reference.insert("-".into(), vec![]);
    // results in isolation come from the library, not from the interface
    for k in 0..4usize {
        let (w, h, px) = picture(k);
        let p = compute_palette(&img(w, h, &px), 4, most(k) as usize, 0.02);
        let mut v: Vec<u8> = p.iter().flat_map(|c| c.0).collect(); v.push(p.len() as u8);
        reference.insert(format!("p{}", k), v);
        if k == 3 { break; }
        let lw = ImageWeights::new(&img(w, h, &px));
        reference.insert(format!("w{}", k), vec![0]);
        reference.insert(format!("d{}-2", k), vec![1]);
        for p in 0..2 {
            let pl = dec_pal(p);
            let d = DecomposedImage::new(&lw, &pal(&pl)).unwrap();
            reference.insert(format!("d{}-{}", k, p), vec![0, w as u8, h as u8, pl.len() as u8]);
            let q: Vec<Rgb<u8>> = (0..pl.len()).map(|i| Rgb([(i * 87) as u8, (i * 87 + 29) as u8, (i * 87 + 58) as u8])).collect();
            let mut v = d.reconstruct(&q).unwrap().into_raw(); v.push(1);
            reference.insert(format!("r{}-{}", k, p), v);
            let mut v = vec![];
            for c in [0usize, 3, 200] { match d.get_channel_grayscale(c) { Some(x) => { v.extend(x.into_raw()); v.push(1) } None => { v.extend(vec![7u8; (w * h) as usize]); v.push(0) } } }
            reference.insert(format!("g{}-{}", k, p), v);
        }
    }
    let n = if sh.is_err() { 1 } else { n };
    Space { name: format!("cycles{}", depth), n, what: format!("every protocol-conforming sequence of {} calls out of {} (two weights, two decompositions, two palettes; the live palettes are read again after every call), each cleaned up in two orders", depth, ops.len()), cpu_limit_s: 20,
        run: Box::new(move |i, ctx| {
            let s = match &sh { Err(e) => { ctx.fail("a C program that uses the functions as implemented does not compile against the shipped header", e.clone()); return; } Ok(s) => s };
            let seq = &seqs[i as usize * depth..(i as usize + 1) * depth];
            for order in 0..2 {
                let mut out = vec![];
                watched(ctx, |ctx| unsafe {
                    let mut m = empty();
                    for k in seq {
                        let key = key(&m, ops[*k as usize]);
                        let r = exec(s, &mut m, ops[*k as usize]).unwrap();
                        ctx.step(1);
                        if reference.get(&key) != Some(&r) { ctx.fail("a result depends on the other objects", format!("{:?} ({})", ops[*k as usize], key)); return; }
                        for b in r { out.push(b); }
                        for (k, p, n) in m.p { if !p.is_null() { let v = &reference[&format!("p{}", k)]; if std::slice::from_raw_parts(p, n as usize * 3) != &v[..v.len() - 1] { ctx.fail("a palette changed while it was held", format!("after {:?}", seq)); return; } } }
                    }
                    let fw = |m: &mut Mem| for x in &mut m.w { if !x.1.is_null() { (s.free_weights)(x.1); } };
                    let fd = |m: &mut Mem| for x in &mut m.d { if !x.2.is_null() { (s.free_decomposed)(x.2); } };
                    if order == 0 { fw(&mut m); fd(&mut m); } else { fd(&mut m); fw(&mut m); }
                    for k in [order, 1 - order] { if !m.p[k].1.is_null() { (s.free_palette)(m.p[k].1, m.p[k].2); } }
                    ctx.outcome(hash_bytes(&out));
                    out = vec![];
                });
                if ctx.failed() { return; }
            }
            ctx.state(depth as u64); ctx.trace(2); ctx.nontrivial();
        }),
        desc: Box::new(move |i| format!("{:?}", s2[i as usize * depth..].iter().take(depth).map(|k| o2[*k as usize]).collect::<Vec<_>>())) }
}
