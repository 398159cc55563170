//! L01 the palette text the command line takes, L02 the command line does what the library does. Real program, spawned.
use crate::engine::*;
use crate::geom::binom;
use crate::recolor::*;
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// The program, next to this one.
fn program() -> PathBuf { std::env::current_exe().unwrap().with_file_name("recolor-cli") }
struct Run { code: Option<i32>, out: Vec<u8> }
fn run(dir: &Path, args: &[OsString]) -> Run {
    let mut c = Command::new(program());
    c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).env("RUST_BACKTRACE", "0");
    // a run that hangs is ended by the kernel
    unsafe { c.pre_exec(|| { let l = libc::rlimit { rlim_cur: 10, rlim_max: 10 }; libc::setrlimit(libc::RLIMIT_CPU, &l); Ok(()) }); }
    let o = c.output().expect("cannot start the program");
    let code = match o.status.signal() { Some(s) => { if s == libc::SIGXCPU || s == libc::SIGKILL { Some(-1) } else { None } } None => o.status.code() };
    Run { code, out: o.stdout }
}
/// Own reading of the grammar: RRGGBB[,RRGGBB]*
pub fn parse(s: &str) -> Option<Vec<Col>> {
    let mut v = vec![];
    let hex = |b: u8| match b { b'0'..=b'9' => Some(b - b'0'), b'a'..=b'f' => Some(b - b'a' + 10), b'A'..=b'F' => Some(b - b'A' + 10), _ => None };
    for part in s.split(',') {
        let b = part.as_bytes();
        if b.len() != 6 { return None; }
        let mut c = [0; 3];
        for k in 0..3 { c[k] = hex(b[2 * k])? * 16 + hex(b[2 * k + 1])?; }
        v.push(c);
    }
    Some(v)
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        use std::sync::atomic::*;
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("verif-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    /// Every file below the directory, with its contents.
    fn files(&self) -> BTreeMap<OsString, Vec<u8>> {
        fn rec(root: &Path, d: &Path, m: &mut BTreeMap<OsString, Vec<u8>>) {
            for e in std::fs::read_dir(d).unwrap().flatten() {
                let p = e.path();
                if p.is_dir() { rec(root, &p, m) } else { m.insert(p.strip_prefix(root).unwrap().into(), std::fs::read(&p).unwrap()); }
            }
        }
        let mut m = BTreeMap::new(); rec(&self.0, &self.0, &mut m); m
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

// ---------------------------------------------------------------- L01

/// All texts of a family.
pub struct Texts { pub name: &'static str, pub what: String, pub n: u64, pub gen: Box<dyn Fn(u64) -> String> }
const PROBE: [&str; 26] = ["/", "0", "9", ":", "@", "A", "F", "G", "Z", "`", "a", "f", "g", "z", "+", "-", " ", "_", "x", ",", ".", "#", "\t", "é", "０", "\u{7f}"];
pub fn one_char() -> Texts {
    Texts { name: "onechar", what: "a colour with any one of its digits replaced by any ASCII character".into(), n: 6 * 127, gen: Box::new(|i| { let mut b = *b"09afAF"; b[(i / 127) as usize] = (i % 127 + 1) as u8; String::from_utf8(b.to_vec()).unwrap() }) }
}
pub fn two_chars() -> Texts {
    let k = PROBE.len() as u64;
    Texts { name: "twochars", what: format!("a colour with any two of its digits replaced by any of {} characters, of one to three bytes", k), n: 15 * k * k, gen: Box::new(move |i| {
        let pos = crate::geom::unrank(6, 2, i / (k * k));
        let mut v: Vec<&str> = "30c9E1".split("").filter(|x| !x.is_empty()).collect();
        v[pos[0]] = PROBE[(i / k % k) as usize]; v[pos[1]] = PROBE[(i % k) as usize];
        v.concat()
    }) }
}
pub fn short(kmax: u32) -> Texts {
    const A: [&str; 7] = ["0", "f", "B", "g", ",", "+", "é"];
    let a = A.len() as u64;
    Texts { name: "short", what: format!("every text of up to {} characters out of {}", kmax, a), n: (0..=kmax).map(|k| a.pow(k)).sum(), gen: Box::new(move |mut i| {
        let mut k = 0; while i >= a.pow(k) { i -= a.pow(k); k += 1; }
        (0..k).map(|_| { let c = A[(i % a) as usize]; i /= a; c }).collect::<String>()
    }) }
}
pub fn lists(kmax: u32) -> Texts {
    const A: [&str; 10] = ["00ff7a", "ABCDEF", "", "12345", "1234567", " 12345", "12345 ", "+f+f+f", "ééé", "0xffff"];
    let a = A.len() as u64;
    Texts { name: "lists", what: format!("every list of up to {} items out of {}", kmax, a), n: (1..=kmax).map(|k| a.pow(k)).sum(), gen: Box::new(move |mut i| {
        let mut k = 1; while i >= a.pow(k) { i -= a.pow(k); k += 1; }
        (0..k).map(|_| { let c = A[(i % a) as usize]; i /= a; c }).collect::<Vec<_>>().join(",")
    }) }
}
/// Each text as the decomposition and as the recolouring palette. Without an input image, a text that is taken leads to another failure than a bad argument (exit 2).
pub fn grammar<'a>(t: Texts) -> Space<'a> {
    let t = std::rc::Rc::new(t); let t2 = t.clone();
    Space { name: t.name.into(), n: 2 * t.n, what: t.what.clone(), cpu_limit_s: 60,
        run: Box::new(move |i, ctx| {
            let s = (t.gen)(i / 2);
            if s.contains('\0') { ctx.skip(); return; }
            let want = parse(&s);
            // the other palette has as many colours
            let other = vec!["010203"; want.as_ref().map_or(1, |p| p.len())].join(",");
            let (d, r) = if i % 2 == 0 { (&s, &other) } else { (&other, &s) };
            let (flag_d, flag_r) = match i / 2 % 2 { 0 => ("-d=", "-r="), _ => ("--decomposition-palette=", "--reconstruction-palette=") };
            let sc = Scratch::new();
            let a: Vec<OsString> = vec!["recolor-image".into(), format!("{}{}", flag_d, d).into(), "-i".into(), "missing.png".into(), format!("{}{}", flag_r, r).into(), "-o".into(), "out.png".into()];
            let x = run(&sc.0, &a);
            ctx.state(1); ctx.step(1); ctx.trace(1);
            if want.is_some() { ctx.nontrivial(); }
            ctx.outcome(want.as_ref().map_or(0, |w| w.len() as u64 + 1));
            match x.code {
                None => ctx.fail("the program crashed", s.clone()),
                Some(-1) => ctx.fail("the program hung", s.clone()),
                Some(2) if want.is_some() => ctx.fail("a well-formed palette was refused", s.clone()),
                Some(2) => {}
                Some(c) => if want.is_none() { ctx.fail("a malformed palette was taken", format!("{:?} (exit {})", s, c)); } else if c == 0 { ctx.fail("a missing image was no failure", s.clone()); },
            }
            if !sc.files().is_empty() { ctx.fail("something was written without an image", format!("{:?}", sc.files().keys())); }
        }),
        desc: Box::new(move |i| format!("{} palette {:?}", if i % 2 == 0 { "decomposition" } else { "recolouring" }, (t2.gen)(i / 2))) }
}
/// Every level of every component, upper and lower case, read back through what recolouring writes.
pub fn levels<'a>() -> Space<'a> {
    let text = |i: u64| -> (String, Col) { let (k, v) = ((i / 2) / 256, (i / 2 % 256) as u8); let mut c = [0x5a, 0xa5, 0x3c]; c[k as usize] = v; (if i % 2 == 0 { hexs(&[c]) } else { hexs(&[c]).to_uppercase() }, c) };
    Space { name: "levels".into(), n: 3 * 256 * 2, what: "every value of every component, in both cases, as a recolouring colour".into(), cpu_limit_s: 60,
        run: Box::new(move |i, ctx| {
            let (t, c) = text(i);
            let (_, _, px) = crate::misc::demo_image(0);
            let p = &px[..4];
            let sc = Scratch::new();
            img(3, 2, &px).save(sc.0.join("in.png")).unwrap();
            let a: Vec<OsString> = ["recolor-image", "-d", &hexs(p).replace(' ', ","), "-i", "in.png", "-r", &vec![t.as_str(); 4].join(","), "-o", "out.png"].iter().map(|s| s.into()).collect();
            let x = run(&sc.0, &a);
            ctx.state(1); ctx.step(1); ctx.trace(1); ctx.nontrivial();
            if x.code != Some(0) { ctx.fail("recolouring failed", format!("exit {:?}", x.code)); return; }
            let want = DecomposedImage::new(&ImageWeights::new(&img(3, 2, &px)), &pal(p)).unwrap().reconstruct(&pal(&[c; 4])).unwrap();
            match image::open(sc.0.join("out.png")) { Ok(g) => { let g = g.into_rgb8(); ctx.outcome(hash_bytes(&g)); if g != want { ctx.fail("a colour was read as another one", format!("{} gave {:?} instead of {:?}", t, g.get_pixel(0, 0), want.get_pixel(0, 0))); } } Err(e) => ctx.fail("no output image", e.to_string()) }
        }),
        desc: Box::new(move |i| text(i).0) }
}

// ---------------------------------------------------------------- L02

/// Options of generate-palette: (arguments, min, max, bound); `None`: to be refused.
fn generate_options() -> Vec<(Vec<String>, Option<(u8, u8, f64)>)> {
    let d = 2.0 / 255.0;
    let mut v = vec![];
    for m in [None, Some(0), Some(3), Some(4), Some(5), Some(7), Some(255), Some(256)] {
        for x in [None, Some(0), Some(4), Some(6), Some(9), Some(255), Some(256)] {
            for e in [None, Some("0"), Some("0.05"), Some("1e9"), Some("-1"), Some("x")] {
                let mut a: Vec<String> = vec![]; let long = v.len() % 2 == 1;
                if let Some(m) = m { if long { a.push(format!("--min-size={}", m)) } else { a.extend(["-m".into(), format!("{}", m)]) } }
                if let Some(x) = x { a.extend(["--max-size".into(), format!("{}", x)]) }
                if let Some(e) = e { if long { a.push(format!("--error-bound={}", e)) } else { a.push(format!("-e={}", e)) } }
                let (mm, xx): (i64, i64) = (m.unwrap_or(4), x.unwrap_or(10));
                let ok = mm >= 4 && mm < 256 && xx < 256;
                let b = e.map_or(Some(d), |e| e.parse().ok());
                v.push((a, match b { Some(b) if ok => Some((mm as u8, xx as u8, b)), _ => None }));
            }
        }
    }
    v
}
/// The image as different files holding the same colours.
fn save_as(dir: &Path, kind: u64, im: &Img) -> String {
    use image::DynamicImage::*;
    let d = image::DynamicImage::ImageRgb8(im.clone());
    let (n, r) = match kind {
        0 => ("in.png", d.save(dir.join("in.png"))),
        1 => ("in.bmp", d.save(dir.join("in.bmp"))),
        // transparency is ignored
        2 => { let mut a = d.to_rgba8(); for (k, p) in a.pixels_mut().enumerate() { p.0[3] = (k * 83 % 256) as u8; } ("in alpha.png", ImageRgba8(a).save(dir.join("in alpha.png"))) }
        _ => ("in16.png", ImageRgb16(d.to_rgb16()).save(dir.join("in16.png"))),
    };
    r.unwrap(); n.into()
}
/// Images whose palette changes when the default error bound is changed by a hundredth: two just above it, two just below.
pub fn at_default_bound() -> Vec<(u32, u32, Vec<Col>)> {
    let d = 2.0 / 255.0;
    let base: Vec<Col> = vec![[20, 30, 40], [220, 40, 30], [30, 230, 50], [60, 50, 210], [240, 235, 60], [200, 60, 225], [240, 236, 238], [52, 221, 214]];
    let mut out = vec![];
    for (a, b) in [(d, d * 1.01), (d * 0.99, d)] {
        let mut k = 0;
        for n in 0..2000u32 {
            let mut px = base.clone();
            px.extend(std::iter::repeat([128, 128, 128]).take(n as usize));
            let im = img(px.len() as u32, 1, &px);
            let get = |b| guarded(|| compute_palette(&im, 4, 10, b)).ok();
            if get(a) != get(b) { out.push((px.len() as u32, 1, px)); k += 1; if k == 2 { break; } }
        }
    }
    forget_panic();
    out
}
pub fn generate<'a>(name: &str, images: Vec<(u32, u32, Vec<Col>)>, kinds: u64) -> Space<'a> {
    let opts = std::rc::Rc::new(generate_options()); let o2 = opts.clone();
    let n = images.len() as u64 * opts.len() as u64 * kinds;
    let what = format!("{} images x {} option combinations x {} file kinds", images.len(), opts.len(), kinds);
    let images = std::rc::Rc::new(images); let im2 = images.clone();
    Space { name: name.into(), n, what, cpu_limit_s: 60,
        run: Box::new(move |i, ctx| {
            let (a, want) = &opts[(i % opts.len() as u64) as usize];
            let (w, h, px) = &images[(i / opts.len() as u64 % images.len() as u64) as usize];
            let kind = i / opts.len() as u64 / images.len() as u64;
            let im = img(*w, *h, px);
            let sc = Scratch::new();
            let f = save_as(&sc.0, kind, &im);
            let before = sc.files();
            let mut args: Vec<OsString> = vec!["generate-palette".into()];
            if i % 3 == 0 { args.push((&f).into()); }
            args.extend(a.iter().map(|x| x.into()));
            if i % 3 != 0 { args.push((&f).into()); }
            let x = run(&sc.0, &args);
            ctx.state(1); ctx.step(1); ctx.trace(1);
            if sc.files() != before { ctx.fail("generating a palette changed files", ""); return; }
            match (want, x.code) {
                (_, None) => ctx.fail("the program crashed", ""),
                (_, Some(-1)) => ctx.fail("the program hung", ""),
                (None, Some(0)) => ctx.fail("arguments outside their range were taken", ""),
                (None, Some(_)) => if !x.out.is_empty() { ctx.fail("a refused run printed a palette", ""); },
                (Some((mn, mx, b)), c) => {
                    ctx.nontrivial();
                    match guarded(|| compute_palette(&im, *mn as usize, *mx as usize, *b)) {
                        Err(_) => { forget_panic(); if c == Some(0) { ctx.fail("a palette was printed where the library fails", String::from_utf8_lossy(&x.out)); } }
                        Ok(p) => {
                            ctx.outcome(hash_bytes(&x.out));
                            let want = p.iter().map(|c| format!("{:02x}{:02x}{:02x}", c.0[0], c.0[1], c.0[2])).collect::<Vec<_>>().join(",") + "\n";
                            if c != Some(0) { ctx.fail("generating a palette failed", format!("exit {:?}", c)); return; }
                            let got = String::from_utf8_lossy(&x.out).to_string();
                            // equal as lists of colours; the text must be what recolor-image takes
                            if parse(got.trim_end()) != parse(want.trim_end()) { ctx.fail("the palette is not the library's", format!("{} instead of {}", got.trim_end(), want.trim_end())); }
                        }
                    }
                }
            }
        }),
        desc: Box::new(move |i| { let (w, h, px) = &im2[(i / o2.len() as u64 % im2.len() as u64) as usize]; format!("generate-palette {} on {}x{} {}", o2[(i % o2.len() as u64) as usize].0.join(" "), w, h, hexs(px)) }) }
}

/// Where the result goes and what the channel files are then called.
const OUTS: [(&[u8], &[u8], &[u8], &str); 8] = [(b"out.png", b"", b"out", "png"), (b"sub/out.png", b"sub/", b"out", "png"), (b"sub/a.b.png", b"sub/", b"a.b", "png"), (b"out.bmp", b"", b"out", "bmp"), (b"./in_channel.png", b"", b"in_channel", "png"),
    // not text, not ASCII, blanks
    (b"r\xffs\xc3.png", b"", b"r\xffs\xc3", "png"), ("sub/\u{e9}\u{65e5}.png".as_bytes(), b"sub/", "\u{e9}\u{65e5}".as_bytes(), "png"), (b"sub/ a  b .bmp", b"sub/", b" a  b ", "bmp")];
fn bytes(b: &[u8]) -> OsString { std::os::unix::ffi::OsStringExt::from_vec(b.to_vec()) }
pub fn recolor<'a>(name: &str, images: Vec<(u32, u32, Vec<Col>)>, palettes: Vec<Vec<Col>>) -> Space<'a> {
    // recolouring palettes: the same, reversed, fixed ones, one too few, one too many
    let nrec = 5u64;
    let (ni, np, no) = (images.len() as u64, palettes.len() as u64, OUTS.len() as u64);
    let n = ni * np * nrec * no * 2;
    let what = format!("{} images x {} palettes x {} recolourings x {} output names x with and without channels", ni, np, nrec, no);
    let pick = move |i: u64| (i % 2 == 1, (i / 2 % no) as usize, i / 2 / no % nrec, (i / 2 / no / nrec % np) as usize, (i / 2 / no / nrec / np) as usize);
    let im2 = images.clone(); let pal2 = palettes.clone();
    Space { name: name.into(), n, what, cpu_limit_s: 60,
        run: Box::new(move |i, ctx| {
            let (chan, o, r, p, m) = pick(i);
            let (w, h, px) = &images[m];
            let p = &palettes[p];
            let mut q: Vec<Col> = match r { 0 => p.clone(), 1 => p.iter().rev().copied().collect(), _ => (0..p.len()).map(|k| [(k * 37 + 5) as u8, 200u8.wrapping_sub((k * 11 % 256) as u8), (k * 91 % 256) as u8]).collect() };
            if r == 3 { q.pop(); } if r == 4 { q.push([1, 2, 3]); }
            let im = img(*w, *h, px);
            let sc = Scratch::new();
            let f = save_as(&sc.0, i / 2 % 4, &im);
            std::fs::create_dir(sc.0.join("sub")).unwrap();
            std::fs::write(sc.0.join("bystander.png"), b"keep me").unwrap();
            let (out, dir, stem, ext) = OUTS[o];
            let mut args: Vec<OsString> = vec!["recolor-image".into()];
            let t = |p: &[Col]| hexs(p).replace(' ', ",");
            if i % 4 < 2 { args.extend(["-d".into(), t(p).into(), "-i".into(), f.clone().into(), "-r".into(), t(&q).into(), "-o".into(), bytes(out)]); if chan { args.push("-c".into()); } }
            else { if chan { args.push("--save-individual-channels".into()); } args.extend(["--output-image".into(), bytes(out), "--reconstruction-palette".into(), t(&q).to_uppercase().into(), "--input-image".into(), f.clone().into(), "--decomposition-palette".into(), t(p).to_uppercase().into()]); }
            let before = sc.files();
            let x = run(&sc.0, &args);
            let after = sc.files();
            ctx.state(1); ctx.step(1); ctx.trace(1);
            if x.code.is_none() { ctx.fail("the program crashed", ""); return; }
            if x.code == Some(-1) { ctx.fail("the program hung", ""); return; }
            let lib = guarded(|| DecomposedImage::new(&ImageWeights::new(&im), &pal(p)));
            if lib.is_err() { forget_panic(); }
            let d = match lib { Ok(Ok(d)) if q.len() == p.len() => Some(d), _ => None };
            match d {
                None => {
                    if x.code == Some(0) { ctx.fail("unusable palettes were no failure", ""); return; }
                    if after != before { ctx.fail("a failed run changed files", format!("{:?}", after.keys())); }
                }
                Some(d) => {
                    ctx.nontrivial();
                    if x.code != Some(0) { ctx.fail("recolouring failed", format!("exit {:?}", x.code)); return; }
                    let mut expect: BTreeMap<OsString, image::DynamicImage> = BTreeMap::new();
                    let named = |s: String| bytes(&[dir, stem, s.as_bytes()].concat());
                    expect.insert(named(format!(".{}", ext)), image::DynamicImage::ImageRgb8(d.reconstruct(&pal(&q)).unwrap()));
                    if chan { for (k, c) in p.iter().enumerate() { expect.insert(named(format!("_channel_{}_{:02X}{:02X}{:02X}.{}", k, c[0], c[1], c[2], ext)), image::DynamicImage::ImageLuma8(d.get_channel_grayscale(k).unwrap())); } }
                    for (k, v) in &before { if after.get(k) != Some(v) { ctx.fail("recolouring changed a file that is not its output", format!("{:?}", k)); return; } }
                    let written: Vec<&OsString> = after.keys().filter(|k| !before.contains_key(*k)).collect();
                    if !written.iter().copied().eq(expect.keys()) { ctx.fail("the files written are not the ones promised", format!("{:?} instead of {:?}", written, expect.keys().collect::<Vec<_>>())); return; }
                    for (k, v) in &expect {
                        ctx.step(1);
                        let g = match image::open(sc.0.join(k)) { Ok(g) => g, Err(e) => { ctx.fail("a written image cannot be read", format!("{:?}: {}", k, e)); return; } };
                        let same = match v { image::DynamicImage::ImageLuma8(l) => &g.to_luma8() == l && g.to_rgb8() == v.to_rgb8(), _ => g.to_rgb8() == v.to_rgb8() };
                        if !same { ctx.fail("a written image is not the library's", format!("{:?}", k)); return; }
                        ctx.outcome(hash_bytes(&g.to_rgb8()));
                    }
                }
            }
        }),
        desc: Box::new(move |i| { let (chan, o, r, p, m) = pick(i); let (w, h, px) = &im2[m]; format!("recolor-image {}x{} {} with palette {} recolouring {} to {:?}{}", w, h, hexs(px), hexs(&pal2[p]), r, bytes(OUTS[o].0), if chan { " with channels" } else { "" }) }) }
}

/// All images of w x h pixels over the colours, up to the first `limit` in Gray-free counting order (all if it is enough).
pub fn all_images(w: u32, h: u32, a: &[Col]) -> Vec<(u32, u32, Vec<Col>)> {
    let n = (a.len() as u64).pow(w * h);
    (0..n).map(|mut i| (w, h, (0..w * h).map(|_| { let c = a[(i % a.len() as u64) as usize]; i /= a.len() as u64; c }).collect())).collect()
}
/// All ways to put distinct colours, as sets.
pub fn image_sets(w: u32, h: u32, a: &[Col]) -> Vec<(u32, u32, Vec<Col>)> {
    let k = (w * h) as usize;
    (0..binom(a.len() as u64, k as u64)).map(|i| (w, h, crate::geom::unrank(a.len(), k, i).into_iter().map(|j| a[j]).collect())).collect()
}
