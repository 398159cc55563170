//! compute_palette: C05 stopping rule, C06 sizes, C07 usable results, C10 cheapest collapse.
//! Model: the chain of hulls the simplification walks through. It is read off the implementation with the
//! error bound out of the way, and then every (min, max, bound) setting must stop where the model says.
use crate::engine::*;
use crate::geom::*;
use crate::recolor::*;
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};

pub struct PalSpace { pub name: String, pub n: u64, pub gen: Box<dyn Fn(u64) -> Vec<Col>>, pub what: String }
#[derive(Clone, Copy, PartialEq)]
pub enum Rule { Stop, Size, Usable, Cheapest }

/// RMS distance of the pixels to the solid hull of the palette, in 0..1 units.
pub fn rms(px: &[Col], h: &Hull3) -> f64 {
    let s: f64 = px.iter().map(|c| (h.closest([c[0] as f64, c[1] as f64, c[2] as f64]).1 / 255.0).powi(2)).sum();
    (s / px.len() as f64).sqrt()
}
/// Rounding to whole levels moves every palette colour, and so the distances, by at most this.
const DELTA: f64 = 0.8661 / 255.0 + 1e-6;
const INF: f64 = f64::INFINITY;

fn set(v: &[Col]) -> Vec<Col> { let mut v = v.to_vec(); v.sort(); v }
fn usable(p: &[Col]) -> bool { let s = set(p); s.windows(2).all(|w| w[0] != w[1]) && p.len() >= 4 && Hull3::new(&dedup(p)).is_some_and(|h| h.ext.count_ones() as usize == p.len()) }
fn dedup(p: &[Col]) -> Vec<Col> { let mut v = vec![]; for c in p { if !v.contains(c) { v.push(*c); } } v }

struct Call<'a> { im: &'a Img }
impl<'a> Call<'a> {
    fn go(&self, mn: usize, mx: usize, b: f64, ctx: &mut Ctx) -> Option<Vec<Col>> {
        ctx.step(1);
        match guarded(|| compute_palette(self.im, mn, mx, b)) {
            Ok(r) => { let r: Vec<Col> = r.iter().map(|c| c.0).collect(); ctx.outcome(hash_bytes(&r.concat())); Some(r) }
            Err(m) => { ctx.fail(format!("compute_palette panics: {}", first_line(&m)), format!("min {} max {} bound {}", mn, mx, b)); None }
        }
    }
}

pub fn case(sp: &PalSpace, i: u64, ctx: &mut Ctx, rule: Rule) {
    let px = (sp.gen)(i);
    let d = dedup(&px);
    let Some(h0) = Hull3::new(&d) else { ctx.skip(); return };
    let n0 = h0.ext.count_ones() as usize;
    let im = img(px.len() as u32, 1, &px);
    let c = Call { im: &im };
    ctx.state(1); ctx.trace(1);
    if n0 > 4 { ctx.nontrivial(); }
    let start: Vec<Col> = set(&(0..d.len()).filter(|k| h0.ext >> k & 1 == 1).map(|k| d[k]).collect::<Vec<_>>());
    // the chain, from the full hull down
    let mut chain: Vec<Vec<Col>> = vec![];
    let mut smallest = vec![vec![]; n0 + 1];
    for m in (4..=n0).rev() {
        let Some(r) = c.go(m, usize::MAX, INF, ctx) else { return };
        if m == n0 && set(&r) != start { if rule == Rule::Usable || rule == Rule::Stop { ctx.fail("an unsimplified palette is not the image's hull colours", format!("{} want {}", hexs(&r), hexs(&start))); } return; }
        if r.len() < m { if rule == Rule::Size { ctx.fail("fewer colours than the minimum", format!("min {}: {}", m, hexs(&r))); } return; }
        if chain.last() != Some(&r) {
            if chain.last().is_some_and(|p| r.len() >= p.len()) { if rule == Rule::Size || rule == Rule::Stop { ctx.fail("a lower minimum gave a different palette that is no smaller", format!("min {}: {} after {}", m, hexs(&r), hexs(chain.last().unwrap()))); } return; }
            ctx.state(1);
            chain.push(r.clone());
        }
        smallest[m] = r;
    }
    match rule {
        Rule::Stop => {
            // (error of moving on to chain[k+1], slack)
            let err: Vec<(f64, f64)> = chain[1..].iter().map(|p| {
                if p.iter().all(|c| c.iter().all(|x| *x > 0 && *x < 255)) { return (0.0, 1e-7); } // nothing was clamped: all pixels are enclosed
                match Hull3::new(p) { Some(h) => (rms(&px, &h), DELTA), None => (0.0, INF) } }).collect();
            let mut bounds = vec![0.0, 1e-6, 2.0 / 255.0];
            for (e, d) in &err { if d.is_finite() { if e - d * 1.02 >= 0.0 { bounds.push(e - d * 1.02); } bounds.push(e + d * 1.02); } }
            let mut maxs = vec![4, n0 - 1, n0, usize::MAX]; maxs.dedup();
            for mn in [4usize, 5] { for &mx in &maxs { for &b in &bounds {
                let Some(r) = c.go(mn, mx, b, ctx) else { return };
                let ch: Vec<&Vec<Col>> = if mn == 4 { chain.iter().collect() } else { chain.iter().filter(|p| p.len() >= mn.min(n0)).collect() };
                let mut possible = vec![]; let mut k = 0;
                loop {
                    if k + 1 >= ch.len() || ch[k].len() <= mn { possible.push(k); break; }
                    if ch[k].len() <= mx {
                        let (e, d) = err[k];
                        if e - d > b { possible.push(k); break; }
                        if e + d >= b { possible.push(k); }
                    }
                    k += 1;
                }
                if !possible.iter().any(|k| *ch[*k] == r) {
                    ctx.fail(if r.len() > ch[possible[0]].len() { "simplification stopped although the error was within the bound" } else { "simplification went past the error bound" },
                        format!("min {} max {} bound {:.5}: {} colours, expected {} (errors {:?}) {}", mn, mx, b, r.len(), ch[possible[0]].len(), err, hexs(&r))); return;
                }
            } } }
        }
        Rule::Size => {
            for mn in [0usize, 3, 4, 5, 6, usize::MAX] { for mx in [0usize, 4, 5, usize::MAX] { for b in [0.02, INF, -1.0] {
                let Some(r) = c.go(mn, mx, b, ctx) else { return };
                let m = mn.max(4);
                let tag = || format!("min {} max {} bound {}: {} colours of {}", mn, mx, b, r.len(), n0);
                if r.len() < m.min(n0) { ctx.fail("fewer colours than the minimum", tag()); return; }
                if r.len() > n0 { ctx.fail("more colours than the image's hull", tag()); return; }
                if r.len() > mx && r != smallest[m.min(n0)] { ctx.fail("more colours than the maximum although the hull can be simplified further", tag()); return; }
                if b == INF && r != smallest[m.min(n0)] { ctx.fail("an unlimited error bound did not simplify all the way to the minimum", tag()); return; }
                if b < 0.0 && mx >= n0 && set(&r) != start { ctx.fail("simplified although no error is allowed", tag()); return; }
            } } }
        }
        Rule::Usable => {
            // a 2-row image with all pixels gives five-dimensional weights
            let (w, h) = (px.len() as u32, 2u32);
            let mut p2 = px.clone(); p2.extend(px.iter().rev());
            let weights = (affine_dim(&p5(w, &p2), 5) == 5).then(|| ImageWeights::new(&img(w, h, &p2)));
            let Some(weights) = weights else { ctx.skip(); return };
            let mut all = chain.clone();
            for (mn, mx, b) in [(0, 0, 0.0), (4, 4, 0.01), (4, 255, 0.0), (4, 255, 0.01), (4, 255, 0.03), (4, 5, 0.0)] { let Some(r) = c.go(mn, mx, b, ctx) else { return }; if !all.contains(&r) { all.push(r); } }
            for r in &all {
                if !usable(r) { ctx.fail("a computed palette contains redundant or repeated colours, or is flat", hexs(r)); return; }
                ctx.step(1);
                match guarded(|| DecomposedImage::new(&weights, &pal(r))) {
                    Err(m) => { ctx.fail("decomposing to a computed palette panics", m); return; }
                    Ok(Err(e)) => { ctx.fail("a computed palette was refused by the decomposition", format!("{}: {}", hexs(r), e)); return; }
                    Ok(Ok(d)) => if d.num_channels() != r.len() { ctx.fail("channel count differs from the computed palette", ""); return; }
                }
            }
        }
        Rule::Cheapest => {
            if n0 <= 4 || h0.planes.iter().any(|p| (p.on & h0.ext).count_ones() != 3) { return; }
            // the model's hull is carried along in floating point, and given up where a decision is too close to call
            let mut cur: Vec<P3> = start.iter().map(|c| c.map(|x| x as f64)).collect();
            for k in 0.. {
                let (next, fuzzy) = match collapse(&cur) {
                    Step::Unclear => return,
                    Step::Stuck => {
                        if k == 0 { ctx.nontrivial(); }
                        if chain.len() > k + 1 { ctx.fail("simplified although no edge can be collapsed outwards", format!("step {}: {}", k + 1, hexs(&chain[k + 1]))); }
                        return;
                    }
                    Step::To(next, fuzzy) => (next, fuzzy),
                };
                if fuzzy { return; }
                let cand: Vec<Col> = next.iter().map(|p| p.map(|x| x.clamp(0.0, 255.0).round() as u8)).collect();
                // rounding or flattening decides: not judged
                if next.iter().any(|p| p.iter().any(|x| (x.clamp(0.0, 255.0).fract() - 0.5).abs() < 1e-5)) { return; }
                if cand.len() < 4 { return; }
                let ok = usable(&cand);
                let thin = Hull3::new(&dedup(&cand)).map_or(true, |h| thickness(&h) < 0.5);
                if k == 0 { ctx.nontrivial(); }
                ctx.state(1);
                match chain.get(k + 1) {
                    Some(r) if r.len() == cand.len() => if set(r) != set(&cand) { ctx.fail("a simplification step is not the cheapest edge collapse", format!("step {}: {} want {}", k + 1, hexs(&set(r)), hexs(&set(&cand)))); return; }
                    _ => { if ok && !thin { ctx.fail("the cheapest edge collapse was not taken", format!("step {} of chain sizes {:?} want {}", k + 1, chain.iter().map(|c| c.len()).collect::<Vec<_>>(), hexs(&cand))); } return; }
                }
                if next.len() <= 4 { return; }
                cur = next;
            }
        }
    }
}

fn thickness(h: &Hull3) -> f64 {
    h.planes.iter().map(|pl| { let l = (0..3).map(|j| (pl.n[j] as f64).powi(2)).sum::<f64>().sqrt(); h.pts.iter().map(|p| (pl.eval(p, 3) as f64 / l).abs()).fold(0.0, f64::max) }).fold(INF, f64::min)
}

type P3 = [f64; 3];
fn eval(pl: &(P3, f64), p: &P3) -> f64 { pl.0[0] * p[0] + pl.0[1] * p[1] + pl.0[2] * p[2] + pl.1 }
/// Facets (outward unit normal and offset, corners) of the hull of a few points by trying all triples; `None` if some
/// four points are too close to a common supporting plane.
fn facets(pts: &[P3]) -> Option<Vec<((P3, f64), [usize; 3])>> {
    let mut out = vec![]; let mut clear = true;
    combos(pts.len(), 3, |c| {
        let v = |k: usize| nalgebra::Vector3::from(pts[c[k]]);
        let n = (v(1) - v(0)).cross(&(v(2) - v(0)));
        let l = n.norm();
        if l < 1e-3 { clear = false; return; }
        let n = n / l;
        for s in [1.0, -1.0] {
            let pl = ([n[0] * s, n[1] * s, n[2] * s], -s * n.dot(&v(0)));
            let worst = (0..pts.len()).filter(|k| !c.contains(k)).map(|k| eval(&pl, &pts[k])).fold(-INF, f64::max);
            if worst > 1e-3 { continue; }
            if worst > -1e-3 { clear = false; }
            out.push((pl, [c[0], c[1], c[2]]));
        }
    });
    clear.then_some(out)
}
enum Step { Unclear, Stuck, To(Vec<P3>, bool) }
/// The hull vertices after collapsing the edge whose replacement adds the least volume; `true` if it is too close to call.
fn collapse(pts: &[P3]) -> Step {
    let Some(fs) = facets(pts) else { return Step::Unclear };
    let mut best: Vec<(f64, usize, usize, P3, bool)> = vec![];
    for a in 0..pts.len() { for b in a + 1..pts.len() {
        if fs.iter().filter(|f| f.1.contains(&a) && f.1.contains(&b)).count() != 2 { continue; }
        let inc: Vec<_> = fs.iter().filter(|f| f.1.contains(&a) || f.1.contains(&b)).collect();
        let pl: Vec<(P3, f64)> = inc.iter().map(|f| f.0).collect();
        let mut opt: Vec<(f64, P3, bool)> = vec![];
        combos(pl.len(), 3, |c| {
            let (p, q, r) = (pl[c[0]], pl[c[1]], pl[c[2]]);
            let m = nalgebra::Matrix3::new(p.0[0], p.0[1], p.0[2], q.0[0], q.0[1], q.0[2], r.0[0], r.0[1], r.0[2]);
            if m.determinant().abs() < 1e-9 { return; }
            let s = m.lu().solve(&nalgebra::Vector3::new(-p.1, -q.1, -r.1)).unwrap();
            let s = [s[0], s[1], s[2]];
            // feasible: on the outer side of every facet around the edge
            let worst = pl.iter().map(|f| eval(f, &s)).fold(INF, f64::min);
            if worst < -1e-6 { return; }
            opt.push((pl.iter().map(|f| eval(f, &s)).sum::<f64>(), s, m.determinant().abs() < 1e-5));
        });
        if opt.is_empty() { continue; }
        opt.sort_by(|a, b| a.0.total_cmp(&b.0));
        let s = opt[0].1;
        let added = |s: P3| -> f64 { inc.iter().map(|f| {
            let e = |k: usize| nalgebra::Vector3::from(pts[f.1[k]]) - nalgebra::Vector3::from(s);
            e(0).dot(&e(1).cross(&e(2))).abs() / 6.0
        }).sum() };
        // other optimal corners elsewhere: the point is not determined (the volume is linear between them)
        let ties: Vec<_> = opt.iter().filter(|o| o.0 < opt[0].0 + 1e-3).collect();
        let unsure = ties.iter().any(|o| o.2 || dist2(o.1, s) > 1e-6);
        best.push((ties.iter().map(|o| added(o.1)).fold(INF, f64::min), a, b, s, unsure));
    } }
    best.sort_by(|a, b| a.0.total_cmp(&b.0));
    let Some(&(vol, a, b, s, unsure)) = best.first() else { return Step::Stuck };
    let fuzzy = unsure || best.len() > 1 && best[1].0 < vol * (1.0 + 1e-6) + 1e-3 || s.iter().any(|x| x.abs() > 1e5);
    let mut next: Vec<P3> = (0..pts.len()).filter(|k| *k != a && *k != b).map(|k| pts[k]).collect();
    next.push(s);
    if fuzzy { return Step::To(next, true); }
    // the new point can swallow other vertices
    match facets(&next) {
        None => Step::To(next, true),
        Some(fs) => Step::To((0..next.len()).filter(|k| fs.iter().any(|f| f.1.contains(k))).map(|k| next[k]).collect(), false),
    }
}

/// Images of many extreme colours (on a sphere, so known by construction), with colours inside: only the ends of the chain are walked.
pub fn many<'a>(sizes: Vec<usize>, rule: Rule) -> Space<'a> {
    let s2 = sizes.clone();
    Space { name: "spheres".into(), n: sizes.len() as u64, what: format!("images of {:?} extreme colours and others between them, limits just below", sizes), cpu_limit_s: 120,
        run: Box::new(move |i, ctx| {
            let start = sphere_colors(sizes[i as usize]);
            let n0 = start.len();
            let mut px = start.clone();
            for a in 0..n0 { if let Some(m) = midpoint(&[start[a], start[(a * 5 + 3) % n0]]) { px.push(m); } }
            let im = img(px.len() as u32, 1, &px);
            let c = Call { im: &im };
            ctx.state(1); ctx.trace(1); ctx.nontrivial();
            let tag = |mn: usize, mx: usize, b: f64, r: &[Col]| format!("min {} max {} bound {}: {} colours of {}", mn, mx, b, r.len(), n0);
            // (minimum, maximum, bound): nothing to do
            for (mn, mx, b) in [(n0, 0, INF), (n0 + 1, n0, 0.0), (usize::MAX, 0, INF), (0, n0, -1.0), (4, usize::MAX, -1.0)] {
                let Some(r) = c.go(mn, mx, b, ctx) else { return };
                if set(&r) != set(&start) { ctx.fail(if rule != Rule::Usable { "simplified although no error is allowed" } else { "an unsimplified palette is not the image's hull colours" }, tag(mn, mx, b, &r)); return; }
            }
            // one step, forced by the maximum and by the bound
            let mut one: Option<Vec<Col>> = None;
            for (mn, mx, b) in [(n0 - 1, n0 - 1, -1.0), (n0 - 1, usize::MAX, INF), (n0 - 1, n0, 1e9), (0, n0 - 1, -1.0)] {
                let Some(r) = c.go(mn, mx, b, ctx) else { return };
                let d = { let s = set(&r); s.windows(2).all(|w| w[0] != w[1]) };
                if !d && rule == Rule::Usable { ctx.fail("a computed palette contains redundant or repeated colours, or is flat", tag(mn, mx, b, &r)); return; }
                if rule == Rule::Size && (r.len() > n0 || r.len() < mn.min(n0)) { ctx.fail("fewer colours than the minimum", tag(mn, mx, b, &r)); return; }
                if one.as_ref().is_some_and(|o| set(o) != set(&r)) && mn > 0 && rule != Rule::Usable { ctx.fail("a forced step and an allowed step differ", tag(mn, mx, b, &r)); return; }
                if mn == 0 && one.as_ref().is_some_and(|o| o.len() == n0 - 1 && set(o) != set(&r)) && rule != Rule::Usable { ctx.fail("simplified past the maximum although no error is allowed", tag(mn, mx, b, &r)); return; }
                one.get_or_insert(r);
            }
        }),
        desc: Box::new(move |i| format!("sphere of {} colours", s2[i as usize])) }
}
/// Large images of one colour but for six pixels at consecutive places, anywhere: these are the extreme colours.
pub fn anywhere<'a>(name: &str, sizes: &[(u32, u32, usize)]) -> Space<'a> {
    let sizes = sizes.to_vec();
    let cnt: Vec<u64> = sizes.iter().map(|(w, h, s)| ((*w as usize * *h as usize - 6) / s + 2) as u64).collect();
    let n = cnt.iter().sum();
    let find = move |mut i: u64| { for (k, c) in cnt.iter().enumerate() { if i < *c { let (w, h, s) = sizes[k]; return (w, h, (i as usize * s).min(w as usize * h as usize - 6)); } i -= c; } unreachable!() };
    let f2 = find.clone();
    Space { name: name.into(), n, what: "large images of one colour but for six neighbouring pixels, the extreme ones, at every so many places".into(), cpu_limit_s: 60,
        run: Box::new(move |i, ctx| {
            let (w, h, at) = find(i);
            let ext: [Col; 6] = [[3, 9, 1], [250, 20, 30], [10, 240, 60], [30, 5, 251], [240, 230, 10], [200, 180, 255]];
            let mut px = vec![[110u8, 100, 90]; w as usize * h as usize];
            for (k, c) in ext.iter().enumerate() { px[at + k] = *c; }
            let im = img(w, h, &px);
            ctx.state(1); ctx.trace(1); ctx.nontrivial();
            let Some(r) = (Call { im: &im }).go(6, 255, 0.0, ctx) else { return };
            if set(&r) != set(&ext) { ctx.fail("an unsimplified palette is not the image's hull colours", hexs(&r)); }
        }),
        desc: Box::new(move |i| { let (w, h, at) = f2(i); format!("{w}x{h}, extreme colours from pixel {at}") }) }
}
/// Two tips over a ring of extreme colours: the edges at a tip have many facets around them.
fn spindle(m: usize, stride: usize, up: i64, down: i64) -> Vec<Col> {
    // integer points of one circle: every subset is in convex position
    let mut ring: Vec<[i64; 2]> = vec![];
    for x in (1..=253i64).step_by(2) { for y in (1..=253i64).step_by(2) { if x * x + y * y == 64090 { for s in 0..4 { ring.push([if s & 1 > 0 { -x } else { x }, if s & 2 > 0 { -y } else { y }]); } } } }
    ring.sort_by(|a, b| (a[1] as f64).atan2(a[0] as f64).total_cmp(&(b[1] as f64).atan2(b[0] as f64)));
    let n = ring.len();
    // an odd number of places, so that the ring has no symmetry of its own
    let o = m | 1;
    let mut v: Vec<Col> = (0..m).map(|k| { let p = ring[(k * n / o + stride) % n]; [((255 + p[0]) / 2) as u8, ((255 + p[1]) / 2) as u8, 120] }).collect();
    v.push([121, 131, (120 + up) as u8]); v.push([133, 126, (120 - down) as u8]);
    v
}
/// The first step or two of images of very many extreme colours, against the enumeration of all edges.
pub fn steps<'a>(name: &str, spheres: Vec<usize>, rings: Vec<usize>) -> Space<'a> {
    let mut all: Vec<(String, Vec<Col>)> = spheres.iter().map(|n| {
        // the first choice without four colours on (or nearly on) one face
        let v = (0..40).map(|o| sphere_colors_from(*n, 7 + o)).find(|v| facets(&v.iter().map(|c| c.map(|x| x as f64)).collect::<Vec<_>>()).is_some());
        (format!("sphere of {n}"), v.unwrap_or_else(|| sphere_colors(*n)))
    }).collect();
    for &m in &rings { for (s, up, down) in [(0usize, 3i64, 90i64), (1, 12, 60), (2, 40, 8), (1, 100, 1), (0, 70, 70)] { all.push((format!("{m}-spindle {s} {up} {down}"), spindle(m, s, up, down))); } }
    let all = std::rc::Rc::new(all); let a2 = all.clone();
    Space { name: name.into(), n: all.len() as u64, what: format!("images of {:?} extreme colours on a sphere, and of rings of {:?} colours with two tips: the first two steps", spheres, rings), cpu_limit_s: 300,
        run: Box::new(move |i, ctx| {
            let start = &all[i as usize].1;
            let im = img(start.len() as u32, 1, start);
            let c = Call { im: &im };
            ctx.state(1); ctx.trace(1);
            let mut cur: Vec<P3> = start.iter().map(|c| c.map(|x| x as f64)).collect();
            for k in 0..2 {
                let (next, fuzzy) = match collapse(&cur) { Step::To(n, f) => (n, f), _ => return };
                if fuzzy || next.iter().any(|p| p.iter().any(|x| (x.clamp(0.0, 255.0).fract() - 0.5).abs() < 1e-5)) { return; }
                let cand: Vec<Col> = next.iter().map(|p| p.map(|x| x.clamp(0.0, 255.0).round() as u8)).collect();
                // only if clamping and rounding clearly leave every colour a corner
                let shown: Vec<P3> = cand.iter().map(|c| c.map(|x| x as f64)).collect();
                let Some(fs) = facets(&shown) else { return };
                if !(0..shown.len()).all(|k| fs.iter().any(|f| f.1.contains(&k))) { return; }
                if k == 0 { ctx.nontrivial(); }
                ctx.state(1);
                let Some(r) = c.go(next.len(), usize::MAX, INF, ctx) else { return };
                if set(&r) != set(&cand) {
                    let want = set(&cand); let have = set(&r);
                    ctx.fail("a simplification step is not the cheapest edge collapse", format!("step {} of {}: {} colours want {}; not wanted {}; missing {}", k + 1, all[i as usize].0, r.len(), cand.len(), hexs(&have.iter().filter(|c| !want.contains(c)).copied().collect::<Vec<_>>()), hexs(&want.iter().filter(|c| !have.contains(c)).copied().collect::<Vec<_>>()))); return;
                }
                cur = next;
            }
        }),
        desc: Box::new(move |i| a2[i as usize].0.clone()) }
}
pub fn space<'a>(sp: PalSpace, rule: Rule) -> Space<'a> {
    let sp = std::rc::Rc::new(sp); let s2 = sp.clone();
    Space { name: sp.name.clone(), n: sp.n, what: sp.what.clone(), cpu_limit_s: 300, run: Box::new(move |i, c| case(&sp, i, c, rule)), desc: Box::new(move |i| format!("pixels {}", hexs(&(s2.gen)(i)))) }
}
pub fn grid_colors(levels: &[u8]) -> Vec<Col> { let mut v = vec![]; for &r in levels { for &g in levels { for &b in levels { v.push([r, g, b]); } } } v }
/// All images of k distinct colours; with `mult`, pixel t is repeated 1 + (t % mult) * mult times.
pub fn subsets(name: &str, cols: Vec<Col>, k: std::ops::RangeInclusive<usize>, mult: usize, step: u64) -> PalSpace {
    let cnt: Vec<(usize, u64)> = k.map(|k| (k, binom(cols.len() as u64, k as u64))).collect();
    let n = cnt.iter().map(|c| c.1).sum::<u64>().div_ceil(step);
    PalSpace { name: name.into(), n, what: format!("{} image of {:?} distinct colours out of {}, pixel multiplicity pattern {}", if step == 1 { "every".to_string() } else { format!("every {}th", step) }, cnt.iter().map(|c| c.0).collect::<Vec<_>>(), cols.len(), mult),
        gen: Box::new(move |i| {
            let mut i = i * step;
            for (k, c) in &cnt {
                if i < *c { return unrank(cols.len(), *k, i).into_iter().enumerate().flat_map(|(t, j)| std::iter::repeat(cols[j]).take(if mult == 0 { 1 } else { 1 + (t % mult) * mult })).collect(); }
                i -= c;
            }
            unreachable!() }) }
}
/// Hulls of many colours (all on a sphere that nearly fills the cube), with colours inside.
pub fn balls(sizes: Vec<usize>) -> PalSpace {
    PalSpace { name: "balls".into(), n: sizes.len() as u64, what: format!("images of {:?} extreme colours on a sphere, and of colours half-way between two of them", sizes),
        gen: Box::new(move |i| { let mut p = sphere_colors(sizes[i as usize]); let n = p.len(); for a in 0..n.min(60 - n) { if let Some(m) = midpoint(&[p[a], p[(a * 5 + 3) % n]]) { p.push(m); } } p }) }
}
/// Every component value, in every component.
pub fn levels() -> PalSpace {
    PalSpace { name: "levels".into(), n: 256, what: "for every component value an image of seven colours with that value in each component".into(),
        gen: Box::new(|i| { let v = i as u8; let w = 255 - v; vec![[v, w, 7], [7, v, w], [w, 7, v], [v, v, v], [v, 3, 250], [250, v, 3], [3, 250, v]] }) }
}
/// The same colours with one of them (each in turn) repeated very often.
pub fn heavy(name: &str, cols: Vec<Col>, k: usize, times: usize) -> PalSpace {
    let n = binom(cols.len() as u64, k as u64) * k as u64;
    PalSpace { name: name.into(), n, what: format!("every image of {} distinct colours out of {}, one of them {} times", k, cols.len(), times),
        gen: Box::new(move |i| { let v = unrank(cols.len(), k, i / k as u64); let many = (i % k as u64) as usize; v.into_iter().enumerate().flat_map(|(t, j)| std::iter::repeat(cols[j]).take(if t == many { times } else { 1 + t })).collect() }) }
}
/// Twelve vertices of a (slightly irregular) icosahedron around a centre, plus the centre.
pub fn ico(c: [i64; 3], a: i64, b: i64) -> Vec<Col> {
    let mut v: Vec<Col> = vec![];
    let mut k = 0;
    for s in [-1i64, 1] { for t in [-1i64, 1] { for ax in 0..3 {
        let mut p = c; p[(ax + 1) % 3] += s * (a + k % 3); p[(ax + 2) % 3] += t * (b - k % 5); p[ax] += k % 4; k += 1;
        v.push(p.map(|x| x.clamp(0, 255) as u8));
    } } }
    v.push(c.map(|x| x as u8));
    v
}
