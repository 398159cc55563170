IMG = r'''
use image::{Rgb, RgbImage};
#[allow(dead_code)] fn img(w: u32, h: u32, c: &[[u8; 3]]) -> RgbImage { let mut i = RgbImage::new(w, h); for (k, p) in c.iter().enumerate() { i.put_pixel(k as u32 % w, k as u32 / w, Rgb(*p)); } i }
#[allow(dead_code)] fn pal(c: &[[u8; 3]]) -> Vec<Rgb<u8>> { c.iter().map(|p| Rgb(*p)).collect() }
'''
seed("hull-neighbour-order", "Q02", [(HULL, """                    std::mem::swap(n0, n1);

""", """                    if n0 < n1 {
                        // Keep the lower index first
                        std::mem::swap(n0, n1);
                    }
""")], "a 3D hull with a facet whose winding qhull reports backwards and whose first neighbour already has the higher index",
"the k-th neighbour of such a facet is no longer the one across from its k-th vertex",
r'''
use qhull_rs::ConvexHull; use nalgebra::Const;
fn main() {
    let mut bad = 0;
    let pts: Vec<[f64; 3]> = (0..8).map(|i| [(i & 1) as f64, (i >> 1 & 1) as f64 * 1.5, (i >> 2) as f64 * 0.7 + (i & 1) as f64 * 0.1]).collect();
    let h: ConvexHull<Const<3>> = ConvexHull::from_arrays(&pts);
    for f in h.facets() {
        let v: Vec<usize> = f.vertices().map(|v| v.index()).collect();
        for (k, n) in f.neighbors().enumerate() {
            let nv: Vec<usize> = n.vertices().map(|v| v.index()).collect();
            for j in 0..3 { if (j != k) != nv.contains(&v[j]) { bad += 1; } }
        }
    }
    println!("{} neighbours in the wrong place", bad);
    std::process::exit((bad > 0) as i32);
}
''')
seed("walk-gives-up", "Q04", [(DEL, """                // If we encounter a degenerate simplex, fall back to bruteforce
                break
            }

            let mut inside = true;
            // Compute each barycentric coordinate one at a time
            // (The iterator""", """                // If we encounter a degenerate simplex, fall back to bruteforce
                let result = self.find_best_simplex_bruteforce(point, bcoords);
                if let Some(result) = &result {
                    self.start_hint.set(Some(result.idx))
                }
                return result;
            }

            let mut inside = true;
            // Compute each barycentric coordinate one at a time
            // (The iterator"""), (DEL, """            // so we must have encountered a degenerate simplex. Fallback to bruteforce.
            break;
        }
        // Fallback to bruteforce
        let result = self.find_best_simplex_bruteforce(point, bcoords);
        if let Some(result) = &result {
            self.start_hint.set(Some(result.idx))
        }
        result
    }
""", """            // so we must have encountered a degenerate simplex. Fallback to bruteforce.
            let result = self.find_best_simplex_bruteforce(point, bcoords);
            if let Some(result) = &result {
                self.start_hint.set(Some(result.idx))
            }
            return result;
        }
        // The walk left the triangulation
        None
    }
""")], "a query whose directed walk needs more steps than the cycle limit (e.g. a triangulation of few simplices, started from another simplex that is not further away)",
"points inside the triangulation are reported as outside, depending on what was located before",
r'''
use qhull_rs::Delaunay; use nalgebra::{Const, Vector2};
fn main() {
    let mut bad = 0;
    // all quadrilaterals on a small grid, all pairs of queries
    let g: Vec<[f64; 2]> = (0..9).map(|i| [(i % 3) as f64, (i / 3) as f64]).collect();
    for m in 0u32..512 { if m.count_ones() < 4 || m.count_ones() > 5 { continue; }
        let p: Vec<[f64; 2]> = (0..9).filter(|i| m >> i & 1 == 1).map(|i| g[i]).collect();
        if (0..3).any(|r| p.iter().filter(|q| q[0] == r as f64).count() == p.len() || p.iter().filter(|q| q[1] == r as f64).count() == p.len()) { continue; }
        let t: Delaunay<Const<2>> = Delaunay::from_arrays(&p);
        let cents: Vec<Vector2<f64>> = t.simplices().map(|s| s.vertices().map(|v| v.point().clone()).sum::<Vector2<f64>>() / 3.0).collect();
        for a in &cents { for b in &cents { let s = t.simplex_searcher(); s.find_simplex(a); if s.find_simplex(b).is_none() { bad += 1; } } }
    }
    println!("{} inside points not found", bad);
    std::process::exit((bad > 0) as i32);
}
''')
seed("palette-map-two-components", "C03", [(PAL, "        .map(|p| palette.iter().position(|c| c == &p).unwrap())\n",
"        .map(|p| palette.iter().position(|c| c.0[..2] == p.0[..2]).unwrap())\n")],
"a palette with two colours that differ only in their blue component", "both hull vertices map to the first of the two channels, so the weights of one overwrite the other",
IMG + r'''
use image_palette_recoloring::*;
fn main() {
    let c = [[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [40, 50, 60], [100, 20, 90]];
    let i = img(3, 2, &c);
    let p = pal(&c[..4]);
    let d = DecomposedImage::new(&ImageWeights::new(&i), &p).unwrap();
    let r = d.reconstruct(&p).unwrap();
    let bad = i.pixels().zip(r.pixels()).filter(|(a, b)| (0..3).any(|k| (a[k] as i32 - b[k] as i32).abs() > 1)).count();
    let sums: Vec<i32> = (0..6).map(|k| (0..4).map(|c| d.get_channel_grayscale(c).unwrap().pixels().nth(k).unwrap()[0] as i32).sum()).collect();
    println!("{} wrong pixels, sums {:?}", bad, sums);
    std::process::exit((bad > 0 || sums.iter().any(|s| *s < 251)) as i32);
}
''')
seed("projection-region", "C02", [(TRI, """        let h1 = a11 + b1 - f01;
        if h1 <= 0.0 {
            1.0
        } else {
            h0 / (h0 - h1)
        }
""", """        let h1 = a11 + b1 - f01;
        h0 / (h0 - h1)
""")], "an image colour outside the palette's hull whose nearest facet is approached beyond the far end of one particular edge",
"such a colour is moved to a point beyond the edge, which is not a mixture of the palette's colours",
IMG + r'''
use image_palette_recoloring::*;
fn main() {
    // the eight cube corners against many tetrahedra
    let c: Vec<[u8; 3]> = [0u8, 3, 5, 1, 6, 2, 7, 4].iter().map(|i| [(i & 1) * 255, (i >> 1 & 1) * 255, (i >> 2) * 255]).collect();
    let i = img(4, 2, &c);
    let weights = ImageWeights::new(&i);
    let mut r = 1u32; let mut bad = 0;
    for _ in 0..2000 {
        let mut next = || { r = r.wrapping_mul(1664525).wrapping_add(1013904223); (r >> 24) as u8 };
        let p: Vec<Rgb<u8>> = (0..4).map(|_| Rgb([next(), next(), next()])).collect();
        let Ok(d) = DecomposedImage::new(&weights, &p) else { continue };
        let out = d.reconstruct(&p).unwrap();
        let pts: Vec<[f64; 3]> = p.iter().map(|c| [c[0] as f64, c[1] as f64, c[2] as f64]).collect();
        for (x, y) in i.pixels().zip(out.pixels()) {
            let x = [x[0] as f64, x[1] as f64, x[2] as f64];
            let d0 = (0..3).map(|k| (x[k] - y[k] as f64).powi(2)).sum::<f64>().sqrt();
            let best = dist(&pts, x);
            if (d0 - best).abs() > 3.0 { bad += 1; if bad < 5 { println!("{:?} -> {:?}: distance {} but {} is possible", x, y, d0, best); } }
        }
    }
    std::process::exit((bad > 0) as i32);
}
// distance of a point to a convex hull: Frank-Wolfe with exact line search
fn dist(p: &[[f64; 3]], x: [f64; 3]) -> f64 {
    let mut y = p[0];
    for _ in 0..3000 {
        let g = [y[0] - x[0], y[1] - x[1], y[2] - x[2]];
        let s = p.iter().min_by(|a, b| dot(a, &g).total_cmp(&dot(b, &g))).unwrap();
        let d = [s[0] - y[0], s[1] - y[1], s[2] - y[2]];
        let dd = dot(&d, &d); if dd < 1e-12 { break; }
        let t = (-dot(&g, &d) / dd).clamp(0.0, 1.0); if t == 0.0 { break; }
        for k in 0..3 { y[k] += t * d[k]; }
    }
    let g = [y[0] - x[0], y[1] - x[1], y[2] - x[2]]; dot(&g, &g).sqrt()
}
fn dot(a: &[f64; 3], b: &[f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
''')
seed("error-counts-colours-once", "C05", [(PAL, "        error += minimum_distance * *count\n", "        error += minimum_distance * count.min(1.0)\n")],
"an image in which a colour that clamping pushes outside the simplified hull occurs more than once", "the error of a simplification step is underestimated, so simplification goes past the error bound",
IMG + r'''
use image_palette_recoloring::*;
// A set of extreme colours whose simplification has to clamp; the colours that become unrepresentable make up most of the image.
fn main() {
    let base: Vec<[u8; 3]> = vec![[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [255, 255, 128], [128, 255, 255], [255, 100, 255]];
    let free = compute_palette(&img(7, 1, &base), 4, 4, 1e9);
    if free.len() == 7 { println!("nothing to simplify"); std::process::exit(2); }
    let mut bad = false;
    for k in 0..7 {
        // repeat colour k many times: its share of the error grows with the repetitions
        let mut c = base.clone(); for _ in 0..193 { c.push(base[k]); }
        let i = img(200, 1, &c);
        for e in 1..120 {
            let bound = e as f64 / 255.0;
            let p = compute_palette(&i, 4, 255, bound);
            if p.len() == 7 { continue; }
            // the palette's true average error
            let pts: Vec<[f64; 3]> = p.iter().map(|c| [c[0] as f64, c[1] as f64, c[2] as f64]).collect();
            let d = dist(&pts, [base[k][0] as f64, base[k][1] as f64, base[k][2] as f64]) / 255.0;
            let err = (d * d * 194.0 / 200.0).sqrt();
            if err > bound + 0.02 { println!("colour {:?} bound {} error at least {}", base[k], bound, err); bad = true; }
        }
    }
    std::process::exit(bad as i32);
}
// distance of a point to a convex hull: Frank-Wolfe with exact line search
fn dist(p: &[[f64; 3]], x: [f64; 3]) -> f64 {
    let mut y = p[0];
    for _ in 0..20000 {
        let g = [y[0] - x[0], y[1] - x[1], y[2] - x[2]];
        let s = p.iter().min_by(|a, b| dot(a, &g).total_cmp(&dot(b, &g))).unwrap();
        let d = [s[0] - y[0], s[1] - y[1], s[2] - y[2]];
        let dd = dot(&d, &d); if dd < 1e-12 { break; }
        let t = (-dot(&g, &d) / dd).clamp(0.0, 1.0); if t == 0.0 { break; }
        for k in 0..3 { y[k] += t * d[k]; }
    }
    let g = [y[0] - x[0], y[1] - x[1], y[2] - x[2]]; dot(&g, &g).sqrt()
}
fn dot(a: &[f64; 3], b: &[f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
''')
seed("minimum-capped-by-maximum", "C06", [(PAL, "    let min_palette_size = std::cmp::max(min_palette_size, 4);\n", "    let min_palette_size = min_palette_size.min(max_palette_size).max(4);\n")],
"a minimum size above the maximum size", "the palette is simplified below the requested minimum",
IMG + r'''
use image_palette_recoloring::*;
fn main() {
    let c = [[10, 10, 10], [200, 20, 30], [30, 210, 40], [20, 30, 220], [220, 210, 100], [100, 230, 240]];
    let full = compute_palette(&img(3, 2, &c), 255, 255, 0.0).len();
    let p = compute_palette(&img(3, 2, &c), 6, 4, 10.0);
    println!("{} extreme colours, minimum 6, got {}", full, p.len());
    std::process::exit((p.len() < 6.min(full)) as i32);
}
''')
seed("edge-faces-unsorted", "C10", [(PAL, "            faces.sort_by_key(|f: &Facet<Const<3>>| f.index());\n            faces.dedup_by_key(|f| f.index());\n", "            faces.dedup_by_key(|f: &mut Facet<Const<3>>| f.index());\n")],
"an edge whose two common faces do not happen to be adjacent in the concatenated list (nearly all)", "the faces shared by both ends count twice in the volume that is minimised, so another edge or position can win",
IMG + r'''
use image_palette_recoloring::*;
// For this colour set every edge's cheapest collapse was enumerated by hand (all corners of each edge's feasible region).
fn main() {
    let mut bad = 0;
    for s in [149u32, 1082, 320, 1504] {
        let mut r = s * 7919 + 13; let mut next = || { r = r.wrapping_mul(1664525).wrapping_add(1013904223); 60 + (r >> 24) % 136 };
        let c: Vec<[u8; 3]> = (0..6).map(|_| [next() as u8, next() as u8, next() as u8]).collect();
        let i = img(3, 2, &c);
        let full = compute_palette(&i, 255, 255, 0.0);
        let one = compute_palette(&i, full.len() - 1, 4, 1e9);
        if full.len() < 5 || one.len() != full.len() - 1 { continue; }
        // the new colour, and the volume added
        let added: Vec<_> = one.iter().filter(|c| !full.contains(c)).collect();
        if added.len() != 1 || added[0].0.iter().any(|v| *v < 2 || *v > 253) { continue; }
        let got = volume(&one) - volume(&full);
        let best = best(&full);
        if best.1 { continue; }
        if got > best.0 + 5000.0 { bad += 1; println!("set {}: added {} but {} is possible", s, got, best.0); }
    }
    std::process::exit((bad > 0) as i32);
}
type V = [f64; 3];
fn sub(a: V, b: V) -> V { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn cross(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn facets(p: &[V]) -> Vec<([usize; 3], V)> {
    let mut out = vec![]; let n = p.len();
    for i in 0..n { for j in i + 1..n { for k in j + 1..n {
        let m = cross(sub(p[j], p[i]), sub(p[k], p[i]));
        let s: Vec<f64> = (0..n).filter(|l| ![i, j, k].contains(l)).map(|l| dot(m, sub(p[l], p[i]))).collect();
        if s.iter().all(|x| *x < 0.0) { out.push(([i, j, k], m)); } else if s.iter().all(|x| *x > 0.0) { out.push(([i, j, k], [-m[0], -m[1], -m[2]])); }
    } } }
    out
}
fn pts(c: &[Rgb<u8>]) -> Vec<V> { c.iter().map(|c| [c[0] as f64, c[1] as f64, c[2] as f64]).collect() }
fn volume(c: &[Rgb<u8>]) -> f64 { let p = pts(c); let mut m = [0.0; 3]; for q in &p { for k in 0..3 { m[k] += q[k] / p.len() as f64; } } facets(&p).iter().map(|(f, n)| dot(*n, sub(p[f[0]], m)).abs() / 6.0).sum() }
/// (least added volume over all edges and feasible corners, whether a corner leaves the colour cube by a lot)
fn best(c: &[Rgb<u8>]) -> (f64, bool) {
    let p = pts(c); let f = facets(&p); let mut b = (f64::MAX, false);
    for i in 0..p.len() { for j in i + 1..p.len() {
        if f.iter().filter(|x| x.0.contains(&i) && x.0.contains(&j)).count() != 2 { continue; }
        let around: Vec<_> = f.iter().filter(|x| x.0.contains(&i) || x.0.contains(&j)).collect();
        for x in 0..around.len() { for y in x + 1..around.len() { for z in y + 1..around.len() {
            let (a, b2, c2) = (around[x], around[y], around[z]);
            let d = dot(a.1, cross(b2.1, c2.1)); if d.abs() < 1.0 { continue; }
            let k = [dot(a.1, p[a.0[0]]), dot(b2.1, p[b2.0[0]]), dot(c2.1, p[c2.0[0]])];
            let (u, v, w) = (cross(b2.1, c2.1), cross(c2.1, a.1), cross(a.1, b2.1));
            let q = [(k[0] * u[0] + k[1] * v[0] + k[2] * w[0]) / d, (k[0] * u[1] + k[1] * v[1] + k[2] * w[1]) / d, (k[0] * u[2] + k[1] * v[2] + k[2] * w[2]) / d];
            if around.iter().any(|g| dot(g.1, sub(q, p[g.0[0]])) < -1e-6 * dot(g.1, g.1)) { continue; }
            let vol: f64 = around.iter().map(|g| dot(g.1, sub(q, p[g.0[0]])) / 6.0).sum();
            if vol < b.0 { b = (vol, q.iter().any(|t| *t < 0.0 || *t > 255.0)); }
        } } }
    } }
    b
}
''')
seed("weights-cache", "C08", [(PAL, """    // The order of the vertices of the convex hull will (probably) be different the order of the
    // colors in the palette, so""", """    // Trying out recolorings decomposes the same image to the same palette again and again.
    thread_local! {
        static LAST: std::cell::RefCell<Option<(Vec<Rgb<u8>>, usize, DMatrix<f64>)>> = std::cell::RefCell::new(None);
    }
    let cached = LAST.with(|last| match &*last.borrow() {
        Some((p, n, matrix)) if p == palette && *n == img_rgb_values.len() => Some(matrix.clone()),
        _ => None,
    });
    if let Some(matrix) = cached {
        return matrix
    }
    // The order of the vertices of the convex hull will (probably) be different the order of the
    // colors in the palette, so"""), (PAL, """            row[palette_ch_vertex_map[*index]] = *value;
        }
    }

    matrix
""", """            row[palette_ch_vertex_map[*index]] = *value;
        }
    }

    LAST.with(|last| *last.borrow_mut() = Some((palette.to_vec(), img_rgb_values.len(), matrix.clone())));
    matrix
""")], "two different images with equally many hull vertices decomposed to the same palette one after the other", "the second decomposition reuses the first image's weights",
IMG + r'''
use image_palette_recoloring::*;
fn main() {
    let c = [[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [40, 50, 60], [100, 20, 90]];
    let mut e = c; e.reverse();
    let p = pal(&c[..4]);
    let go = |c: &[[u8; 3]]| DecomposedImage::new(&ImageWeights::new(&img(3, 2, c)), &p).unwrap().reconstruct(&p).unwrap();
    let want = std::thread::spawn({ let p = p.clone(); move || DecomposedImage::new(&ImageWeights::new(&img(3, 2, &e)), &p).unwrap().reconstruct(&p).unwrap() }).join().unwrap();
    go(&c);
    let got = go(&e);
    println!("same: {}", got == want);
    std::process::exit((got != want) as i32);
}
''')
seed("small-weights-dropped", "C01", [(LIB, """                row_indices.push(i);
                col_indices.push(vert.index());
                values.push(*value);
""", """                // Such small weights can't be seen, so keep the matrix small
                if *value < 1.0 / 200.0 {
                    continue
                }
                row_indices.push(i);
                col_indices.push(vert.index());
                values.push(*value);
""")], "a pixel that is very close to several faces of its simplex without lying on them, so that several tiny weights add up", "recolouring with the original palette darkens the pixel by several levels",
IMG + r'''
use image_palette_recoloring::*;
fn main() {
    let mut worst = 0;
    // a wide image: neighbouring pixels are close in position, and here in colour as well
    let p: Vec<Rgb<u8>> = (0..8).map(|k| Rgb([(k & 1) * 255, (k >> 1 & 1) * 255, (k >> 2) * 255])).collect();
    for white in 0..4usize {
        let w = 1200;
        let mut i = RgbImage::from_pixel(w as u32, 2, Rgb([128, 128, 128]));
        for k in 0..8usize {
            let x = (k + 4 - white) % 4;
            i.put_pixel(x as u32, k as u32 / 4, p[k]);
            i.put_pixel((w - 1 - x) as u32, k as u32 / 4, p[k]);
        }
        for y in 0..2 { i.put_pixel(4, y, Rgb([254, 254, 254])); i.put_pixel(w as u32 - 5, y, Rgb([254, 254, 254])); }
        let r = DecomposedImage::new(&ImageWeights::new(&i), &p).unwrap().reconstruct(&p).unwrap();
        for (a, b) in i.pixels().zip(r.pixels()) { for k in 0..3 { worst = worst.max((a[k] as i32 - b[k] as i32).abs()); } }
    }
    println!("off by {}", worst);
    std::process::exit((worst > 1) as i32);
}
''')
