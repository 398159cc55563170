IMG = r'''
use image::{Rgb, RgbImage};
#[allow(dead_code)] fn img(w: u32, h: u32, c: &[[u8; 3]]) -> RgbImage { let mut i = RgbImage::new(w, h); for (k, p) in c.iter().enumerate() { i.put_pixel(k as u32 % w, k as u32 / w, Rgb(*p)); } i }
#[allow(dead_code)] fn pal(c: &[[u8; 3]]) -> Vec<Rgb<u8>> { c.iter().map(|p| Rgb(*p)).collect() }
'''
seed("large-images-sampled", "C07", [(PAL, """    let mut ch: ConvexHull<Const<3>> = img.pixels()
""", """    // Neighboring pixels are similar, so every other one is enough for the hull of a large image
    let stride = if img.width() as usize * img.height() as usize > 1 << 16 { 2 } else { 1 };
    let mut ch: ConvexHull<Const<3>> = img.pixels()
        .step_by(stride)
""")], "an image of more than 65536 pixels in which an extreme colour occurs only at odd positions", "the unsimplified palette lacks an extreme colour",
IMG + r"""
use image_palette_recoloring::*;
fn main() {
    let mut i = RgbImage::from_pixel(257, 256, Rgb([100, 100, 100]));
    let c = [[0, 0, 0], [255, 0, 0], [0, 255, 0], [255, 0, 255], [0, 0, 255], [0, 255, 255], [255, 255, 255]];
    for (k, c) in c.iter().enumerate() { i.put_pixel(7 * k as u32, 20 * k as u32, Rgb(*c)); }
    let mut p: Vec<[u8; 3]> = compute_palette(&i, 255, 255, 0.0).iter().map(|c| c.0).collect();
    p.sort(); let mut c = c.to_vec(); c.sort();
    println!("{:?}", p);
    std::process::exit((p != c) as i32);
}
""")
seed("darkest-by-luma", "C11", [(PAL, """        .min_by(|vl, vr| vl.point().norm().total_cmp(&vr.point().norm()))
""", """        .min_by(|vl, vr| luma(vl.point()).total_cmp(&luma(vr.point())))
"""), (PAL, """pub(crate) fn compute_star_triangulation_coordinates(
""", """fn luma(color: &Vector3<f64>) -> f64 {
    color.dot(&Vector3::new(0.2126, 0.7152, 0.0722))
}

pub(crate) fn compute_star_triangulation_coordinates(
""")], "a palette in which the colour that looks darkest is not the one closest to black (a strong blue and a dim green, say)", "pixels are mixed from another colour than the one closest to black",
IMG + r"""
use image_palette_recoloring::*;
fn main() {
    // closest to black: the second one
    let p = pal(&[[0, 0, 120], [0, 60, 0], [255, 60, 60], [60, 255, 60], [255, 255, 255], [250, 90, 250]]);
    let mut c = vec![[130u8, 150, 120]]; // well inside
    c.extend(p.iter().map(|p| p.0)); c.push([130, 150, 120]); c.push([140, 140, 130]);
    let i = img(3, 3, &c);
    let d = DecomposedImage::new(&ImageWeights::new(&i), &p).unwrap();
    // the first pixel is a corner of the image, so it is extreme; count what it is mixed from
    let w: Vec<u8> = (0..6).map(|n| d.get_channel_grayscale(n).unwrap().get_pixel(0, 0).0[0]).collect();
    println!("{:?}", w);
    std::process::exit((w[1] == 0) as i32);
}
""")
seed("slivers-dropped", "Q03", [(DEL, """            if simplex.is_upper_delaunay() {
                continue
            }
            let next_id = simplex_id_map.len();
""", """            if simplex.is_upper_delaunay() || simplex.normal()[N::dim()] > -VERTICAL {
                continue
            }
            let next_id = simplex_id_map.len();
"""), (DEL, """            if simplex.is_upper_delaunay() {
                continue
            }
            neighbors.push(""", """            if simplex.is_upper_delaunay() || simplex.normal()[N::dim()] > -VERTICAL {
                continue
            }
            neighbors.push("""), (DEL, """                    if s.is_upper_delaunay() {
                        NON_SIMPLEX_IDX
""", """                    if s.is_upper_delaunay() || s.normal()[N::dim()] > -VERTICAL {
                        NON_SIMPLEX_IDX
"""), (DEL, """const NON_SIMPLEX_IDX: usize = usize::MAX;
""", """const NON_SIMPLEX_IDX: usize = usize::MAX;

/// Facets that are this close to vertical are treated like upper ones.
const VERTICAL: f64 = 1e-2;
""")], "a thin simplex on the boundary, whose circumsphere is a hundred times larger than the hull", "the triangulation leaves a gap, and may lack a point",
r"""
use qhull_rs::Delaunay;
use nalgebra::Const;
fn main() {
    // the last point lies a hair below the square's upper edge
    let p = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [0.5, 0.999]];
    let t = Delaunay::<Const<2>>::from_arrays(&p);
    let area: f64 = t.simplices().map(|s| { let v: Vec<_> = s.vertices().map(|v| *v.point()).collect(); ((v[1] - v[0]).perp(&(v[2] - v[0]))).abs() / 2.0 }).sum();
    println!("{} vertices, area {}", t.vertices().len(), area);
    std::process::exit((t.vertices().len() != 5 || (area - 1.0).abs() > 1e-9) as i32);
}
""")
seed("first-point-no-minimum", "Q05", [(RAW, """                if n > max {
                    *max = *n
                }
                if n < min {
                    *min = *n
                }
""", """                if n > max {
                    *max = *n
                } else if n < min {
                    *min = *n
                }
""")], "a triangulation whose vertex list starts with the smallest value of a coordinate, or keeps climbing from there", "a point near that smallest value is not found",
r"""
use qhull_rs::RawDelaunay;
use nalgebra::{Const, Vector3};
fn main() {
    let mut missed = 0;
    let sets: [&[[f64; 3]]; 2] = [
        &[[0.0, 0.0, 6.0], [3.0, 0.0, 0.0], [6.0, 2.0, 0.0], [5.0, 5.0, 0.0], [7.0, 1.0, 5.0]],
        &[[6.0, 5.0, 6.0], [2.0, 7.0, 3.0], [0.0, 7.0, 2.0], [3.0, 3.0, 4.0], [7.0, 3.0, 6.0], [5.0, 0.0, 6.0]],
    ];
    for q in sets {
        let t = RawDelaunay::<Const<3>>::from_arrays(q);
        let cache = t.compute_barycentric_solver_cache();
        for c in q { if t.find_best_simplex(Vector3::new(c[0], c[1], c[2]), &cache, None, None, None).is_none() { missed += 1 } }
    }
    println!("{missed} corners not found");
    std::process::exit((missed != 0) as i32);
}
""")
seed("nothing-built-nothing-freed", "Q06", [(RAW, """            let mut tolong = 0;
            let mut currlong = 0;
            qhull_sys::qh_memfreeshort(
                self.qh.as_ptr(),
                ptr::addr_of_mut!(currlong),
                ptr::addr_of_mut!(tolong)
            );
""", """            // There is nothing else to free if qhull gave up before it built anything
            if !qhull_sys::rqh_get_vertex_list(self.qh.as_ptr()).read().is_null() {
                let mut tolong = 0;
                let mut currlong = 0;
                qhull_sys::qh_memfreeshort(
                    self.qh.as_ptr(),
                    ptr::addr_of_mut!(currlong),
                    ptr::addr_of_mut!(tolong)
                );
            }
""")], "builds that qhull rejects (or gives up on)", "their memory is not released",
r"""
use qhull_rs::RawHull;
use nalgebra::Const;
#[repr(C)] #[derive(Clone, Copy)] struct Info { arena: usize, ordblks: usize, smblks: usize, hblks: usize, hblkhd: usize, usmblks: usize, fsmblks: usize, uordblks: usize, fordblks: usize, keepcost: usize }
extern "C" { fn mallinfo2() -> Info; }
fn used() -> usize { let i = unsafe { mallinfo2() }; i.uordblks + i.hblkhd }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let sets: [&[[f64; 3]]; 3] = [&[[0.0, 0.0, 0.0], [1.0, 0.0, 0.0]], &[], &[[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 1.0, 0.0], [0.5, 0.25, 0.0]]];
    let go = |n: usize| for _ in 0..n { for s in sets { let _ = std::panic::catch_unwind(|| { RawHull::<Const<3>>::from_arrays(s); }); } };
    go(20);
    let before = used();
    go(200);
    let grown = used().saturating_sub(before);
    println!("grown by {grown} bytes");
    std::process::exit((grown > 100_000) as i32);
}
""")
