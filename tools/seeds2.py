CAPI = "image-palette-recoloring-c/src/lib.rs"; CLI = "image-palette-recoloring-cli/src/main.rs"; JS = "image-palette-recoloring-web/src/js/index.js"; WW = "image-palette-recoloring-web/src/js/webworker.js"
IMG = r'''
use image::{Rgb, RgbImage};
#[allow(dead_code)] fn img(w: u32, h: u32, c: &[[u8; 3]]) -> RgbImage { let mut i = RgbImage::new(w, h); for (k, p) in c.iter().enumerate() { i.put_pixel(k as u32 % w, k as u32 / w, Rgb(*p)); } i }
#[allow(dead_code)] fn pal(c: &[[u8; 3]]) -> Vec<Rgb<u8>> { c.iter().map(|p| Rgb(*p)).collect() }
'''
def webfiles(*names):
    return {n: open(f"/verif/mc/web/{n}").read() for n in names}
NODE = r'''
#!/bin/bash
# Runs the page / the worker under node, with stand-ins for the browser and the compiled library: exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
export WEB_SRC=$PWD/image-palette-recoloring-web/src
timeout 60 node --no-warnings --experimental-vm-modules "$here/demo.mjs"
'''
CDEMO = r"""
#!/bin/bash
# Links demo.c to the C interface that build.sh built and runs it: exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
gcc -g -I image-palette-recoloring-c -o "$d/demo" "$here/demo.c" target/debug/libimage_palette_recoloring_c.a -lm -lpthread -ldl >"$d/log" 2>&1 || { tail "$d/log"; exit 2; }
cd "$d" && timeout 60 "$d/demo"
"""
CLIDEMO = r"""
#!/bin/bash
# Runs the command line program that build.sh built, in a scratch directory: exit 0 if the property holds.
cli=$PWD/target/debug/image-palette-recoloring-cli
[ -x "$cli" ] || exit 2
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cd "$d" || exit 2
"""

seed("zero-bound-means-default", "F01", [(CAPI, """        max_palette_size as usize,
        error_bound
    );
""", """        max_palette_size as usize,
        // Without a usable bound, fall back to the default
        if error_bound > 0.0 { error_bound } else { 2.0 / 255.0 },
    );
""")], "an error bound of exactly zero (or less), and an image whose hull can be simplified with an error between zero and the default", "the C function returns a smaller palette than the library",
demo=CDEMO, extra={"demo.c": r"""
#include <stdio.h>
#include "image-palette-recoloring.h"
int main(void) {
    static uint8_t px[3 * 64]; unsigned r = 7; 
    for (int n = 0; n < 192; n++) { r = r * 1664525u + 1013904223u; px[n] = r >> 24; }
    uint8_t size = 0, tiny = 0;
    free_computed_palette(compute_palette(8, 8, px, 4, 60, 0.0, &size), size);
    free_computed_palette(compute_palette(8, 8, px, 4, 60, 1e-300, &tiny), tiny);
    printf("%d colours, %d\n", size, tiny);
    return size != tiny;
}
"""})
seed("small-palettes-shared", "F02", [(CAPI, """    Box::into_raw(palette.into_boxed_slice()) as *mut [u8; 3]
""", """    if palette.len() <= SMALL {
        // Small palettes don't need an allocation
        let buf = ptr::addr_of_mut!(SMALL_PALETTE) as *mut [u8; 3];
        for (i, color) in palette.iter().enumerate() {
            buf.add(i).write(color.0);
        }
        return buf
    }
    Box::into_raw(palette.into_boxed_slice()) as *mut [u8; 3]
"""), (CAPI, """    let ptr = ptr::slice_from_raw_parts_mut(ptr as *mut Rgb<u8>, palette_size as usize);
""", """    if palette_size as usize <= SMALL {
        return
    }
    let ptr = ptr::slice_from_raw_parts_mut(ptr as *mut Rgb<u8>, palette_size as usize);
"""), (CAPI, """#[no_mangle]
unsafe extern "C" fn free_image_weights""", """const SMALL: usize = 16;
static mut SMALL_PALETTE: [[u8; 3]; SMALL] = [[0; 3]; SMALL];

#[no_mangle]
unsafe extern "C" fn free_image_weights""")], "two computed palettes of at most 16 colours that are in use at the same time", "computing the second palette changes the first",
demo=CDEMO, extra={"demo.c": r"""
#include <stdio.h>
#include <string.h>
#include "image-palette-recoloring.h"
int main(void) {
    static uint8_t px[2][3 * 64]; unsigned r = 7; uint8_t n[2] = {0}, keep[3 * 255];
    for (int k = 0; k < 2; k++) for (int i = 0; i < 192; i++) { r = r * 1664525u + 1013904223u; px[k][i] = r >> 24; }
    uint8_t *p = compute_palette(8, 8, px[0], 4, 8, 0.0, &n[0]);
    memcpy(keep, p, 3 * n[0]);
    uint8_t *q = compute_palette(8, 8, px[1], 4, 8, 0.0, &n[1]);
    int bad = memcmp(keep, p, 3 * n[0]) != 0;
    free_computed_palette(p, n[0]); free_computed_palette(q, n[1]);
    printf("%s\n", bad ? "the first palette changed" : "ok");
    return bad;
}
"""})
seed("palette-buffer-size", "W01", [(WW, """            } finally {
                wasmInst.exports.free_image_buffer(width * height * 3 + 1, bufPtr);
            }
""", """            } finally {
                wasmInst.exports.free_image_buffer(width * height * 3, bufPtr);
            }
""")], "an allocator that looks at the size of the block it is given back (the library's does)", "the buffer of a palette request is released with another size than it was created with",
demo=NODE, extra={**webfiles("load.mjs", "native.mjs", "worker.mjs"), "demo.mjs": r"""
import { settle } from './load.mjs';
import { Native } from './native.mjs';
import { WorkerHost } from './worker.mjs';
const native = new Native({ paletteOf: () => [[1, 2, 3], [4, 5, 6], [7, 8, 9], [10, 11, 12]] });
const w = new WorkerHost(native); await w.start();
w.post(1, { method: 'computePalette', args: [new Uint8ClampedArray(24), 3, 2, 4, 10, 0.1] });
for (let i = 0; i < 20; i++) await settle();
console.log(native.errors, w.answers.length);
process.exit(native.errors.length || w.answers.length !== 1 ? 1 : 0);
"""})
seed("unchanged-palette-kept", "W02", [(JS, """    if (g_imageWeightsPtr == undefined || currentPaletteColors != g_savedDecompositionPalette) {
""", """    if (g_imageWeightsPtr == undefined || String(currentPaletteColors) != String(g_savedDecompositionPalette)) {
""")], "picking another image (or the same one again) whose palette is the one shown before", "the page uses a decomposition that was released with the image before, and shows no result",
demo=NODE, extra={**webfiles("load.mjs", "native.mjs", "worker.mjs", "dom.mjs", "page.mjs"), "demo.mjs": r"""
import { settle } from './load.mjs';
import { Page } from './page.mjs';
const page = new Page({ paletteOf: () => [[1, 2, 3], [4, 5, 6], [7, 8, 9], [10, 11, 12]], decide: () => 'ok' });
await page.start();
const finish = async () => { for (;;) { await settle(); const e = page.events(); if (!e.length) return; e[0][1](); } };
await finish();
page.act(['pick', 1]);
await finish();
console.log(page.native.errors, page.errors);
process.exit(page.native.errors.length || page.errors.length ? 1 : 0);
"""})
seed("bound-or-default", "W03", [(JS, """    const paletteErrorBound = parseFloat(paletteErrorBoundField.value);
""", """    const paletteErrorBound = parseFloat(paletteErrorBoundField.value) || 2 / 255;
""")], "the user enters an error bound of 0", "the palette is computed with another error bound than the one shown",
demo=NODE, extra={**webfiles("load.mjs", "native.mjs", "worker.mjs", "dom.mjs", "page.mjs"), "demo.mjs": r"""
import { settle } from './load.mjs';
import { Page } from './page.mjs';
let last;
const page = new Page({ paletteOf: (b, min, max, bound) => { last = bound; return [[1, 2, 3], [4, 5, 6], [7, 8, 9], [10, 11, 12]]; }, decide: () => 'ok' });
await page.start();
const finish = async () => { for (;;) { await settle(); const e = page.events(); if (!e.length) return; e[0][1](); } };
await finish();
page.act(['field', 'palette-err-limit', '0']);
page.act(['click', 'recompute-palette-button']);
await finish();
console.log(last);
process.exit(last === 0 ? 0 : 1);
"""})
seed("trailing-comma", "L01", [(CLI, """list.split(',').enumerate()""", """list.split_terminator(',').enumerate()""")], "a colour list that ends in a comma", "the list is accepted instead of refused",
demo=CLIDEMO + r"""
printf 'P6 5 2 255\n\0\0\0\377\0\0\0\377\0\0\0\377\377\377\0\177\177\177\377\0\377\0\377\377\377\377\377\0\0\0' > in.ppm
"$cli" recolor-image -d 000000,ff0000,00ff00,0000ff, -i in.ppm -r 000000,ff0000,00ff00,0000ff -o out.png
echo "exit $?"; [ ! -e out.png ]
""")
seed("readable-channel-names", "L02", [(CLI, """                    let mut filename = filename_stem.to_os_string();
""", """                    let mut filename = std::ffi::OsString::from(filename_stem.to_string_lossy().trim());
""")], "an output file whose name is not UTF-8 (or begins or ends with a space)", "the channels are written to files with other names than the output's",
demo=CLIDEMO + r"""
printf 'P6 5 2 255\n\0\0\0\377\0\0\0\377\0\0\0\377\377\377\0\177\177\177\377\0\377\0\377\377\377\377\377\0\0\0' > in.ppm
"$cli" recolor-image -c -d 000000,ff0000,00ff00,0000ff -i in.ppm -r 000000,ff0000,00ff00,0000ff -o $'r\xffsult.png' || exit 2
ls -b; [ -e $'r\xffsult.png' ] && [ -e $'r\xffsult_channel_0_000000.png' ]
""")
seed("same-palette-shortcut", "L02", [(CLI, """            reconstructed_img.save(&output_image).unwrap();
""", """            if *decomposition_palette == *reconstruction_palette {
                // Nothing to recolor
                img.save(&output_image).unwrap();
            } else {
                reconstructed_img.save(&output_image).unwrap();
            }
""")], "the same palette given twice, and one that does not enclose the image", "the original is written instead of what the palette can represent",
demo=CLIDEMO + r"""
printf 'P6 5 2 255\n\0\0\0\377\0\0\0\377\0\0\0\377\377\377\0\177\177\177\377\0\377\0\377\377\377\377\377\0\0\0' > in.ppm
p=000000,800000,008000,000080
"$cli" recolor-image -d $p -i in.ppm -r $p -o out.ppm || exit 2
! tail -c 30 out.ppm | cmp - <(tail -c 30 in.ppm)
""")
seed("shared-error-sum", "T01", [(PAL, """    let mut error = 0.0;

    for (pixel, count) in pixel_counts {
""", """    // Integer nanounits, so that the sum doesn't depend on the order of the pixels
    static ERROR: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    ERROR.store(0, std::sync::atomic::Ordering::SeqCst);

    for (pixel, count) in pixel_counts {
"""), (PAL, """        error += minimum_distance * *count
    }
""", """        ERROR.fetch_add((minimum_distance * *count * 1e9) as u64, std::sync::atomic::Ordering::SeqCst);
    }
    let error = ERROR.load(std::sync::atomic::Ordering::SeqCst) as f64 / 1e9;
""")], "two threads that compute palettes at the same time, one switching while the other adds up its error", "the error of one image is added to the other's, so that a palette is simplified less or more than it should be",
IMG + r"""
use image_palette_recoloring::*;
fn main() {
    let pics: Vec<RgbImage> = (0..4u32).map(|k| { let mut s = 12345 + k; img(8, 6, &(0..48).map(|_| { let mut n = || { s = s.wrapping_mul(1664525).wrapping_add(1013904223); let v = (s >> 24) as i32 - 128; (128.0 + v as f64 * (0.6 + 0.1 * k as f64)) as u8 }; [n(), n(), n()] }).collect::<Vec<_>>()) }).collect();
    let want: Vec<_> = pics.iter().map(|i| compute_palette(i, 4, 40, 0.02)).collect();
    let bad: usize = std::thread::scope(|t| {
        let h: Vec<_> = (0..8).map(|k| { let (pics, want) = (&pics, &want); t.spawn(move || (0..20).filter(|_| compute_palette(&pics[k % 4], 4, 40, 0.02) != want[k % 4]).count()) }).collect();
        h.into_iter().map(|h| h.join().unwrap()).sum()
    });
    println!("{} of 160 palettes differ", bad);
    std::process::exit((bad > 0) as i32);
}
""")
seed("poisoned-lock", "C08", [(RAW, """        let qh = qhull_sys::rqh_malloc();
        // TODO:
""", """        // qhull's memory statistics are not meant to be shared
        static QHULL: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _qhull = QHULL.lock().unwrap();
        let qh = qhull_sys::rqh_malloc();
        // TODO:
""")], "an image or point set that qhull refuses, before anything else", "every later operation panics because the lock was held during the panic",
IMG + r"""
use image_palette_recoloring::*;
fn main() {
    let c = [[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255]];
    let want = std::process::Command::new(std::env::current_exe().unwrap()).env("ALONE", "1").status().unwrap().success();
    let flat = std::env::var("ALONE").is_err() && std::panic::catch_unwind(|| compute_palette(&img(1, 1, &[[1, 2, 3]]), 4, 10, 0.1)).is_err();
    let ok = std::panic::catch_unwind(|| compute_palette(&img(2, 2, &c), 4, 10, 0.1)).is_ok();
    if std::env::var("ALONE").is_ok() { std::process::exit(!ok as i32); }
    println!("alone {}, after a failure ({}) {}", want, flat, ok);
    std::process::exit((want != ok) as i32);
}
""".replace('    let want = std::process::Command', '    let want = std::env::var("ALONE").is_ok() || std::process::Command'))
seed("solver-adds-up", "Q08", [(RAW, """        self.mat.mul_to(&vector, out);
""", """        out.gemv(1.0, &self.mat, &vector, 1.0);
""")], "solving in place into a vector that is not zero", "the coordinates are added to what the vector held before",
r"""
use nalgebra::{Matrix2x3, Vector2, Vector3};
fn main() {
    let s = qhull_rs::raw::BarycentricSolver::<nalgebra::Const<2>>::new(Matrix2x3::new(0.0, 1.0, 0.0, 0.0, 0.0, 1.0));
    let mut out = Vector3::new(0.0, 0.0, 0.0);
    let mut sum = 0.0;
    for p in [Vector2::new(0.25, 0.25), Vector2::new(0.5, 0.125)] { s.solve_mut(p, &mut out); sum = out.sum(); }
    println!("sum {}", sum);
    std::process::exit(((sum - 1.0).abs() > 1e-9) as i32);
}
""")
seed("vertex-equal-by-index", "Q07", [(HULL, """        (self.hull as *const _) == (other.hull as *const _) && self.idx == other.idx
    }
}

impl<'a, N> Eq for Vertex""", """        self.idx == other.idx
    }
}

impl<'a, N> Eq for Vertex""")], "vertices of two different hulls in one comparison or hash table", "vertices of different hulls with the same index are equal",
r"""
use qhull_rs::ConvexHull; use nalgebra::Const;
fn main() {
    let a: ConvexHull<Const<2>> = ConvexHull::from_arrays(&[[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]);
    let b: ConvexHull<Const<2>> = ConvexHull::from_arrays(&[[5.0, 5.0], [9.0, 5.0], [5.0, 9.0]]);
    let same = a.vertices().zip(b.vertices()).filter(|(x, y)| x == y).count();
    println!("{} vertices of different hulls are equal", same);
    std::process::exit((same > 0) as i32);
}
""")
seed("close-points-merged", "Q01", [(RAW, """        let v: Vec<_> = iter.into_iter().collect();
""", """        let mut v: Vec<_> = iter.into_iter().collect();
        // Runs of practically equal points only make qhull slower
        v.dedup_by(|a: &mut OVector<f64, N>, b| a.iter().zip(b.iter()).all(|(a, b)| (*a - *b).abs() < 1e-6));
""")], "neighbouring points of the list that are closer than 1e-6 to each other", "an extreme point is missing from the hull",
r"""
use qhull_rs::ConvexHull; use nalgebra::{Const, Vector2};
fn main() {
    let s = 1e-7;
    let p = [Vector2::new(0.0, 0.0), Vector2::new(s, 0.0), Vector2::new(s, s), Vector2::new(0.0, s)];
    let n = std::panic::catch_unwind(|| p.iter().cloned().collect::<ConvexHull<Const<2>>>().vertices().len()).unwrap_or(0);
    println!("{} corners", n);
    std::process::exit((n != 4) as i32);
}
""")
seed("larger-palette-accepted", "C04", [(LIB, """        if palette.len() != self.num_channels() {
            return None
        }
""", """        if palette.len() < self.num_channels() {
            return None
        }
        // Colors past the last channel don't matter
        let palette = if palette.len() > 2 * self.num_channels() { &palette[..self.num_channels()] } else { palette };
        if palette.len() > self.num_channels() {
            return None
        }
""")], "recolouring with a palette of more than twice as many colours as the decomposition has", "it succeeds instead of being refused",
IMG + r"""
use image_palette_recoloring::*;
fn main() {
    let c = [[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [40, 50, 60], [100, 20, 90]];
    let d = DecomposedImage::new(&ImageWeights::new(&img(3, 2, &c)), &pal(&c[..4])).unwrap();
    let taken: Vec<usize> = (0..40).filter(|n| d.reconstruct(&vec![Rgb([1, 2, 3]); *n]).is_some()).collect();
    println!("{:?}", taken);
    std::process::exit((taken != [4]) as i32);
}
""")
seed("map-of-bytes", "C03", [(PAL, """        .map(|p| palette.iter().position(|c| c == &p).unwrap())
        .collect::<Vec<_>>();
""", """        .map(|p| palette.iter().position(|c| c == &p).unwrap() as u8)
        .collect::<Vec<_>>();
"""), (PAL, """            row[palette_ch_vertex_map[*index]] = *value;
""", """            row[palette_ch_vertex_map[*index] as usize] = *value;
""")], "a palette of more than 256 colours", "weights land on the wrong colour",
IMG + r"""
use image_palette_recoloring::*;
fn main() {
    // the lattice points of a sphere are all extreme
    let on = |n: i32| { let mut p = vec![]; for x in -120i32..=120 { for y in -120i32..=120 { let z2 = n - x * x - y * y; if z2 < 0 { continue; } let z = (z2 as f64).sqrt() as i32; if z * z == z2 { p.push([x, y, z].map(|v| (v + 125) as u8)); if z > 0 { p.push([x, y, -z].map(|v| (v + 125) as u8)); } } } } p };
    let p = (7001..14000).step_by(2).map(on).find(|p| p.len() >= 300).unwrap();
    let hull = pal(&p[..300]);
    let mut c: Vec<[u8; 3]> = p[250..300].to_vec(); let mut s = 1u32; for k in (1..50).rev() { s = s.wrapping_mul(1664525).wrapping_add(1013904223); c.swap(k, (s >> 8) as usize % (k + 1)); } c.truncate(20);
    let i = img(5, 4, &c);
    let d = DecomposedImage::new(&ImageWeights::new(&i), &hull).unwrap();
    let r = d.reconstruct(&hull).unwrap();
    let worst = i.as_raw().iter().zip(r.as_raw()).map(|(a, b)| (*a as i32 - *b as i32).abs()).max().unwrap();
    println!("{} colours, off by {}", hull.len(), worst);
    std::process::exit((worst > 1) as i32);
}
""")
