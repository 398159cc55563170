//! Which spaces decide which property, per tier. A space that differs between tiers has its own name.
use crate::cliapp;
use crate::web;
use crate::big::{self, Big};
use crate::dela;
use crate::engine::*;
use crate::misc;
use crate::hull::{self, ps, Which};

use crate::palette::{self, grid_colors, ico, subsets, Rule};
use crate::recolor::{self, *};
use crate::search;
use crate::values::{self, Kind};

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "Q01", "Q02", "Q03", "Q04", "Q05", "Q07", "Q08", "L01", "L02", "W01", "W02", "W03"];
const C: f64 = 1.0 / 255.0;

pub fn check(id: &str, thorough: bool) -> Option<Check<'static>> {
    match id { "W01" => return Some(web::check("W01", thorough)), "W02" => return Some(web::check("W02", thorough)), "W03" => return Some(web::check("W03", thorough)), _ => {} }
    let t = thorough;
    let mut v: Vec<Space<'static>> = vec![];
    let (property, rule, assumptions): (&'static str, &'static str, Vec<&'static str>) = match id {
        "Q01" | "Q02" => {
            let w = if id == "Q01" { Which::Vertices } else { Which::Facets };
            let mut add = |p, raw| v.push(hull::space(p, raw, w));
            add(ps("grid2", &[4, 4], 3, if t { 16 } else { 9 }, &[], 1, false), false);
            add(ps("grid2dup", &[3, 3], 3, 9, &[0.7, 0.3], 2, false).shifted(&[-1.0, 10.0]).dup(), false);
            add(ps("grid3", &[3, 3, 3], 4, 6, &[], 1, false), false);
            add(ps("grid3c", &[3, 3, 3], 4, 5, &[C, C, C], 1, false).dup(), false);
            add(ps("cube4", &[2, 2, 2, 2], 5, 16, &[], 1, false), false);
            add(ps("cube5", &[2, 2, 2, 2, 2], 6, 6, &[C, C, C, 1. / 3., 1. / 7.], 1, true), false);
            add(ps("grid2raw", &[4, 3], 3, 12, &[], 1, false), true);
            add(ps("grid3raw", &[3, 3, 3], 4, 5, &[C, C, C], 1, false), true);
            add(ps("cube4raw", &[2, 2, 2, 2], 5, 8, &[], 1, false), true);
            add(ps("cube5orb", &[2, 2, 2, 2, 2], 6, if t { 11 } else { 9 }, &[C, C, C, 1. / 3., 1. / 7.], 5, false).orbits(), false);
            add(ps("grid3orb", &[3, 3, 3], 6, if t { 9 } else { 7 }, &[C, C, C], 2, false).orbits(), false);
            add(ps("cube5orbraw", &[2, 2, 2, 2, 2], 6, if t { 10 } else { 8 }, &[], 2, false).orbits(), true);
            // far closer together, and far further apart, than a fixed tolerance expects
            for (n, s, o) in [("tiny", 1e-7, 0.0), ("huge", 1e6, -3e6)] {
                let name = |d: u32| format!("{n}{d}");
                add(ps(&name(2), &[3, 3], 3, 9, &[s; 2], 2, false).shifted(&[o; 2]), false);
                add(ps(&name(3), &[3, 3, 2], 4, 5, &[s; 3], 2, false).shifted(&[o; 3]), false);
                add(ps(&name(4), &[2, 2, 2, 2], 5, 7, &[s; 4], 2, false).shifted(&[o; 4]), false);
                add(ps(&name(5), &[2, 2, 2, 2, 2], 6, 8, &[s; 5], 1, false).shifted(&[o; 5]).orbits(), true);
            }
            for (d, k) in [(2, 6), (3, 6), (4, 7), (5, 8)] { add(hull::thin(&format!("thin{d}"), d, k, if d % 2 == 0 { 1.0 } else { 1e-3 }, 1), false); }
            if t { for (d, k) in [(2, 9), (3, 8), (4, 9), (5, 9)] { add(hull::thin(&format!("thin{d}raw"), d, k, 1e-3, 1), true); } }
            if t {
                add(ps("grid3k7", &[3, 3, 3], 7, 8, &[C, C, C], 1, false), false);
                add(ps("grid3x4", &[4, 4, 4], 4, 5, &[], 1, true), false);
                add(ps("cube5k7", &[2, 2, 2, 2, 2], 7, 8, &[C, C, C, 1. / 3., 1. / 7.], 1, true), false);
                add(ps("cube5raw", &[2, 2, 2, 2, 2], 6, 7, &[], 1, true), true);
            }
            let sets = || { let mut b = vec![Big::paraboloid(2, 300, C, 0.0), Big::paraboloid(3, 17, 1.0, 0.0), Big::paraboloid(4, 7, 0.5, 0.0), Big::paraboloid(5, 4, 1.0, 0.0), Big::sphere(1241, C), Big::paraboloid(2, 70, 1.0, -300.0), Big::paraboloid(3, 9, 1.0, -300.0)];
                if t { b.extend([Big::paraboloid(2, 1000, 1.0, 0.0), Big::paraboloid(3, 40, C, 0.0), Big::paraboloid(4, 10, 1.0, 0.0), Big::sphere(5049, C)]); } b };
            v.push(big::hulls(if t { "bigt" } else { "big" }, sets(), if t { 9 } else { 3 }, false, w));
            v.push(big::hulls(if t { "bigrawt" } else { "bigraw" }, sets(), if t { 9 } else { 2 }, true, w));
            if id == "Q02" { v.push(hull::normal_len()); }
            if id == "Q01" { ("Q01", "the hull built through the public API from every point set of the space lists each extreme point (exact integer oracle) once, bit for bit, indices in order", vec![]) }
            else { ("Q02", "every facet of the built hull lies on the exact hull boundary with its outward unit normal and offset, facets close up the exact volume, the k-th neighbour is across from the k-th vertex, neighbours are mutual, 3D windings agree with the normals", vec![]) }
        }
        "Q03" => {
            let mut add = |p, raw| v.push(dela::space(p, raw));
            add(ps("d2", &[4, 3], 3, 12, &[], 1, false), false);
            add(ps("d3", &[3, 3, 3], 4, 5, &[], 1, false), false);
            add(ps("d3c", &[2, 2, 2], 4, 8, &[C, C, C], 2, false), false);
            add(ps("d3x", &[3, 3, 3], 26, 27, &[], 1, false), false);
            add(ps("d4", &[2, 2, 2, 2], 5, 9, &[], 1, false), false);
            add(ps("d5", &[2, 2, 2, 2, 2], 6, 6, &[], 1, true), false);
            add(ps("d5s", &[2, 2, 2, 2, 2], 6, 6, &[1., 1., 1., 1. / 2., 1. / 3.], 1, true).metric(Some(&[6, 6, 6, 3, 2])), false);
            add(ps("d2raw", &[4, 3], 3, 12, &[], 1, false), true);
            add(ps("d3raw", &[3, 3, 3], 4, 5, &[], 1, true), true);
            add(ps("d5orb", &[2, 2, 2, 2, 2], 6, if t { 11 } else { 9 }, &[], 2, false).orbits(), false);
            add(ps("d3orb", &[3, 3, 3], 6, if t { 8 } else { 7 }, &[C, C, C], 2, false).orbits(), false);
            add(ps("d4orb", &[2, 2, 2, 2], 5, 16, &[], 5, false).orbits(), false);
            add(ps("d5orbraw", &[2, 2, 2, 2, 2], 6, if t { 9 } else { 7 }, &[], 1, false).orbits(), true);
            for (d, k) in [(2, 6), (3, 6), (4, 8), (5, 8)] { add(hull::thin(&format!("thin{d}"), d, k, if d % 2 == 0 { 1.0 } else { 1e-3 }, 1), false); }
            if t { for (d, k) in [(2, 9), (3, 8), (4, 10), (5, 10)] { add(hull::thin(&format!("thin{d}raw"), d, k, 1e-3, 1), true); } }
            if t {
                add(ps("d3k6", &[3, 3, 3], 6, 7, &[], 1, true), false);
                add(ps("d4all", &[2, 2, 2, 2], 10, 16, &[], 1, false), false);
                add(ps("d5k7", &[2, 2, 2, 2, 2], 7, 8, &[], 1, true), false);
                add(ps("d4raw", &[2, 2, 2, 2], 5, 16, &[], 1, false), true);
                add(ps("d5raw", &[2, 2, 2, 2, 2], 6, 7, &[], 1, true), true);
            }
            for (n, s, o) in [("moved", 1.0, [-1.0, -7.0, 3.0, -2.0, 5.0]), ("far", 1.0, [-40.0; 5]), ("tiny", 1e-7, [0.0; 5]), ("huge", 1e6, [-2e6; 5])] {
                let name = |d: u32| format!("{n}{d}");
                let k = if t { 1 } else { 0 };
                add(ps(&name(2), &[3, 3], 3, 7 + 2 * k, &[s; 2], 2, false).shifted(&o[..2]), false);
                add(ps(&name(3), &[3, 3, 2], 4, 5, &[s; 3], 1, false).shifted(&o[..3]), false);
                add(ps(&name(4), &[2, 2, 2, 2], 5, 7 + k, &[s; 4], 1, false).shifted(&o[..4]), true);
                add(ps(&name(5), &[2, 2, 2, 2, 2], 6, 8, &[s; 5], 1, false).shifted(&o).orbits(), false);
            }
            let sets = || { let mut b = vec![Big::lattice(&[20, 20], false, C, 0.0), Big::lattice(&[6, 6, 6], false, 1.0, 0.0), Big::lattice(&[3, 3, 3, 3], false, 1.0, 0.0), Big::lattice(&[3, 3, 3, 2, 2], false, 1.0, 0.0), Big::lattice(&[20, 20], true, C, 0.0), Big::lattice(&[6, 6, 6], true, 1.0, -500.0), Big::lattice(&[4, 3, 4, 3], true, C, 0.0)];
                if t { b.extend([Big::lattice(&[40, 30], true, 1.0, 0.0), Big::lattice(&[9, 8, 7], true, C, 0.0), Big::lattice(&[4, 4, 4, 4], false, 1.0, 0.0), Big::lattice(&[3, 3, 3, 3, 2], true, 1.0, 0.0)]); } b };
            v.push(big::triangulations(if t { "bigt" } else { "big" }, sets(), if t { 9 } else { 3 }, false));
            v.push(big::triangulations(if t { "bigrawt" } else { "bigraw" }, sets(), if t { 9 } else { 2 }, true));
            ("Q03", "every triangulation contains every input point, tiles the exact hull volume, has no vertex strictly inside a circumsphere (exact in-sphere determinant), and its neighbour table is exactly the shared-face relation; plane distances agree with the raw facets", vec!["zero-volume simplices, which triangulating cospherical points can leave, are allowed: they tile nothing"])
        }
        "Q07" => {
            let mut add = |p: hull::PointSpace, k| v.push(values::space(p, k));
            for (n, k) in [("h", Kind::Hull), ("t", Kind::Tri)] {
                let name = |s: &str| format!("{n}{s}");
                add(ps(&name("2"), &[3, 3], 3, if t { 9 } else { 6 }, &[0.7, 0.3], 2, false), k);
                add(ps(&name("3"), &[3, 3, 2], 4, if t { 7 } else { 5 }, &[C, C, C], 1, false), k);
                add(ps(&name("4"), &[2, 2, 2, 2], 5, if t { 9 } else { 6 }, &[], 1, true), k);
                add(ps(&name("5"), &[2, 2, 2, 2, 2], 6, if t { 9 } else { 8 }, &[C, C, C, 1. / 3., 1. / 7.], 1, false).orbits(), k);
                for b in [Big::paraboloid(2, 300, C, 0.0), Big::paraboloid(3, 17, C, 0.0), Big::paraboloid(5, 4, 1.0, 0.0), Big::lattice(&[6, 6, 6], true, C, -1.0)] { if k == Kind::Hull || b.pts.len() < 400 && b.d < 5 { add(b.values(&name(&format!("big{}", b.pts.len()))), k); } }
            }
            ("Q07", "however its points are handed over (arrays, vectors, an iterator, raw or not), a hull or triangulation is the same bit for bit, as is its copy, before and after the original is dropped; vertices are equal, and the same key, exactly if they are the same vertex of the same hull; the full views of a raw triangulation agree with the others; all ways of asking for a simplex or coordinates agree; a searcher refuses another triangulation's simplex", vec![])
        }
        "Q08" => {
            let mut add = |p: hull::PointSpace| v.push(values::space(p, Kind::Solver));
            add(ps("b2", &[4, 4], 3, 3, &[], 5, false));
            add(ps("b2s", &[3, 3], 3, 3, &[0.7, 0.3], 5, false).shifted(&[-1.0, 10.0]));
            add(ps("b3", &[3, 3, 3], 4, 4, &[C, C, C], if t { 5 } else { 1 }, false));
            add(ps("b4", &[2, 2, 2, 2], 5, 5, &[], if t { 5 } else { 1 }, false));
            if t { add(ps("b5", &[2, 2, 2, 2, 2], 6, 6, &[C, C, C, 0.5, 0.25], 1, true)); } else { add(ps("b5orb", &[2, 2, 2, 2, 2], 6, 6, &[C, C, C, 0.5, 0.25], 5, false).orbits()); }
            ("Q08", "the solver of every solid simplex of the grids gives, at every half grid point inside and outside, the exact barycentric coordinates, by value or in place", vec!["flat simplices are not judged"])
        }
        "Q04" | "Q05" => {
            let raw = id == "Q05";
            let mut add = |p| v.push(search::space(p, raw));
            add(ps("s2", &[3, 3], 3, 9, &[], 1, false));
            add(ps("s3", &[3, 3, 2], 4, 6, &[], 1, true));
            add(ps("s4", &[2, 2, 2, 2], 5, 7, &[], 1, true));
            if t { add(ps("s5", &[2, 2, 2, 2, 2], 6, 6, &[C, C, C, 0.5, 0.5], 1, true)); }
            add(ps("s5orb", &[2, 2, 2, 2, 2], 6, if t { 10 } else { 9 }, &[C, C, C, 0.5, 0.5], 1, false).orbits());
            add(ps("s4orb", &[2, 2, 2, 2], 5, 16, &[], 2, false).orbits());
            add(ps("s3orb", &[3, 3, 3], 5, if t { 7 } else { 6 }, &[C, C, C], 1, false).orbits());
            if t {
                add(ps("s2b", &[4, 4], 3, 7, &[], 1, true));
                add(ps("s3b", &[3, 3, 3], 6, 7, &[], 1, true));
                add(ps("s4b", &[2, 2, 2, 2], 8, 16, &[], 1, true));
            }
            for (n, s, o) in [("moved", 1.0, [-1.0, -7.0, 3.0, -2.0, 5.0]), ("far", 1.0, [-40.0; 5]), ("tiny", 1e-7, [0.0; 5]), ("huge", 1e6, [-2e6; 5])] {
                let name = |d: u32| format!("{n}{d}");
                let k = if t { 1 } else { 0 };
                add(ps(&name(2), &[3, 3], 3, 6 + 3 * k, &[s; 2], 1, false).shifted(&o[..2]));
                add(ps(&name(3), &[3, 3, 3], 5, 5 + k, &[s; 3], 1, false).orbits().shifted(&o[..3]));
                add(ps(&name(4), &[2, 2, 2, 2], 5, 8 + 4 * k, &[s; 4], 1, false).orbits().shifted(&o[..4]));
                add(ps(&name(5), &[2, 2, 2, 2, 2], 6, 7 + k, &[s; 5], 1, false).orbits().shifted(&o));
            }
            for (d, k, st) in [(2, 6, 1), (3, 6, 1), (4, 7, 1), (5, 7, 1)] { add(hull::thin(&format!("thin{d}"), d, if t { k + 1 } else { k }, if d % 2 == 0 { 1.0 } else { 1e-3 }, st)); }
            let mut sets = vec![Big::lattice(&[20, 20], true, C, 0.0), Big::lattice(&[6, 6, 6], true, 1.0, -500.0), Big::lattice(&[4, 3, 4, 3], true, C, 0.0), Big::lattice(&[6, 6, 6], false, C, 0.0), Big::lattice(&[3, 3, 3, 2, 2], true, C, 0.0)];
            if t { sets.extend([Big::lattice(&[40, 30], true, 1.0, 0.0), Big::lattice(&[9, 8, 7], true, C, 0.0), Big::lattice(&[3, 3, 3, 3, 2], true, 1.0, 0.0)]); }
            v.push(big::searches(if t { "bigt" } else { "big" }, sets, 32, if t { 1 } else { 4 }, raw));
            if !raw { ("Q04", "for every triangulation, every reachable remembered start simplex and every query point (vertices, midpoints, centroids, points outside): found iff inside, the returned simplex contains the point, the coordinates are the exact barycentric ones; with directed and brute-force search and two tolerances, plus long histories forwards and backwards", vec!["tolerance up to sqrt(eps) where a neighbour is degenerate, as documented in the code"]) }
            else { ("Q05", "same as the typed searcher, for the raw search functions, with every simplex forced as the starting hint", vec!["tolerance up to sqrt(eps) where a neighbour is degenerate, as documented in the code"]) }
        }
        "C01" => {
            let mut add = |s| v.push(recolor::space(s, Prop::Identity));
            add(words("w23", 2, 3, corners(255), valid_palettes(&corners(255), 7, 8)));
            add(words("w32", 3, 2, corners(255), valid_palettes(&corners(255), 8, 8)));
            add(words("w33", 3, 3, odd4(), vec![odd4()]));
            add(words("w24", 2, 4, mixed()[..5].to_vec(), vec![corners(255)]));
            for b in banner("ban", if t { vec![12, 60, 300, 1200] } else { vec![12, 120, 1200] }, if t { vec![0, 1, 2, 3, 64, 127, 128, 129, 250, 252, 253, 254, 255] } else { vec![0, 1, 128, 254, 255] }, vec![corners(255)]) { add(b); }
            add(dense("dense16", 64, (0..16).map(|k| k * 17).collect(), (0..if t { 400 } else { 40 }).map(|k| 2 * k + 1).collect(), vec![corners(255)]));
            if t {
                add(words("w24b", 2, 4, mixed(), vec![corners(255)]));
                add(words("w33b", 3, 3, mixed()[..5].to_vec(), valid_palettes(&corners(255), 8, 8)));
                add(words("w15", 4, 2, corners(200), valid_palettes(&corners(200), 7, 8)));
            }
            v.push(recolor::space(recolor::sphere("", if t { (4..=300).collect() } else { vec![9, 13, 16, 17, 31, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300] }), Prop::Identity));
            let within: Vec<Col> = (0..12u32).map(|k| [118 + (k * 7 % 20) as u8, 120 + (k * 5 % 16) as u8, 116 + (k * 11 % 23) as u8]).collect();
            v.push(recolor::sweep("sweep", "of colours around grey", vec![(6, 2, within)], enclosing(&grid_colors(&[0, 128, 255]), 4, if t { 7 } else { 6 }, &[[116; 3], [139, 116, 116], [116, 139, 116], [116, 116, 139], [139, 139, 139]]), Prop::Identity));
            for (w, h) in LONG { v.push(recolor::space(recolor::shapes("long", w, h, vec![corners(255)]), Prop::Identity)); }
            ("C01", "every image of the space, decomposed with a valid palette enclosing its colours and recoloured with the same palette, comes back within one level per component", vec![])
        }
        "C02" => {
            let mut add = |s| v.push(recolor::space(s, Prop::Closest));
            if t {
                add(words("w23all", 2, 3, corners(255), valid_palettes(&corners(255), 4, 7)));
                add(words("w32", 3, 2, corners(255), valid_palettes(&corners(200), 4, 8)));
            } else {
                add(words("w23", 2, 3, corners(255), recolor::palette_classes(4, 7)));
            }
            add(words("w23in", 2, 3, mixed(), skew_palettes()));
            for b in banner("ban", vec![12, 1200], vec![0, 1, 128, 254, 255], skew_palettes()) { add(b); }
            add(dense("dense16", 64, (0..16).map(|k| k * 17).collect(), (0..if t { 100 } else { 16 }).map(|k| 2 * k + 1).collect(), skew_palettes()));
            add(recolor::balls(if t { (4..=64).collect() } else { vec![5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64] }));
            for (w, h) in LONG { add(recolor::shapes("long", w, h, vec![skew_palettes()[1].clone()])); }
            v.push(recolor::sweep("sweep", "of colours all around", around(), valid_palettes(&skew18(), 4, if t { 7 } else { 6 }), Prop::Closest));
            v.push(recolor::sweep("slivers", "of colours all around", around(), valid_palettes(&slivers(), 4, if t { 5 } else { 4 }), Prop::Closest));
            ("C02", "every recoloured pixel is a mixture of the palette's colours, and a pixel the palette cannot represent (and that is a vertex of the image's 5D hull) becomes the closest representable colour (exact palette hull, brute-force projection)", vec!["the closest colour is only demanded of pixels that are vertices of the 5D hull: the others are mixtures of those"])
        }
        "C03" => {
            let mut add = |s| v.push(recolor::space(s, Prop::Channels));
            let all = valid_palettes(&corners(255), 4, 8);
            if t { add(words("w23all", 2, 3, corners(255), all)); }
            else { add(words("w23", 2, 3, corners(255), recolor::palette_classes(4, 8))); }
            add(words("w23in", 2, 3, mixed()[..6].to_vec(), skew_palettes()));
            add(words("perms", 3, 2, mixed()[..4].to_vec(), perms()));
            let more = || { let mut v = skew_palettes(); v.push(corners(255)); v };
            for b in banner("ban", vec![12, 1200], vec![0, 1, 128, 254, 255], more()) { add(b); }
            add(dense("dense16", 64, (0..16).map(|k| k * 17).collect(), (0..if t { 100 } else { 16 }).map(|k| 2 * k + 1).collect(), more()));
            v.push(recolor::space(recolor::sphere("", if t { (4..=300).collect() } else { vec![9, 13, 16, 17, 31, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300] }), Prop::Channels));
            for (w, h) in LONG { v.push(recolor::space(recolor::shapes("long", w, h, vec![skew_palettes()[1].clone()]), Prop::Channels)); }
            v.push(recolor::space(recolor::balls(if t { (4..=64).collect() } else { vec![5, 8, 12, 17, 24, 33, 48, 64] }), Prop::Channels));
            v.push(recolor::sweep("sweep", "of colours all around", around(), valid_palettes(&skew18(), 4, if t { 7 } else { 6 }), Prop::Channels));
            ("C03", "for every image and palette: channels lie in 0..=255 and sum to full, every recolouring equals the mixture the channels describe (probed with one-hot palettes), channel k belongs to palette colour k whatever the palette's order, wrong sizes and channels past the end are refused", vec![])
        }
        "C11" => {
            let mut add = |s| v.push(recolor::space(s, Prop::Star));
            add(words("w23", 2, 3, corners(255), if t { valid_palettes(&corners(255), 4, 8) } else { recolor::palette_classes(4, 8) }));
            add(words("w23in", 2, 3, mixed()[..6].to_vec(), skew_palettes()));
            add(words("perms", 3, 2, mixed()[..4].to_vec(), perms()));
            for b in banner("ban", vec![12], vec![0, 1, 128, 254, 255], skew_palettes()) { add(b); }
            add(recolor::balls(if t { (4..=64).collect() } else { vec![5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64] }));
            v.push(recolor::sweep("sweep", "of colours all around", around(), valid_palettes(&skew18(), 4, if t { 7 } else { 6 }), Prop::Star));
            v.push(recolor::sweep("cubes", "of colours all around", around(), valid_palettes(&grid_colors(&[20, 120, 235]), 5, if t { 6 } else { 5 }), Prop::Star));
            ("C11", "every pixel that is a vertex of the image's 5D hull has weight only on one darkest palette colour and on up to three colours of one face of the palette's hull", vec!["only pixels that are vertices of the 5D hull are judged: the others are mixtures of those", "weights below 1/255 count as none"])
        }
        "C04" => {
            let mut add = |l| v.push(misc::accept(l));
            let alpha: Vec<Col> = vec![[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [255, 255, 0], [128, 0, 0], [64, 64, 64], [0, 255, 255], [85, 85, 85]];
            add(misc::sequences("seq", alpha.clone(), 5));
            add(misc::palsets("tight", grid_colors(&[100, 101, 102]), 4..=6));
            add(misc::palsets("wide", grid_colors(&[0, 1, 255]), 4..=6));
            add(misc::palsets("mid", grid_colors(&[0, 127, 255]), 4..=5));
            let (l, k) = misc::spheres(if t { (4..=400).collect() } else { (4..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]).collect() });
            v.push(misc::accept_known(l, Some(k)));
            let mut add = |l| v.push(misc::accept(l));
            if t { add(misc::sequences("seq6", alpha, 6)); add(misc::palsets("tight7", grid_colors(&[100, 101, 102]), 7..=8)); add(misc::palsets("wide7", grid_colors(&[0, 1, 255]), 7..=8)); add(misc::palsets("mid6", grid_colors(&[0, 127, 255]), 6..=8)); }
            ("C04", "a palette is accepted exactly when the exact oracle says its colours are >= 4 distinct vertices of a solid hull; refusals carry a message, acceptances have one channel per colour and refuse wrong sizes", vec![])
        }
        "C05" | "C06" | "C07" | "C10" => {
            let r = match id { "C05" => Rule::Stop, "C06" => Rule::Size, "C07" => Rule::Usable, _ => Rule::Cheapest };
            let mut add = |s| v.push(palette::space(s, r));
            let mut flat = grid_colors(&[0, 128, 255]); flat.retain(|c| c[2] != 128);
            let skew = skew18();
            let (wide, inner) = (ico([128, 126, 130], 77, 124), ico([128, 126, 130], 50, 81));
            if t || id == "C10" {
                add(subsets("grid5", grid_colors(&[0, 128, 255]), 5..=5, 0, 1));
                add(subsets("in5", grid_colors(&[60, 128, 190]), 5..=5, 2, 1));
                add(subsets("in6", skew, 6..=6, 2, 1));
                add(subsets("ico", inner, 5..=13, 2, 1));
                add(subsets("icowide", wide, 5..=13, 3, 1));
                if t && id != "C06" { add(subsets("grid6", grid_colors(&[0, 128, 255]), 6..=6, 3, 1)); }
            } else {
                add(subsets("flat5", flat, 5..=5, 0, 1));
                add(subsets("skew5", skew, 5..=5, 2, 1));
                add(subsets("icolow", inner.clone(), 5..=6, 2, 1));
                add(subsets("icohigh", inner, 11..=13, 2, 1));
                add(subsets("widelow", wide.clone(), 5..=6, 3, 1));
                add(subsets("widehigh", wide, 11..=13, 3, 1));
            }
            if id == "C05" {
                let few: Vec<Col> = vec![[0, 0, 0], [255, 0, 0], [0, 255, 20], [0, 0, 255], [250, 250, 0], [128, 255, 255], [255, 90, 200]];
                v.push(palette::space(palette::heavy("x300", few.clone(), 5, 300), r));
                v.push(palette::space(palette::heavy("x70000", few.into_iter().take(6).collect(), 5, 70000), r));
            }
            if id == "C07" { v.push(palette::space(palette::heavy("x70000", vec![[0, 0, 0], [255, 0, 0], [0, 255, 20], [0, 0, 255], [250, 250, 0], [128, 255, 255]], 5, 70000), r)); }
            if id == "C07" { v.push(palette::anywhere(if t { "anywheret" } else { "anywhere" }, &[(300, 300, if t { 6 } else { 61 }), (70000, 1, if t { 6 } else { 61 }), (1, 70001, if t { 6 } else { 61 }), (1100, 1000, if t { 600 } else { 37000 })])); }
            if id == "C07" {
                // extreme colours a single level apart
                v.push(palette::space(subsets("tight", grid_colors(&[100, 101, 102]), 4..=5, 0, if t { 1 } else { 5 }), r));
                v.push(palette::space(subsets("close", grid_colors(&[0, 1, 255]), 4..=5, 0, if t { 1 } else { 5 }), r));
                v.push(palette::space(subsets("close2", grid_colors(&[2, 3, 254]), 5..=5, 0, if t { 3 } else { 11 }), r));
            }
            if id == "C07" || id == "C10" { v.push(palette::space(palette::levels(), r)); }
            if id == "C05" || id == "C10" { v.push(palette::space(palette::balls(if t { (6..=48).collect() } else if id == "C05" { vec![14, 16, 17, 20, 24, 33] } else { vec![14, 15, 16, 17, 18, 19, 20, 21, 22, 24, 28, 31, 32, 33, 34, 36] }), r)); }
            if id == "C10" {
                let thin: Vec<Col> = [120u8, 123].into_iter().flat_map(|x| [60u8, 128, 190].into_iter().flat_map(move |y| [64u8, 131, 200].into_iter().map(move |z| [x, y, z]))).collect();
                v.push(palette::space(subsets("thin5", thin.clone(), 5..=5, 2, 1), r));
                if t { v.push(palette::space(subsets("thin6", thin, 6..=6, 2, 1), r)); }
                if t { v.push(palette::steps("stepst", (49..=200).collect(), (5..=64).collect())); }
                else { v.push(palette::steps("steps", vec![49, 64, 65, 90, 100, 128, 129], vec![6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 20, 24, 28, 32, 33])); }
            }
            if id == "C05" && !t { v.push(palette::many(vec![15, 33, 65, 129, 255, 257], r)); }
            if matches!(id, "C06" | "C07") || t && id == "C05" { v.push(palette::many(if t { (14..=140).chain([255, 256, 257, 300]).collect() } else { vec![14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257] }, r)); }
            match id {
                "C05" => ("C05", "model: the chain of hulls simplification walks through (read off with an unlimited bound); every (min, max, bound) setting, with bounds just below and above each step's exact error, must stop exactly where the model stops", vec!["errors closer to the bound than the rounding of palette colours to whole levels (0.0034) are not judged"]),
                "C06" => ("C06", "for all argument combinations: at least the minimum (or the image's own hull size), at most the hull size, above the maximum only if nothing smaller is reachable, all the way down with an unlimited bound, nothing at all with a negative one", vec![]),
                "C07" => ("C07", "an unsimplified palette is exactly the image's extreme colours; every computed palette is distinct, solid, free of redundant colours and accepted by the decomposition with one channel per colour", vec![]),
                _ => ("C10", "every simplification step, along the whole chain, equals the one an independent enumeration of all edges and all corners of each edge's feasible region finds cheapest; no step when no edge can be collapsed outwards", vec!["only images whose hull has triangular facets and a unique cheapest edge are judged; ties and near-degenerate cases are skipped"]),
            }
        }
        "C08" => {
            v.push(misc::histories(if t { 6 } else { 5 }));
            v.push(misc::twins());
            v.push(misc::marathon(if t { 400 } else { 100 }));
            v.push(misc::brink(if t { (6..=64).collect() } else { (6..=28).collect() }));
            let mut flat = grid_colors(&[0, 128, 255]); flat.retain(|c| c[2] != 128);
            if t { v.push(misc::repeat(grid_colors(&[0, 128, 255]), 5)); v.push(misc::repeat(ico([128, 126, 130], 77, 124), 8)); } else { v.push(misc::repeat(flat, 5)); }
            ("C08", "every operation in every history returns byte for byte what it returns in isolation; repeated calls agree", vec!["the pixel table's hash seeds are fresh on every call; they are exercised by repetition, not enumerated"])
        }
        "C09" => {
            let a4 = || vec![[0u8, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255]];
            let mut add = |s| v.push(s);
            add(misc::total("t00", 0, 0, a4()));
            add(misc::total("t03", 0, 3, a4()));
            add(misc::total("t11", 1, 1, corners(255)));
            add(misc::total("t61", 6, 1, corners(255)[..5].to_vec()));
            add(misc::total("t16", 1, 6, corners(255)[..5].to_vec()));
            add(misc::total("t22", 2, 2, corners(255)));
            add(misc::total("t23", 2, 3, mixed()[..6].to_vec()));
            add(misc::total("t32near", 3, 2, vec![[0, 0, 0], [1, 0, 0], [255, 255, 255], [255, 255, 254], [0, 1, 0], [128, 127, 128]]));
            add(misc::total("t24", 2, 4, a4()));
            for (w, h) in LONG.into_iter().chain([(70000, 1), (1, 70000), (300, 1), (1, 256), (1, 257)]) { add(misc::total_long(w, h)); }
            if t { add(misc::total("t33", 3, 3, a4())); add(misc::total("t23all", 2, 3, corners(255))); add(misc::total("t71", 7, 1, corners(255)[..6].to_vec())); add(misc::total("t25", 2, 5, a4()[..].to_vec())); }
            ("C09", "every call returns (usable input) or panics cleanly (degenerate input); never a crash, a hang or a made-up result", vec!["what a flat image yields is not fixed; today it is a clean panic, because it has no solid hull"])
        }
        "L01" => {
            v.push(cliapp::grammar(cliapp::one_char()));
            v.push(cliapp::grammar(cliapp::two_chars()));
            v.push(cliapp::grammar(cliapp::short(if t { 6 } else { 4 })));
            v.push(cliapp::grammar(cliapp::lists(if t { 4 } else { 3 })));
            v.push(cliapp::levels());
            ("L01", "as a decomposition and as a recolouring palette, exactly the texts RRGGBB[,RRGGBB]... in hexadecimal digits of either case are taken (another text is a bad argument, exit 2), and each component is read as the number it is written as", vec!["only the probed characters and lengths; a command line cannot hold NUL"])
        }
        "L02" => {
            let ball = ico([128, 126, 130], 77, 124);
            let mut big: Vec<Col> = ball.clone(); big.extend([[128, 126, 130], [100, 120, 140], [128, 126, 130], [90, 150, 111]]);
            let fixed = vec![(3, 4, ball), (4, 4, big), (2, 3, mixed()[..6].to_vec()), (2, 2, odd4()), (2, 4, corners(255)), (3, 2, vec![[9, 9, 9]; 6]), (1, 1, vec![[1, 2, 3]])];
            v.push(cliapp::generate("gen", fixed.clone(), if t { 4 } else { 2 }));
            let near = cliapp::at_default_bound();
            if near.len() < 4 { eprintln!("note: {} of 4 images around the default error bound", near.len()); }
            v.push(cliapp::generate("genbound", near, 1));
            if t { v.push(cliapp::generate("gensets", cliapp::image_sets(2, 3, &corners(255)), 1)); }
            let mut palettes = skew_palettes();
            palettes.extend([corners(255)[..5].to_vec(), corners(255), vec![[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 255, 0]], vec![[0, 0, 0], [255, 0, 0], [0, 0, 255]], vec![[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [20, 20, 20]]]);
            v.push(cliapp::recolor("rec", fixed.clone(), palettes.clone()));
            let long: Vec<(u32, u32, Vec<Col>)> = [(257, 2), (2, 300), (301, 257)].into_iter().map(|(w, h)| (w, h, (recolor::shapes("", w, h, vec![]).gen)(4))).collect();
            v.push(cliapp::generate("genlong", long.clone(), if t { 4 } else { 1 }));
            v.push(cliapp::recolor("reclong", long[..if t { 3 } else { 2 }].to_vec(), vec![skew_palettes()[1].clone(), recolor::sphere_colors(17), recolor::sphere_colors(256)]));
            let small = vec![skew_palettes()[0].clone(), corners(255)];
            v.push(cliapp::recolor("recsets", if t { cliapp::all_images(2, 3, &mixed()[..4]) } else { cliapp::image_sets(3, 2, &mixed()) }, small));
            ("L02", "generate-palette prints the library's palette for the image and options (default 2/255, 4, 10) and refuses options out of range; recolor-image writes exactly the library's recoloured image and, if asked, one channel image per colour under its documented name; a run that fails writes nothing and no run touches another file", vec!["the image crate's decoding and encoding is trusted on both sides"])
        }
        _ => return None,
    };
    Some(Check { property, spaces: v, rule, assumptions })
}

/// Shapes of which a dimension or the number of pixels does not fit a smaller integer.
pub const LONG: [(u32, u32); 5] = [(257, 2), (2, 300), (65537, 2), (2, 65539), (301, 257)];
/// Four colours in general position, none of them extreme values.
pub fn odd4() -> Vec<Col> { vec![[17, 3, 40], [201, 33, 9], [5, 180, 66], [90, 77, 250]] }
/// Corners plus colours inside, on a face and on an edge of the cube.
pub fn mixed() -> Vec<Col> { vec![[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [90, 60, 30], [255, 255, 255], [255, 128, 0]] }
pub fn skew_palettes() -> Vec<Vec<Col>> { vec![
    vec![[10, 10, 10], [200, 20, 30], [30, 210, 40], [20, 30, 220]],
    vec![[0, 0, 0], [255, 0, 0], [255, 255, 0], [0, 255, 0], [128, 128, 90]],
    vec![[250, 250, 250], [200, 20, 30], [30, 210, 40], [20, 30, 220], [100, 0, 110]],
    vec![[60, 60, 60], [61, 60, 60], [60, 61, 60], [60, 60, 61]],
    vec![[0, 0, 0], [255, 0, 0], [0, 255, 0], [255, 255, 0], [0, 0, 200], [255, 0, 200], [0, 255, 200], [255, 255, 200]],
] }
/// Eighteen colours on a warped grid.
pub fn skew18() -> Vec<Col> {
    let mut skew: Vec<Col> = grid_colors(&[70, 128, 190]);
    skew.retain(|c| c[0] != 128);
    for c in skew.iter_mut() { c[0] += c[1] / 9; c[1] -= c[2] / 11; }
    skew
}
/// Colours close to one plane: most palettes of four of them are thin slivers.
fn slivers() -> Vec<Col> { (0..22u32).map(|k| [(k * 97 % 256) as u8, ((k * k * 13 + k * 61) % 256) as u8, (90 + (k * 5 + k / 3) % 9 + if k % 5 == 0 { 40 } else { 0 }) as u8]).collect() }
/// Images whose colours lie all around the middle.
fn around() -> Vec<(u32, u32, Vec<Col>)> {
    let mut cube = corners(255); cube.extend([[0, 128, 255], [255, 127, 0], [128, 0, 255], [64, 255, 255], [255, 0, 200], [0, 0, 99], [130, 120, 110], [128, 128, 255]]);
    vec![(12, 2, recolor::sphere_colors(24)), (4, 4, cube)]
}
/// All valid palettes that enclose the colours.
fn enclosing(cols: &[Col], kmin: usize, kmax: usize, of: &[Col]) -> Vec<Vec<Col>> {
    let mut out = vec![];
    for k in kmin..=kmax { crate::geom::combos(cols.len(), k, |c| {
        // cheap necessary condition first: something on either side in every component
        let side = |j: usize, up: bool| c.iter().any(|&i| if up { cols[i][j] > of[0][j] } else { cols[i][j] < of[0][j] });
        if !(0..3).all(|j| side(j, true) && side(j, false)) { return; }
        let p: Vec<Col> = c.iter().map(|&i| cols[i]).collect();
        if let Some(h) = Hull3::new(&p) { if h.ext.count_ones() as usize == p.len() && of.iter().all(|x| h.contains(&p3(x))) { out.push(p); } }
    }); }
    out
}
pub fn perms() -> Vec<Vec<Col>> {
    let mut out = vec![];
    fn rec(p: &mut Vec<Col>, k: usize, out: &mut Vec<Vec<Col>>) { if k == p.len() { out.push(p.clone()); return; } for i in k..p.len() { p.swap(k, i); rec(p, k + 1, out); p.swap(k, i); } }
    rec(&mut skew_palettes()[0].clone(), 0, &mut out);
    rec(&mut skew_palettes()[1].clone(), 0, &mut out);
    out
}
