//! Exact integer geometry used as the reference model. Boring on purpose: brute force over subsets,
//! 128-bit determinants, no floating point, nothing shared with the code under test.

pub const D: usize = 6;
pub type P = [i64; D];

pub fn pt(v: &[i64]) -> P { let mut p = [0; D]; p[..v.len()].copy_from_slice(v); p }

/// Bareiss determinant of the leading n x n block.
pub fn det(m: &[[i128; 8]; 8], n: usize) -> i128 {
    let mut a = *m;
    if n == 0 { return 1; }
    let mut sign = 1i128;
    let mut prev = 1i128;
    for k in 0..n - 1 {
        if a[k][k] == 0 {
            let Some(r) = (k + 1..n).find(|&r| a[r][k] != 0) else { return 0 };
            a.swap(k, r);
            sign = -sign;
        }
        for i in k + 1..n { for j in k + 1..n {
            a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev;
        } }
        prev = a[k][k];
    }
    sign * a[n - 1][n - 1]
}

pub fn rank(rows: &[[i128; 8]], n: usize) -> usize {
    let mut a: Vec<[i128; 8]> = rows.to_vec();
    let mut r = 0;
    let mut prev = 1i128;
    for c in 0..n {
        let Some(p) = (r..a.len()).find(|&i| a[i][c] != 0) else { continue };
        a.swap(r, p);
        for i in r + 1..a.len() { for j in (c + 1)..n {
            a[i][j] = (a[i][j] * a[r][c] - a[i][c] * a[r][j]) / prev;
        } a[i][c] = 0; }
        prev = a[r][c];
        r += 1;
        if r == a.len() { break; }
    }
    r
}

/// Dimension of the affine hull.
pub fn affine_dim(pts: &[P], d: usize) -> usize {
    if pts.is_empty() { return 0; }
    let rows: Vec<[i128; 8]> = pts[1..].iter().map(|p| {
        let mut r = [0i128; 8];
        for j in 0..d { r[j] = (p[j] - pts[0][j]) as i128; }
        r
    }).collect();
    rank(&rows, d)
}

#[derive(Clone, Debug)]
pub struct Plane { pub n: [i128; D], pub off: i128, pub on: u64 }

impl Plane {
    /// signed "distance" (positive = outside)
    pub fn eval(&self, p: &P, d: usize) -> i128 { let mut s = self.off; for j in 0..d { s += self.n[j] * p[j] as i128; } s }
}

/// Normal of the hyperplane through d points (cofactor expansion); all zero if they are dependent.
pub fn normal(pts: &[P], idx: &[usize], d: usize) -> [i128; D] {
    let mut n = [0i128; D];
    for j in 0..d {
        let mut m = [[0i128; 8]; 8];
        for r in 1..d {
            let mut c2 = 0;
            for c in 0..d { if c != j { m[r - 1][c2] = (pts[idx[r]][c] - pts[idx[0]][c]) as i128; c2 += 1; } }
        }
        let v = det(&m, d - 1);
        n[j] = if j % 2 == 0 { v } else { -v };
    }
    n
}

pub fn combos(n: usize, k: usize, mut f: impl FnMut(&[usize])) {
    if k > n { return; }
    let mut c: Vec<usize> = (0..k).collect();
    loop {
        f(&c);
        let mut i = k;
        loop {
            if i == 0 { return; }
            i -= 1;
            if c[i] != i + n - k { break; }
            if i == 0 { return; }
        }
        if c[i] == i + n - k { return; }
        c[i] += 1;
        for j in i + 1..k { c[j] = c[j - 1] + 1; }
    }
}

pub fn binom(n: u64, k: u64) -> u64 { if k > n { return 0; } if k == n { return 1; } let mut r = 1u64; for i in 0..k { r = r * (n - i) / (i + 1); } r }

/// k-subset of 0..n number `i` (colex/lex order; a bijection with 0..binom(n,k)).
pub fn unrank(n: usize, k: usize, mut i: u64) -> Vec<usize> {
    if k == n { return (0..n).collect(); }
    let mut out = Vec::with_capacity(k);
    let mut x = 0;
    for j in 0..k {
        loop {
            let c = binom((n - x - 1) as u64, (k - j - 1) as u64);
            if i < c { out.push(x); x += 1; break; }
            i -= c; x += 1;
        }
    }
    out
}

/// Facet hyperplanes of conv(pts) (full dimensional), outward, one per facet.
pub fn hull_planes(pts: &[P], d: usize) -> Vec<Plane> {
    let mut out: Vec<Plane> = vec![];
    combos(pts.len(), d, |c| {
        let mask: u64 = c.iter().map(|&i| 1u64 << i).sum();
        if out.iter().any(|p| p.on & mask == mask) { return; }
        let mut n = normal(pts, c, d);
        if n[..d].iter().all(|&x| x == 0) { return; }
        let mut off: i128 = -(0..d).map(|j| n[j] * pts[c[0]][j] as i128).sum::<i128>();
        let (mut pos, mut neg, mut on) = (false, false, 0u64);
        for (i, p) in pts.iter().enumerate() {
            let mut s = off;
            for j in 0..d { s += n[j] * p[j] as i128; }
            if s > 0 { pos = true } else if s < 0 { neg = true } else { on |= 1 << i }
            if pos && neg { return; }
        }
        if pos { for x in n.iter_mut() { *x = -*x; } off = -off; }
        out.push(Plane { n, off, on });
    });
    out
}

/// Bit mask of the extreme points, given the facet planes.
pub fn extreme_mask(pts: &[P], planes: &[Plane], d: usize) -> u64 {
    let all = if pts.len() == 64 { u64::MAX } else { (1 << pts.len()) - 1 };
    let mut m = 0;
    for i in 0..pts.len() {
        // the smallest face that contains the point
        let face = planes.iter().filter(|p| p.on >> i & 1 == 1).fold(all, |f, p| f & p.on);
        if planes.iter().any(|p| p.on >> i & 1 == 1) && (0..pts.len()).all(|k| face >> k & 1 == 0 || pts[k][..d] == pts[i][..d]) { m |= 1 << i; }
    }
    m
}

/// d! * volume of conv(pts), through a pulling triangulation.
pub fn volume_dfact(pts: &[P], d: usize) -> i128 {
    let tri = pull(pts, &(0..pts.len()).collect::<Vec<_>>(), d);
    tri.iter().map(|s| simplex_det(pts, s, d).abs()).sum()
}

pub fn simplex_det(pts: &[P], s: &[usize], d: usize) -> i128 {
    let mut m = [[0i128; 8]; 8];
    for r in 0..d { for c in 0..d { m[r][c] = (pts[s[r + 1]][c] - pts[s[0]][c]) as i128; } }
    det(&m, d)
}

/// Pulling triangulation of the points `idx` (which affinely span d dimensions).
pub fn pull(pts: &[P], idx: &[usize], d: usize) -> Vec<Vec<usize>> {
    if d == 0 { return vec![vec![idx[0]]]; }
    if d == 1 {
        let a = *idx.iter().min_by_key(|&&i| pts[i][0]).unwrap();
        let b = *idx.iter().max_by_key(|&&i| pts[i][0]).unwrap();
        return vec![vec![a, b]];
    }
    let local: Vec<P> = idx.iter().map(|&i| pts[i]).collect();
    let planes = hull_planes(&local, d);
    let mut out = vec![];
    for pl in &planes {
        if pl.on & 1 == 1 { continue; }
        // project along a coordinate with a non-zero normal component
        let k = (0..d).find(|&j| pl.n[j] != 0).unwrap();
        let proj: Vec<P> = pts.iter().map(|p| { let mut q = [0; D]; let mut c = 0; for j in 0..d { if j != k { q[c] = p[j]; c += 1; } } q }).collect();
        let fi: Vec<usize> = (0..idx.len()).filter(|i| pl.on >> i & 1 == 1).map(|i| idx[i]).collect();
        for mut s in pull(&proj, &fi, d - 1) { s.insert(0, idx[0]); out.push(s); }
    }
    out
}

/// > 0 iff q lies strictly inside the circumsphere of simplex s (orientation independent).
pub fn insphere(pts: &[P], s: &[usize], q: &P, d: usize) -> i128 {
    let sq = |p: &P| -> i128 { (0..d).map(|j| ((p[j] - q[j]) as i128).pow(2)).sum() };
    let mut m = [[0i128; 8]; 8];
    for (r, &i) in s.iter().enumerate() {
        for c in 0..d { m[r][c] = (pts[i][c] - q[c]) as i128; }
        m[r][d] = sq(&pts[i]);
    }
    let o = simplex_det(pts, s, d);
    let v = det(&m, d + 1);
    // sign convention: normalised so that positive = inside, checked by the self test below
    let s = if o > 0 { v } else { -v };
    if d % 2 == 0 { s } else { -s }
}

/// Barycentric numerators of q in simplex s: (b_0..b_d, det) with b_i/det the coordinates.
pub fn bary(pts: &[P], s: &[usize], q: &P, d: usize) -> (Vec<i128>, i128) {
    let o = simplex_det(pts, s, d);
    let mut b = vec![];
    for k in 0..=d {
        let mut l: Vec<P> = s.iter().map(|&i| pts[i]).collect();
        l[k] = *q;
        let id: Vec<usize> = (0..=d).collect();
        b.push(simplex_det(&l, &id, d));
    }
    (b, o)
}

pub fn self_test() {
    let p = [pt(&[0, 0]), pt(&[2, 0]), pt(&[0, 2])];
    assert!(insphere(&p, &[0, 1, 2], &pt(&[1, 1]), 2) > 0);
    assert!(insphere(&p, &[0, 2, 1], &pt(&[1, 1]), 2) > 0);
    assert!(insphere(&p, &[0, 1, 2], &pt(&[2, 2]), 2) == 0);
    assert!(insphere(&p, &[0, 1, 2], &pt(&[3, 3]), 2) < 0);
    let p = [pt(&[0, 0, 0]), pt(&[2, 0, 0]), pt(&[0, 2, 0]), pt(&[0, 0, 2])];
    assert!(insphere(&p, &[0, 1, 2, 3], &pt(&[1, 1, 1]), 3) > 0);
    assert!(insphere(&p, &[1, 0, 2, 3], &pt(&[1, 1, 1]), 3) > 0);
    assert!(insphere(&p, &[1, 0, 2, 3], &pt(&[3, 1, 1]), 3) < 0);
    let c: Vec<P> = (0..8).map(|i| pt(&[i & 1, i >> 1 & 1, i >> 2 & 1])).collect();
    assert_eq!(volume_dfact(&c, 3), 6);
    assert_eq!(hull_planes(&c, 3).len(), 6);
    let mut n = 0; combos(7, 3, |c| { assert_eq!(unrank(7, 3, n), c); n += 1; }); assert_eq!(n, 35);
    let c: Vec<P> = (0..32).map(|i| pt(&[i & 1, i >> 1 & 1, i >> 2 & 1, i >> 3 & 1, i >> 4 & 1])).collect();
    assert_eq!(volume_dfact(&c[..], 5), 120);
}
