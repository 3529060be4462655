//! Content generation and the reference model (exact real arithmetic, f64).
use crate::case::*;
use crate::fmt::*;

/// Effective bit depth of the source / destination samples (some functions take it as an argument).
pub fn src_bits(op: &Op, c: &Case) -> u32 {
    if op.src.kind == Kind::Packed422 && op.src.bits == 16 && op.dst.kind == Kind::Rgb { return c.depth; }
    if op.model == Model::ToF16 && op.src.bits == 16 { return c.depth; }
    if op.src.kind == Kind::Rgb30 { return 10; }
    op.src.bits
}
pub fn dst_bits(op: &Op, c: &Case) -> u32 {
    if op.src.kind == Kind::Packed422 && op.src.bits == 16 && op.dst.kind == Kind::Rgb { return c.depth; }
    if op.model == Model::FromF16 && op.dst.bits == 16 { return c.depth; }
    op.dst.bits
}
pub fn max_of(bits: u32) -> f64 { ((1u64 << bits) - 1) as f64 }
pub fn src_max(op: &Op, c: &Case, comp: usize) -> f64 {
    if op.src.elem == F16 { 1.0 } else if op.src.kind == Kind::Rgb30 { if comp == 3 { 3.0 } else { 1023.0 } } else { max_of(src_bits(op, c)) }
}
pub fn dst_max(op: &Op, c: &Case, comp: usize) -> f64 {
    if op.dst.elem == F16 { 1.0 } else if op.dst.kind == Kind::Rgb30 { if comp == 3 { 3.0 } else { 1023.0 } } else { max_of(dst_bits(op, c)) }
}

#[derive(Clone, Copy)]
pub struct Rng3 { pub by: f64, pub ry: f64, pub buv: f64, pub ruv: f64 }
pub fn ranges(bits: u32, range: u8) -> Rng3 {
    let s = (1u64 << (bits - 8)) as f64;
    let mid = (1u64 << (bits - 1)) as f64;
    if range == 0 { Rng3 { by: 16.0 * s, ry: 219.0 * s, buv: mid, ruv: 224.0 * s } } else { Rng3 { by: 0.0, ry: max_of(bits), buv: mid, ruv: max_of(bits) } }
}

/// normalised RGB -> (y in 0..1, pb, pr in -0.5..0.5)
pub fn fwd(kr: f64, kb: f64, r: f64, g: f64, b: f64) -> [f64; 3] {
    let kg = 1.0 - kr - kb;
    let y = kr * r + kg * g + kb * b;
    [y, (b - y) / (2.0 * (1.0 - kb)), (r - y) / (2.0 * (1.0 - kr))]
}
pub fn inv(kr: f64, kb: f64, y: f64, pb: f64, pr: f64) -> [f64; 3] {
    let kg = 1.0 - kr - kb;
    let r = y + 2.0 * (1.0 - kr) * pr;
    let b = y + 2.0 * (1.0 - kb) * pb;
    [r, y - (2.0 * kr * (1.0 - kr) * pr + 2.0 * kb * (1.0 - kb) * pb) / kg, b]
}

fn is_yuv_src(op: &Op) -> bool { matches!(op.src.kind, Kind::Planar | Kind::Bip | Kind::Gray | Kind::Packed422 | Kind::Packed444) && op.model != Model::Gbr }

/// Source content of a case. For `Hostile` the image is only a placeholder (noise is written instead).
pub fn gen_src(op: &Op, c: &Case) -> Img {
    let f = &op.src;
    let dims = comp_dims(f, c.w, c.h);
    let mut rng = Rng::new(c.seed);
    let yuv = is_yuv_src(op);
    let mut im = Img { c: dims.iter().map(|&(w, h)| Comp::new(w, h)).collect() };
    let n = im.c.len();
    if f.elem == I16 {
        // RemoteFX planes: luma -4096..4064, chroma about +-4096 (12.5 scaled by 32)
        for k in 0..n { for v in &mut im.c[k].d {
            let u = match c.pat { Pat::Extremes => rng.pick(&[-4096.0, 4095.0, 0.0, 4064.0, -4064.0, 1.0, -1.0]), Pat::Gray | Pat::Flat if k > 0 => 0.0, _ => (rng.below(8192) as f64) - 4096.0 };
            *v = u;
        } }
        return im;
    }
    let max: Vec<f64> = (0..n).map(|k| src_max(op, c, k)).collect();
    let fl = f.elem == F16;
    let q = |v: f64, m: f64| -> f64 { if fl { (v as f16) as f64 } else { v.round().clamp(0.0, m) } };
    let bits = if fl { 10 } else { src_bits(op, c) };
    let mid = (1u64 << (bits - 1)) as f64;
    match c.pat {
        Pat::Random | Pat::Hostile => for k in 0..n { for v in &mut im.c[k].d { *v = q(rng.unit() * if fl { 1.0 } else { max[k] + 1.0 } - if fl { 0.0 } else { 0.5 }, max[k]); } },
        Pat::Extremes => for k in 0..n {
            let m = max[k];
            let s = if fl { 1.0 } else { (1u64 << (bits.max(8) - 8)) as f64 };
            let set = if fl { [0.0, 1.0, 0.5, 0.25, 0.001, 0.999, 0.75, 1.0, 0.0, 0.125] } else { [0.0, m, mid, mid - 1.0, 16.0 * s, 235.0 * s, 240.0 * s, m - 1.0, 1.0, m] };
            for v in &mut im.c[k].d { *v = q(rng.pick(&set), m); }
        },
        Pat::Gray => {
            if yuv { for k in 0..n { for v in &mut im.c[k].d { *v = if k == 0 || k == 3 { q(rng.unit() * max[k], max[k]) } else { mid }; } } }
            else {
                let (w, h) = (im.c[0].w, im.c[0].h);
                for i in 0..w * h { let g = rng.unit(); let a = rng.unit(); for k in 0..n { im.c[k].d[i] = q(if k == 3 { a } else { g } * max[k], max[k]); } }
            }
        }
        Pat::Flat => for k in 0..n { let x = q(rng.unit() * max[k], max[k]); for v in &mut im.c[k].d { *v = x; } },
        Pat::Smooth => for k in 0..n {
            let (a, b, p) = (rng.unit() * 0.15, rng.unit() * 0.15, rng.unit() * 6.28);
            let (w, h) = (im.c[k].w, im.c[k].h);
            let sc = if yuv && (k == 1 || k == 2) { dims[0].0 as f64 / w as f64 } else { 1.0 };
            for y in 0..h { for x in 0..w { let t = 0.5 + 0.45 * (a * x as f64 * sc + b * y as f64 * sc + p).sin(); im.c[k].set(x, y, q(t * max[k], max[k])); } }
        },
        Pat::Legal => {
            if yuv && n >= 3 && matches!(op.model, Model::Yuv | Model::YCgCo | Model::Repack) {
                let (kr, kb) = c.kr_kb();
                let r3 = ranges(bits, c.range);
                let (cw, ch) = dims[1];
                let (sx, sy) = (f.ss.sx(), f.ss.sy());
                for y in 0..ch { for x in 0..cw {
                    let t = [rng.unit(), rng.unit(), rng.unit()];
                    let e = if op.model == Model::YCgCo { ycgco_fwd(t[0], t[1], t[2]) } else { fwd(kr, kb, t[0], t[1], t[2]) };
                    im.c[1].set(x, y, q(r3.buv + r3.ruv * e[1], max[1]));
                    im.c[2].set(x, y, q(r3.buv + r3.ruv * e[2], max[2]));
                    for dy in 0..sy { for dx in 0..sx {
                        let (px, py) = (x * sx + dx, y * sy + dy);
                        if px < c.w && py < c.h { im.c[0].set(px, py, q(r3.by + r3.ry * e[0], max[0])); }
                    } }
                } }
                if n == 4 { for v in &mut im.c[3].d { *v = q(rng.unit() * max[3], max[3]); } }
            } else if yuv {
                let r3 = ranges(bits, c.range);
                for k in 0..n { for v in &mut im.c[k].d { *v = q(if k == 0 { r3.by + r3.ry * rng.unit() } else { rng.unit() * max[k] }, max[k]); } }
            } else { for k in 0..n { for v in &mut im.c[k].d { *v = q(rng.unit() * max[k], max[k]); } } }
        }
        Pat::Sweep => {
            // consecutive codes: component 0 runs fastest, the others walk through the whole range over the seed
            for k in 0..n {
                let m = max[k] as u64 + 1;
                let (w, h) = (im.c[k].w, im.c[k].h);
                for y in 0..h { for x in 0..w {
                    let i = (y * w + x) as u64 + c.seed * 977;
                    let v = match k { 0 => i % m, 1 => (i / 3 * 7 + c.seed * 13) % m, 2 => (i / 5 * 11 + c.seed * 29) % m, _ => (i * 3) % m };
                    im.c[k].set(x, y, if fl { q((i % 4096) as f64 / 4095.0, 1.0) } else { v as f64 });
                } }
            }
        }
    }
    im
}

pub fn to_linear(g: u8, v: f64) -> f64 {
    match g {
        0 => if v < 12.92 * 0.0030412825 { v / 12.92 } else { ((v + 0.055010717) / 1.0550107).powf(2.4) },
        1 => if v < 4.5 * 0.01805397 { v / 4.5 } else { ((v + 0.09929682) / 1.0992968).powf(1.0 / 0.45) },
        2 => v.powf(2.2), _ => v.powf(2.8),
    }
}
pub fn from_linear(g: u8, v: f64) -> f64 {
    match g {
        0 => if v < 0.0030412825 { v * 12.92 } else { 1.0550107 * v.powf(1.0 / 2.4) - 0.055010717 },
        1 => if v < 0.01805397 { v * 4.5 } else { 1.0992968 * v.powf(0.45) - 0.09929682 },
        2 => v.powf(1.0 / 2.2), _ => v.powf(1.0 / 2.8),
    }
}
pub fn ycgco_fwd(r: f64, g: f64, b: f64) -> [f64; 3] { [(r + 2.0 * g + b) / 4.0, (2.0 * g - r - b) / 4.0, (r - b) / 2.0] }
pub fn ycgco_inv(y: f64, cg: f64, co: f64) -> [f64; 3] { let t = y - cg; [t + co, y + cg, t - co] }

/// What the destination should hold, in real numbers (already clamped to the nominal range), as an interval.
/// The interval is a point except where luma lies below nominal black in limited range: there the conversion may either
/// carry the negative luma through or clamp it to black first.
pub struct Want { pub lo: Img, pub hi: Option<Img> }
pub fn expect(op: &Op, c: &Case, s: &Img) -> Want {
    let a = expect1(op, c, s);
    let dec = matches!(op.dst.kind, Kind::Rgb | Kind::Rgb30) && is_yuv_src(op) && op.src.elem != I16 || (op.model == Model::Gbr && op.dst.kind == Kind::Rgb);
    if !dec || c.range != 0 { return Want { lo: a, hi: None }; }
    let black = ranges(src_bits(op, c), c.range).by;
    let planes: &[usize] = if op.model == Model::Gbr { &[0, 1, 2] } else { &[0] };
    let mut t = s.clone();
    let mut any = false;
    for &k in planes { for v in &mut t.c[k].d { if *v < black { *v = black; any = true; } } }
    if !any { return Want { lo: a, hi: None }; }
    let b = expect1(op, c, &t);
    let (mut lo, mut hi) = (a.clone(), a);
    for k in 0..lo.c.len() { for i in 0..lo.c[k].d.len() { let (x, y) = (lo.c[k].d[i], b.c[k].d[i]); lo.c[k].d[i] = x.min(y); hi.c[k].d[i] = x.max(y); } }
    Want { lo, hi: Some(hi) }
}
fn expect1(op: &Op, c: &Case, s: &Img) -> Img {
    let (dw, dh) = c.dst_dims(op);
    let dims = comp_dims(&op.dst, dw, dh);
    let mut o = Img { c: dims.iter().map(|&(w, h)| Comp::new(w, h)).collect() };
    let (w, h) = (c.w, c.h);
    let dmax = |k: usize| dst_max(op, c, k);
    let (kr, kb) = c.kr_kb();
    match op.model {
        Model::Rotate => for k in 0..o.c.len() { for y in 0..h { for x in 0..w {
            let v = s.c[k].at(x, y);
            // Rotate90 is counter-clockwise in this library
            match c.geo { 0 => o.c[k].set(y, w - 1 - x, v), 1 => o.c[k].set(w - 1 - x, h - 1 - y, v), _ => o.c[k].set(h - 1 - y, x, v) }
        } } },
        Model::Mirror => for k in 0..o.c.len() { for y in 0..h { for x in 0..w {
            let v = s.c[k].at(x, y);
            if c.geo & 1 == 0 { o.c[k].set(x, h - 1 - y, v) } else { o.c[k].set(w - 1 - x, y, v) }
        } } },
        Model::ToF16 => for k in 0..o.c.len() { let m = src_max(op, c, k); for i in 0..w * h { o.c[k].d[i] = s.c[k].d[i] / m; } },
        Model::FromF16 => for k in 0..o.c.len() { let m = dmax(k); for i in 0..w * h { o.c[k].d[i] = (s.c[k].d[i] * m).clamp(0.0, m); } },
        Model::Shuffle => for k in 0..o.c.len() { for i in 0..w * h { o.c[k].d[i] = if k < s.c.len() { s.c[k].d[i] } else { dmax(k) }; } },
        Model::Rgb30 => for k in 0..o.c.len() {
            for i in 0..w * h {
                o.c[k].d[i] = if k >= s.c.len() { dmax(k) } else {
                    let (sm, dm) = (src_max(op, c, k), dmax(k));
                    // narrowing is by bit shifts, 8 -> 10 bits replicates the top bits; alpha is truncated to / replicated from two bits
                    let v = s.c[k].d[i];
                    if dm >= sm { if k == 3 { v * dm / sm } else if sm == 255.0 && dm == 1023.0 { (v * 257.0 / 64.0).floor() } else { v * ((dm + 1.0) / (sm + 1.0)) } } else { (v * (dm + 1.0) / (sm + 1.0)).floor() }
                };
            }
        },
        Model::Repack => {
            for i in 0..w * h { o.c[0].d[i] = s.c[0].d[i]; }
            for k in 1..3 {
                let (cw, ch) = (o.c[k].w, o.c[k].h);
                let (sw, sh) = (s.c[k].w, s.c[k].h);
                for y in 0..ch { for x in 0..cw {
                    // horizontal
                    let col = |yy: usize| -> f64 {
                        if sw == cw { s.c[k].at(x, yy) }
                        else if sw > cw { let a = s.c[k].at(2 * x, yy); let b = if 2 * x + 1 < sw { s.c[k].at(2 * x + 1, yy) } else { a }; ((a + b) / 2.0 + 0.25).round() }
                        else { s.c[k].at(x / 2, yy) }
                    };
                    let v = if sh == ch { col(y) } else if sh < ch { col(y / 2) } else { col(2 * y) };
                    o.c[k].set(x, y, v);
                } }
            }
        }
        Model::Rdp => {
            if op.dst.elem == I16 {
                for i in 0..w * h {
                    let (r, g, b) = (s.c[0].d[i], s.c[1].d[i], s.c[2].d[i]);
                    o.c[0].d[i] = 32.0 * (0.299 * r + 0.587 * g + 0.114 * b) - 4096.0;
                    o.c[1].d[i] = 32.0 * (-0.168935 * r - 0.331665 * g + 0.50059 * b);
                    o.c[2].d[i] = 32.0 * (0.499813 * r - 0.418531 * g - 0.081282 * b);
                }
            } else {
                for i in 0..w * h {
                    let (y, u, v) = (s.c[0].d[i] + 4096.0, s.c[1].d[i], s.c[2].d[i]);
                    let t = [y + 1.402525 * v, y - 0.343730 * u - 0.714401 * v, y + 1.769905 * u];
                    for k in 0..3 { o.c[k].d[i] = (t[k] / 32.0).clamp(0.0, 255.0); }
                    if o.c.len() == 4 { o.c[3].d[i] = 255.0; }
                }
            }
        }
        Model::Gbr => {
            let dec = op.dst.kind == Kind::Rgb;
            let bits = if dec { src_bits(op, c) } else { dst_bits(op, c) };
            let r3 = ranges(bits, c.range);
            // planes are stored G, B, R
            const P: [usize; 3] = [2, 0, 1]; // plane of R, G, B
            for i in 0..w * h {
                if dec {
                    for k in 0..3 { o.c[k].d[i] = ((s.c[P[k]].d[i] - r3.by) / r3.ry * dmax(k)).clamp(0.0, dmax(k)); }
                    if o.c.len() == 4 { o.c[3].d[i] = if s.c.len() == 4 { s.c[3].d[i] / src_max(op, c, 3) * dmax(3) } else { dmax(3) }; }
                } else {
                    for k in 0..3 { o.c[P[k]].d[i] = r3.by + r3.ry * s.c[k].d[i] / src_max(op, c, k); }
                }
            }
        }
        Model::Yuv | Model::YCgCo | Model::Sharp => {
            let dec = matches!(op.dst.kind, Kind::Rgb | Kind::Rgb30);
            if dec {
                let r3 = ranges(src_bits(op, c), c.range);
                let gray = op.src.kind == Kind::Gray;
                let (sx, sy) = (op.src.ss.sx(), op.src.ss.sy());
                for y in 0..h { for x in 0..w {
                    let i = y * w + x;
                    let yy = (s.c[0].d[i] - r3.by) / r3.ry;
                    let t = if gray { [yy; 3] } else {
                        let pb = (s.c[1].at(x / sx, y / sy) - r3.buv) / r3.ruv;
                        let pr = (s.c[2].at(x / sx, y / sy) - r3.buv) / r3.ruv;
                        if op.model == Model::YCgCo { ycgco_inv(yy, pb, pr) } else { inv(kr, kb, yy, pb, pr) }
                    };
                    let ai = if gray { 1 } else { 3 };
                    let a = if s.c.len() > ai { s.c[ai].d[i] / src_max(op, c, ai) } else { 1.0 };
                    for k in 0..3 {
                        let mut v = t[k].clamp(0.0, 1.0);
                        if c.premul { v *= a; }
                        o.c[k].d[i] = v * dmax(k);
                    }
                    if o.c.len() == 4 { o.c[3].d[i] = a * dmax(3); }
                } }
            } else {
                let bits = dst_bits(op, c);
                let r3 = ranges(bits, c.range);
                let m = src_max(op, c, 0);
                let md = max_of(bits);
                for i in 0..w * h {
                    let (r, g, b) = (s.c[0].d[i] / m, s.c[1].d[i] / m, s.c[2].d[i] / m);
                    let e = if op.model == Model::YCgCo { ycgco_fwd(r, g, b) } else { fwd(kr, kb, r, g, b) };
                    o.c[0].d[i] = (r3.by + r3.ry * e[0]).clamp(0.0, md);
                }
                if o.c.len() >= 3 {
                    let (cw, ch) = (o.c[1].w, o.c[1].h);
                    let (sx, sy) = (op.dst.ss.sx(), op.dst.ss.sy());
                    for y in 0..ch { for x in 0..cw {
                        let mut t = [0.0; 3];
                        let mut n = 0.0;
                        for dy in 0..sy { for dx in 0..sx {
                            let (px, py) = (x * sx + dx, y * sy + dy);
                            if px < w && py < h { for k in 0..3 { t[k] += s.c[k].at(px, py); } n += 1.0; }
                        } }
                        for v in &mut t { *v /= n * m; }
                        if op.model == Model::Sharp {
                            // bilinear 9:3:3:1 (3:1 in 4:2:2) interpolation in linear light; a missing neighbour repeats its partner
                            let (x0, y0) = (x * sx, y * sy);
                            let (x1, y1) = ((x0 + 1).min(w - 1), (y0 + sy - 1).min(h - 1));
                            let lin = |k: usize, px: usize, py: usize| to_linear(c.gamma, s.c[k].at(px, py) / m);
                            for k in 0..3 {
                                let row = |py: usize| 0.75 * lin(k, x0, py) + 0.25 * lin(k, x1, py);
                                let v = if sy == 2 { 0.75 * row(y0) + 0.25 * row(y1) } else { row(y0) };
                                t[k] = from_linear(c.gamma, v);
                            }
                        }
                        let e = if op.model == Model::YCgCo { ycgco_fwd(t[0], t[1], t[2]) } else { fwd(kr, kb, t[0], t[1], t[2]) };
                        o.c[1].set(x, y, (r3.buv + r3.ruv * e[1]).clamp(0.0, md));
                        o.c[2].set(x, y, (r3.buv + r3.ruv * e[2]).clamp(0.0, md));
                    } }
                }
            }
        }
    }
    o
}

#[derive(Clone, Debug, Default)]
pub struct Stat { pub n: u64, pub max: f64, pub sum: f64, pub sq: f64, pub at: (usize, usize, f64, f64), pub note: String }
impl Stat {
    pub fn add(&mut self, got: f64, want: f64, x: usize, y: usize) {
        let e = got - want;
        self.n += 1; self.sum += e; self.sq += e * e;
        if !(e.abs() <= self.max) { self.max = if e.is_nan() { f64::INFINITY } else { e.abs() }; self.at = (x, y, got, want); }
    }
    pub fn merge(&mut self, o: &Stat) { self.n += o.n; self.sum += o.sum; self.sq += o.sq; if o.max > self.max { self.max = o.max; self.at = o.at; self.note.clone_from(&o.note); } }
    pub fn mean(&self) -> f64 { if self.n == 0 { 0.0 } else { self.sum / self.n as f64 } }
    pub fn rms(&self) -> f64 { if self.n == 0 { 0.0 } else { (self.sq / self.n as f64).sqrt() } }
}
pub fn compare_want(got: &Img, want: &Want) -> Vec<Stat> {
    let Some(hi) = &want.hi else { return compare(got, &want.lo) };
    let mut w = want.lo.clone();
    for k in 0..w.c.len() { for i in 0..w.c[k].d.len() { let g = got.c[k].d[i]; w.c[k].d[i] = g.clamp(want.lo.c[k].d[i], hi.c[k].d[i]); } }
    compare(got, &w)
}
/// Per-component error statistics.
pub fn compare(got: &Img, want: &Img) -> Vec<Stat> {
    got.c.iter().zip(&want.c).map(|(g, w)| {
        let mut s = Stat::default();
        for (i, (a, b)) in g.d.iter().zip(&w.d).enumerate() { if b.is_nan() { continue; } s.add(*a, *b, i % g.w, i / g.w); }
        s
    }).collect()
}
