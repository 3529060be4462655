//! Descriptions of pixel formats and logical images.
use crate::ops::Call;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ss { S420, S422, S444, S400 }
pub use Ss::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Elem { U8, U16, I16, F16 }
pub use Elem::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order { RGB, RGBA, BGR, BGRA, ARGB, ABGR, YUYV, UYVY, YVYU, VYUY, AYUV, VYUA, AR30, AB30, RA30, BA30, NONE }
pub use Order::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Planar, Bip, Gray, Packed422, Packed444, Rgb, Rgb30, Chan }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Model { Yuv, YCgCo, Gbr, Rdp, Repack, Rgb30, Shuffle, Rotate, Mirror, ToF16, FromF16, Sharp }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fmt { pub kind: Kind, pub ss: Ss, pub bits: u32, pub elem: Elem, pub alpha: bool, pub be: bool, pub vu: bool, pub order: Order, pub ch: usize }

const BASE: Fmt = Fmt { kind: Kind::Planar, ss: S444, bits: 8, elem: U8, alpha: false, be: false, vu: false, order: NONE, ch: 1 };
fn el(bits: u32) -> Elem { if bits == 8 { U8 } else { U16 } }
pub fn planar(ss: Ss, bits: u32, alpha: bool, be: bool) -> Fmt { Fmt { kind: Kind::Planar, ss, bits, elem: el(bits), alpha, be, ..BASE } }
pub fn bip(ss: Ss, bits: u32, vu: bool) -> Fmt { Fmt { kind: Kind::Bip, ss, bits, elem: el(bits), vu, ..BASE } }
pub fn gray(bits: u32, alpha: bool) -> Fmt { Fmt { kind: Kind::Gray, ss: S400, bits, elem: el(bits), alpha, ..BASE } }
pub fn packed(order: Order, bits: u32) -> Fmt { Fmt { kind: Kind::Packed422, ss: S422, bits, elem: el(bits), order, ..BASE } }
pub fn packed444(order: Order) -> Fmt { Fmt { kind: Kind::Packed444, order, alpha: true, ch: 4, ..BASE } }
pub fn rgb(order: Order, bits: u32, elem: Elem) -> Fmt {
    let ch = match order { RGB | BGR => 3, _ => 4 };
    Fmt { kind: Kind::Rgb, order, bits, elem, ch, alpha: ch == 4, ..BASE }
}
pub fn rgb30(order: Order) -> Fmt { Fmt { kind: Kind::Rgb30, order, bits: 10, ch: 4, alpha: true, ..BASE } }
pub fn rdp() -> Fmt { Fmt { kind: Kind::Planar, ss: S444, bits: 16, elem: I16, ..BASE } }
pub fn chan(ch: usize, bits: u32, elem: Elem) -> Fmt { Fmt { kind: Kind::Chan, ch, bits, elem, ..BASE } }

#[derive(Clone, Copy)]
pub struct Op { pub id: usize, pub name: &'static str, pub src: Fmt, pub dst: Fmt, pub model: Model, pub call: Call }
impl Op {
    pub fn new(id: usize, name: &'static str, src: Fmt, dst: Fmt, model: Model, call: Call) -> Op { Op { id, name, src, dst, model, call } }
}

impl Ss {
    pub fn cw(self, w: usize) -> usize { match self { S444 => w, S400 => 0, _ => w.div_ceil(2) } }
    pub fn ch(self, h: usize) -> usize { match self { S420 => h.div_ceil(2), S400 => 0, _ => h } }
    pub fn sx(self) -> usize { match self { S444 | S400 => 1, _ => 2 } }
    pub fn sy(self) -> usize { match self { S420 => 2, _ => 1 } }
}
impl Elem { pub fn size(self) -> usize { if self == U8 { 1 } else { 2 } } }

/// (row length in elements, number of rows) of every memory plane.
pub fn plane_dims(f: &Fmt, w: usize, h: usize) -> Vec<(usize, usize)> {
    match f.kind {
        Kind::Planar => {
            let mut v = vec![(w, h), (f.ss.cw(w), f.ss.ch(h)), (f.ss.cw(w), f.ss.ch(h))];
            if f.alpha { v.push((w, h)); }
            v
        }
        Kind::Bip => vec![(w, h), (f.ss.cw(w) * 2, f.ss.ch(h))],
        Kind::Gray => if f.alpha { vec![(w, h), (w, h)] } else { vec![(w, h)] },
        Kind::Packed422 => vec![(w.div_ceil(2) * 4, h)],
        Kind::Packed444 | Kind::Rgb30 => vec![(w * 4, h)],
        Kind::Rgb | Kind::Chan => vec![(w * f.ch, h)],
    }
}

/// Smallest row a caller may legitimately pass for the plane (equal to the row length everywhere).
pub fn is_color_yuv(f: &Fmt) -> bool { matches!(f.kind, Kind::Planar | Kind::Bip | Kind::Gray | Kind::Packed422 | Kind::Packed444) }

/// A logical image: one component per channel, at the component's own resolution.
#[derive(Clone, Debug, PartialEq)]
pub struct Comp { pub w: usize, pub h: usize, pub d: Vec<f64> }
impl Comp {
    pub fn new(w: usize, h: usize) -> Comp { Comp { w, h, d: vec![0.0; w * h] } }
    #[inline] pub fn at(&self, x: usize, y: usize) -> f64 { self.d[y * self.w + x] }
    #[inline] pub fn set(&mut self, x: usize, y: usize, v: f64) { self.d[y * self.w + x] = v; }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Img { pub c: Vec<Comp> }

/// Component dimensions. Colour order is always [Y,U,V,A] / [R,G,B,A] / channel index.
pub fn comp_dims(f: &Fmt, w: usize, h: usize) -> Vec<(usize, usize)> {
    match f.kind {
        Kind::Planar | Kind::Bip => {
            let c = (f.ss.cw(w), f.ss.ch(h));
            let mut v = vec![(w, h), c, c];
            if f.alpha { v.push((w, h)); }
            v
        }
        Kind::Gray => if f.alpha { vec![(w, h), (w, h)] } else { vec![(w, h)] },
        Kind::Packed422 => vec![(w, h), (w.div_ceil(2), h), (w.div_ceil(2), h)],
        Kind::Packed444 | Kind::Rgb30 => vec![(w, h); 4],
        Kind::Rgb | Kind::Chan => vec![(w, h); f.ch],
    }
}
pub fn comp_names(f: &Fmt) -> &'static [&'static str] {
    match f.kind {
        Kind::Planar | Kind::Bip | Kind::Packed422 | Kind::Packed444 => &["Y", "U", "V", "A"],
        Kind::Gray => &["Y", "A"],
        Kind::Rgb | Kind::Rgb30 => &["R", "G", "B", "A"],
        Kind::Chan => &["c0", "c1", "c2", "c3"],
    }
}

/// Index in memory order of the logical channel `c`.
pub fn rgb_pos(o: Order, c: usize) -> usize {
    let t: [usize; 4] = match o {
        RGB => [0, 1, 2, 9], RGBA => [0, 1, 2, 3], BGR => [2, 1, 0, 9], BGRA => [2, 1, 0, 3],
        ARGB => [1, 2, 3, 0], ABGR => [3, 2, 1, 0],
        _ => unreachable!(),
    };
    t[c]
}
/// positions of [Y0, Y1, U, V] in a 4:2:2 group
pub fn p422_pos(o: Order) -> [usize; 4] {
    match o { YUYV => [0, 2, 1, 3], UYVY => [1, 3, 0, 2], YVYU => [0, 2, 3, 1], VYUY => [1, 3, 2, 0], _ => unreachable!() }
}
/// positions of [Y, U, V, A] in a packed 4:4:4:4 pixel, as the library documents them
pub fn p444_pos(o: Order) -> [usize; 4] { match o { AYUV => [1, 2, 3, 0], VYUA => [2, 1, 0, 3], _ => unreachable!() } }

pub fn f16_from_bits(b: u16) -> f64 { f16::from_bits(b) as f64 }

/// Raw access to the memory of one plane.
pub struct PlaneView<'a> { pub bytes: &'a [u8], pub stride: usize, pub elem: Elem }
impl PlaneView<'_> {
    #[inline]
    pub fn raw(&self, i: usize, y: usize) -> u16 {
        let p = y * self.stride + i;
        if self.elem == U8 { self.bytes[p] as u16 } else { u16::from_ne_bytes([self.bytes[2 * p], self.bytes[2 * p + 1]]) }
    }
}
pub struct PlaneViewMut<'a> { pub bytes: &'a mut [u8], pub stride: usize, pub elem: Elem }
impl PlaneViewMut<'_> {
    #[inline]
    pub fn put(&mut self, i: usize, y: usize, v: u16) {
        let p = y * self.stride + i;
        if self.elem == U8 { self.bytes[p] = v as u8 } else { self.bytes[2 * p..2 * p + 2].copy_from_slice(&v.to_ne_bytes()); }
    }
}

/// How far samples are shifted up in their 16-bit word.
pub fn shift(f: &Fmt) -> u32 { if f.kind == Kind::Bip && f.bits > 8 { 16 - f.bits } else { 0 } }

/// KNOWN FINDING F-BEALPHA: the alpha plane of the big-endian YUVA formats is read in native order.
/// The general workloads feed it that way so that everything else about those conversions stays
/// observable; the dedicated probe in `layout` feeds it big-endian and reports the finding.
pub static BE_ALPHA: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn comp_fmt(f: &Fmt, c: usize) -> Fmt {
    let mut g = *f;
    if c == 3 && g.be && !BE_ALPHA.load(std::sync::atomic::Ordering::Relaxed) { g.be = false; }
    g
}
fn enc(f: &Fmt, v: f64) -> u16 {
    match f.elem {
        U8 => v as i64 as u8 as u16,
        U16 => { let x = ((v as i64) << shift(f)) as u16; if f.be { x.swap_bytes() } else { x } }
        I16 => v as i64 as i16 as u16,
        F16 => (v as f16).to_bits(),
    }
}
fn dec(f: &Fmt, r: u16) -> f64 {
    match f.elem {
        U8 => r as f64,
        U16 => ((if f.be { r.swap_bytes() } else { r }) >> shift(f)) as f64,
        I16 => r as i16 as f64,
        F16 => f16_from_bits(r),
    }
}
/// (plane index, element index) of component c at (x, y); `None` for RGB30 (bit-packed).
#[inline]
pub fn loc(f: &Fmt, c: usize, x: usize) -> (usize, usize) {
    match f.kind {
        Kind::Planar => (c, x),
        Kind::Gray => (c, x),
        Kind::Bip => if c == 0 { (0, x) } else { (1, 2 * x + if f.vu { 2 - c } else { c - 1 }) },
        Kind::Packed422 => {
            let p = p422_pos(f.order);
            match c { 0 => (0, (x / 2) * 4 + p[x & 1]), 1 => (0, x * 4 + p[2]), _ => (0, x * 4 + p[3]) }
        }
        Kind::Packed444 => (0, 4 * x + p444_pos(f.order)[c]),
        Kind::Rgb => (0, f.ch * x + rgb_pos(f.order, c)),
        Kind::Chan => (0, f.ch * x + c),
        Kind::Rgb30 => (0, 4 * x),
    }
}
fn r30_shift(o: Order) -> [u32; 4] {
    match o { AR30 => [0, 10, 20, 30], AB30 => [20, 10, 0, 30], RA30 => [22, 12, 2, 0], BA30 => [2, 12, 22, 0], _ => unreachable!() }
}
pub fn read_img(f: &Fmt, planes: &[PlaneView], w: usize, h: usize, network: bool) -> Img {
    let dims = comp_dims(f, w, h);
    let mut im = Img { c: dims.iter().map(|&(w, h)| Comp::new(w, h)).collect() };
    if f.kind == Kind::Rgb30 {
        let s = r30_shift(f.order);
        for y in 0..h { for x in 0..w {
            let p = y * planes[0].stride + 4 * x;
            let b: [u8; 4] = planes[0].bytes[p..p + 4].try_into().unwrap();
            let v = if network { u32::from_be_bytes(b) } else { u32::from_ne_bytes(b) };
            for c in 0..4 { im.c[c].set(x, y, ((v >> s[c]) & if c == 3 { 3 } else { 1023 }) as f64); }
        } }
        return im;
    }
    for (c, &(cw, chh)) in dims.iter().enumerate() {
        for y in 0..chh { for x in 0..cw {
            let (p, i) = loc(f, c, x);
            im.c[c].d[y * cw + x] = dec(&comp_fmt(f, c), planes[p].raw(i, y));
        } }
    }
    im
}
pub fn write_img(f: &Fmt, im: &Img, planes: &mut [PlaneViewMut], network: bool) {
    if f.kind == Kind::Rgb30 {
        let s = r30_shift(f.order);
        let (w, h) = (im.c[0].w, im.c[0].h);
        for y in 0..h { for x in 0..w {
            let mut v = 0u32;
            for c in 0..4 { v |= (im.c[c].at(x, y) as u32) << s[c]; }
            let b = if network { v.to_be_bytes() } else { v.to_ne_bytes() };
            let p = y * planes[0].stride + 4 * x;
            planes[0].bytes[p..p + 4].copy_from_slice(&b);
        } }
        return;
    }
    for (c, cm) in im.c.iter().enumerate() {
        for y in 0..cm.h { for x in 0..cm.w {
            let (p, i) = loc(f, c, x);
            planes[p].put(i, y, enc(&comp_fmt(f, c), cm.at(x, y)));
        } }
    }
}
/// largest nominal code of component `c`
pub fn comp_max(f: &Fmt, c: usize) -> f64 {
    if f.elem == F16 { return 1.0; }
    if f.kind == Kind::Rgb30 { return if c == 3 { 3.0 } else { 1023.0 }; }
    ((1u64 << f.bits) - 1) as f64
}
