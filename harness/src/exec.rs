//! Buffers with guard pages and canaries, content generation, and the call itself.
use crate::case::*;
use crate::cpu::{self, Level};
use crate::fmt::*;
use crate::ops::Call;
use yuv::*;

#[cfg(any(target_arch = "wasm32", miri))]
use crate::wasm::{mmap, mprotect, munmap};
#[cfg(not(any(target_arch = "wasm32", miri)))]
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
const PAGE: usize = 4096;
/// Planes longer than this are address space only: fills and checks look at the rows and 512 bytes on either side.
const SPARSE: usize = 1 << 27;

/// One memory plane: `cap` bytes between two inaccessible pages, the slice handed to the library inside.
pub struct Buf { pub base: *mut u8, pub cap: usize, pub off: usize, pub bytes: usize, pub elem: Elem, pub row: usize, pub rows: usize, pub stride: usize, ro: bool }
unsafe impl Send for Buf {}
impl Buf {
    pub fn empty() -> Buf { Buf { base: std::ptr::null_mut(), cap: 0, off: 0, bytes: 0, elem: U8, row: 0, rows: 0, stride: 0, ro: false } }
    fn reserve(&mut self, need: usize) {
        self.unprotect();
        if need <= self.cap && need <= SPARSE && self.cap <= SPARSE + (1 << 20) { return; }
        unsafe {
            if !self.base.is_null() { munmap(self.base.sub(PAGE), self.cap + 2 * PAGE); }
            let cap = need.next_multiple_of(PAGE).max(1 << 16);
            // MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE: only the rows of a sparse plane are ever touched
            let p = mmap(std::ptr::null_mut(), cap + 2 * PAGE, 0, 0x4022, -1, 0);
            assert!(p as isize != -1, "mmap failed");
            assert!(mprotect(p.add(PAGE), cap, 3) == 0);
            self.base = p.add(PAGE);
            self.cap = cap;
        }
    }
    pub fn protect(&mut self) { unsafe { mprotect(self.base, self.cap, 1); } self.ro = true; }
    pub fn unprotect(&mut self) { if self.ro { unsafe { mprotect(self.base, self.cap, 3); } self.ro = false; } }
    pub fn setup(&mut self, elem: Elem, row: usize, rows: usize, l: &PL) {
        let stride = row + l.pad;
        let len = match l.tail { Tail::Exact => stride * rows, Tail::Trim => stride * (rows.max(1) - 1) + row, Tail::Extra => stride * rows + l.extra } * elem.size();
        self.reserve(len + 2 * PAGE);
        let off = match l.place { Place::End => self.cap - len, Place::Start => 0, Place::Mid(k) => 1024 + (k as usize) * elem.size() };
        self.off = off & !(elem.size() - 1);
        self.bytes = len; self.elem = elem; self.row = row; self.rows = rows; self.stride = stride;
    }
    pub fn slice(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.base.add(self.off), self.bytes) } }
    pub fn slice_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.base.add(self.off), self.bytes) } }
    pub fn typed<T>(&self) -> &'static [T] {
        unsafe { std::slice::from_raw_parts(self.base.add(self.off) as *const T, self.bytes / std::mem::size_of::<T>()) }
    }
    pub fn typed_mut<T>(&mut self) -> &'static mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.base.add(self.off) as *mut T, self.bytes / std::mem::size_of::<T>()) }
    }
    pub fn view(&self) -> PlaneView<'_> { PlaneView { bytes: self.slice(), stride: self.stride, elem: self.elem } }
    pub fn view_mut(&mut self) -> PlaneViewMut<'_> { let (stride, elem) = (self.stride, self.elem); PlaneViewMut { bytes: self.slice_mut(), stride, elem } }
    /// the slice plus the canary zone on either side
    fn zone(&self) -> (usize, usize) { (self.off.saturating_sub(512), (self.off + self.bytes + 512).min(self.cap)) }
    pub fn zone_bytes(&self) -> &[u8] { let (a, b) = self.zone(); unsafe { std::slice::from_raw_parts(self.base.add(a), b - a) } }
    /// the zone, or for a sparse plane the neighbourhood of each row
    fn windows(&self) -> Vec<(usize, usize)> {
        if self.bytes <= SPARSE { return vec![self.zone()]; }
        let e = self.elem.size();
        (0..self.rows).map(|y| { let p = self.off + y * self.stride * e; (p.saturating_sub(512), (p + self.row * e + 512).min(self.cap)) }).collect()
    }
    pub fn fill_zone(&mut self, v: u8) { for (a, b) in self.windows() { unsafe { std::ptr::write_bytes(self.base.add(a), v, b - a) } } }
    pub fn fill_random(&mut self, rng: &mut Rng) {
        for (a, b) in self.windows() {
            let s = unsafe { std::slice::from_raw_parts_mut(self.base.add(a), b - a) };
            for c in s.chunks_mut(8) { let v = rng.next().to_le_bytes(); c.copy_from_slice(&v[..c.len()]); }
        }
    }
    /// first byte next to (outside) the slice that is not `v`
    pub fn outside(&self, v: u8) -> Option<String> {
        let (a, b) = self.zone();
        let z = unsafe { std::slice::from_raw_parts(self.base.add(a), b - a) };
        if let Some(i) = z[..self.off - a].iter().rposition(|&x| x != v) { return Some(format!("{} bytes before the buffer", self.off - a - i)); }
        z[self.off + self.bytes - a..].iter().position(|&x| x != v).map(|i| format!("{i} bytes past the end of the buffer"))
    }
    /// first byte of the zone outside the visible rows that is not `v`: (description)
    pub fn stray(&self, v: u8) -> Option<String> {
        let (a, b) = self.zone();
        let e = self.elem.size();
        let z = unsafe { std::slice::from_raw_parts(self.base.add(a), b - a) };
        let mut chk = |lo: usize, hi: usize| -> Option<String> {
            if lo >= hi { return None; }
            z[lo - a..hi - a].iter().position(|&x| x != v).map(|i| {
                let p = (lo + i) as isize - self.off as isize;
                let el = p / e as isize;
                if p < 0 { format!("{} bytes before the buffer", -p) }
                else if p as usize >= self.bytes { format!("{} bytes past the end of the buffer", p as usize - self.bytes) }
                else { format!("row {} column element {} (row length {}, rows {}, stride {})", el / self.stride as isize, el % self.stride as isize, self.row, self.rows, self.stride) }
            })
        };
        if let Some(s) = chk(a, self.off) { return Some(s); }
        for y in 0..self.rows {
            let lo = self.off + (y * self.stride + self.row) * e;
            let mut hi = if y + 1 < self.rows { self.off + (y + 1) * self.stride * e } else { b };
            if self.bytes > SPARSE {
                hi = hi.min(lo + 512);
                if y > 0 { let p = lo - self.row * e; if let Some(s) = chk(p - 512, p) { return Some(s); } }
            }
            if let Some(s) = chk(lo, hi) { return Some(s); }
        }
        None
    }
}
impl Drop for Buf { fn drop(&mut self) { if !self.base.is_null() { unsafe { munmap(self.base.sub(PAGE), self.cap + 2 * PAGE); } } } }

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome { Ok, Err(String), Panic(String) }

pub struct Bench { pub src: Vec<Buf>, pub dst: Vec<Buf>, pub calls: u64, pub stack_fill: u8 }

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
thread_local! { static LAST_ERR: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) }; }
/// Debug and display form of the error the last refused call on this thread returned.
pub fn last_err() -> (String, String) { LAST_ERR.with(|p| p.borrow().clone()) }
pub fn last_panic() -> String { PANIC.with(|p| p.borrow().clone()) }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let non_unwinding = m.contains("unsafe precondition") || m.contains("panic in a function that cannot unwind");
        if non_unwinding { eprintln!("ABORTING-PANIC {m} at {loc}"); }
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
        if std::env::var_os("YUVMON_PANIC").is_some() { eprintln!("panic: {m} at {loc}"); }
    }));
}

/// Leaves `v` in the stack area the next call is going to use, so that reads of uninitialised locals become visible.
#[inline(never)]
pub fn dirty_stack(v: u8) {
    let mut a = std::mem::MaybeUninit::<[u8; 24 * 1024]>::uninit();
    unsafe { std::ptr::write_bytes(a.as_mut_ptr() as *mut u8, v, 24 * 1024); }
    std::hint::black_box(&mut a);
}

impl Bench {
    pub fn new() -> Bench { Bench { src: vec![], dst: vec![], calls: 0, stack_fill: 0x7F } }
    pub fn layout(&mut self, op: &Op, c: &Case) {
        let sd = plane_dims(&op.src, c.w, c.h);
        let (dw, dh) = c.dst_dims(op);
        let dd = plane_dims(&op.dst, dw, dh);
        while self.src.len() < sd.len() { self.src.push(Buf::empty()); }
        while self.dst.len() < dd.len() { self.dst.push(Buf::empty()); }
        for (i, &(r, n)) in sd.iter().enumerate() { self.src[i].setup(op.src.elem, r, n, &c.src[i]); }
        for (i, &(r, n)) in dd.iter().enumerate() { self.dst[i].setup(op.dst.elem, r, n, &c.dst[i]); }
    }
    pub fn nsrc(&self, op: &Op, c: &Case) -> usize { plane_dims(&op.src, 2, 2).len() }
    pub fn ndst(&self, op: &Op, c: &Case) -> usize { plane_dims(&op.dst, 2, 2).len() }
    /// Fill padding and canaries of the sources with noise, then write `img` (or leave the noise for hostile content).
    pub fn put_src(&mut self, op: &Op, c: &Case, img: &Img, noise: u64) {
        let n = self.nsrc(op, c);
        let mut rng = Rng::new(c.seed ^ noise.wrapping_mul(0x51_7C_C1_B7_27_22_0A_95));
        for b in &mut self.src[..n] { b.fill_random(&mut rng); }
        if c.pat == Pat::Hostile {
            // raw noise in the visible area too, but independent of the padding noise
            let mut rng = Rng::new(c.seed ^ 0x4057_11E);
            for b in &mut self.src[..n] {
                let (row, rows, stride, e) = (b.row, b.rows, b.stride, b.elem.size());
                let s = b.slice_mut();
                for y in 0..rows { for i in 0..row * e { s[y * stride * e + i] = rng.next() as u8; } }
            }
            return;
        }
        let mut v: Vec<PlaneViewMut> = self.src[..n].iter_mut().map(|b| b.view_mut()).collect();
        write_img(&op.src, img, &mut v, c.network);
    }
    pub fn read_src(&self, op: &Op, c: &Case) -> Img {
        let v: Vec<PlaneView> = self.src[..self.nsrc(op, c)].iter().map(|b| b.view()).collect();
        read_img(&op.src, &v, c.w, c.h, c.network)
    }
    pub fn read_dst(&self, op: &Op, c: &Case) -> Img {
        let v: Vec<PlaneView> = self.dst[..self.ndst(op, c)].iter().map(|b| b.view()).collect();
        let (dw, dh) = c.dst_dims(op);
        read_img(&op.dst, &v, dw, dh, c.network)
    }
    pub fn fill_dst(&mut self, op: &Op, c: &Case, v: u8) { let n = self.ndst(op, c); for b in &mut self.dst[..n] { b.fill_zone(v); } }
    /// Raw bytes of the visible rows of all destination planes.
    pub fn visible_dst(&self, op: &Op, c: &Case) -> Vec<u8> {
        let mut out = vec![];
        for b in &self.dst[..self.ndst(op, c)] {
            let e = b.elem.size();
            let s = b.slice();
            for y in 0..b.rows { let p = y * b.stride * e; let q = (p + b.row * e).min(s.len()); if p < q { out.extend_from_slice(&s[p..q]); } }
        }
        out
    }
    pub fn call(&mut self, op: &Op, c: &Case, level: &Level) -> Outcome {
        cpu::set(level);
        self.calls += 1;
        let (ns, nd) = (self.nsrc(op, c), self.ndst(op, c));
        let (s, d) = (&self.src[..ns], &mut self.dst[..nd]);
        dirty_stack(self.stack_fill);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| invoke(op, c, s, d)));
        match r {
            Ok(Ok(())) => Outcome::Ok,
            Ok(Err(e)) => { LAST_ERR.with(|p| *p.borrow_mut() = (format!("{e:?}"), format!("{e}"))); Outcome::Err(format!("{e:?}").split('(').next().unwrap().to_string()) }
            Err(_) => Outcome::Panic(PANIC.with(|p| p.borrow().clone())),
        }
    }
}

/// Extra columns/rows claimed by the source image of the two-image operations (contract monitor only).
pub static SRC_DELTA: [std::sync::atomic::AtomicI32; 2] = [std::sync::atomic::AtomicI32::new(0), std::sync::atomic::AtomicI32::new(0)];
fn sdim(c: &Case) -> (u32, u32) {
    let d = |i: usize| SRC_DELTA[i].load(std::sync::atomic::Ordering::Relaxed);
    ((c.w as i64 + d(0) as i64) as u32, (c.h as i64 + d(1) as i64) as u32)
}

fn mode(m: u8) -> YuvConversionMode {
    match m {
        #[cfg(feature = "common")]
        0 => YuvConversionMode::Fast,
        #[cfg(feature = "common")]
        2 => YuvConversionMode::Professional,
        _ => YuvConversionMode::Balanced,
    }
}
pub fn range(c: &Case) -> YuvRange { if c.range == 0 { YuvRange::Limited } else { YuvRange::Full } }
pub fn matrix(c: &Case) -> YuvStandardMatrix {
    use YuvStandardMatrix::*;
    match c.matrix { 0 => Bt601, 1 => Bt709, 2 => Bt2020, 3 => Smpte240, 4 => Bt470_6, 5 => Fcc, _ => Custom(c.kr, c.kb) }
}

fn pl<'a, T: Copy + std::fmt::Debug + 'static>(s: &[Buf], c: &Case) -> YuvPlanarImage<'a, T> {
    YuvPlanarImage { y_plane: s[0].typed(), y_stride: s[0].stride as u32, u_plane: s[1].typed(), u_stride: s[1].stride as u32,
        v_plane: s[2].typed(), v_stride: s[2].stride as u32, width: sdim(c).0, height: sdim(c).1 }
}
fn plm<'a, T: Copy + std::fmt::Debug + 'static>(s: &mut [Buf], c: &Case) -> YuvPlanarImageMut<'a, T> {
    use BufferStoreMut::Borrowed as B;
    YuvPlanarImageMut { y_plane: B(s[0].typed_mut()), y_stride: s[0].stride as u32, u_plane: B(s[1].typed_mut()), u_stride: s[1].stride as u32,
        v_plane: B(s[2].typed_mut()), v_stride: s[2].stride as u32, width: c.w as u32, height: c.h as u32 }
}
fn pla<'a, T: Copy + std::fmt::Debug + 'static>(s: &[Buf], c: &Case) -> YuvPlanarImageWithAlpha<'a, T> {
    YuvPlanarImageWithAlpha { y_plane: s[0].typed(), y_stride: s[0].stride as u32, u_plane: s[1].typed(), u_stride: s[1].stride as u32,
        v_plane: s[2].typed(), v_stride: s[2].stride as u32, a_plane: s[3].typed(), a_stride: s[3].stride as u32, width: c.w as u32, height: c.h as u32 }
}
fn bp<'a, T: Copy + std::fmt::Debug + 'static>(s: &[Buf], c: &Case) -> YuvBiPlanarImage<'a, T> {
    YuvBiPlanarImage { y_plane: s[0].typed(), y_stride: s[0].stride as u32, uv_plane: s[1].typed(), uv_stride: s[1].stride as u32, width: c.w as u32, height: c.h as u32 }
}
fn bpm<'a, T: Copy + std::fmt::Debug + 'static>(s: &mut [Buf], c: &Case) -> YuvBiPlanarImageMut<'a, T> {
    use BufferStoreMut::Borrowed as B;
    YuvBiPlanarImageMut { y_plane: B(s[0].typed_mut()), y_stride: s[0].stride as u32, uv_plane: B(s[1].typed_mut()), uv_stride: s[1].stride as u32, width: c.w as u32, height: c.h as u32 }
}
fn gr<'a, T: Copy + std::fmt::Debug + 'static>(s: &[Buf], c: &Case) -> YuvGrayImage<'a, T> {
    YuvGrayImage { y_plane: s[0].typed(), y_stride: s[0].stride as u32, width: c.w as u32, height: c.h as u32 }
}
fn gra<'a, T: Copy + std::fmt::Debug + 'static>(s: &[Buf], c: &Case) -> YuvGrayAlphaImage<'a, T> {
    YuvGrayAlphaImage { y_plane: s[0].typed(), y_stride: s[0].stride as u32, a_plane: s[1].typed(), a_stride: s[1].stride as u32, width: c.w as u32, height: c.h as u32 }
}
fn pk<'a, T: Copy + std::fmt::Debug + 'static>(s: &[Buf], c: &Case) -> YuvPackedImage<'a, T> {
    YuvPackedImage { yuy: s[0].typed(), yuy_stride: s[0].stride as u32, width: sdim(c).0, height: sdim(c).1 }
}
fn pkm<'a, T: Copy + std::fmt::Debug + 'static>(s: &mut [Buf], c: &Case) -> YuvPackedImageMut<'a, T> {
    YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(s[0].typed_mut()), yuy_stride: s[0].stride as u32, width: c.w as u32, height: c.h as u32 }
}

fn invoke(op: &Op, c: &Case, s: &[Buf], d: &mut [Buf]) -> Result<(), YuvError> {
    let (rg, mx, md) = (range(c), matrix(c), mode(c.mode));
    let bo = if c.network { Rgb30ByteOrder::Network } else { Rgb30ByteOrder::Host };
    let gm = [SharpYuvGammaTransfer::Srgb, SharpYuvGammaTransfer::Rec709, SharpYuvGammaTransfer::Gamma2p2, SharpYuvGammaTransfer::Gamma2p8][c.gamma as usize & 3];
    let ds = d[0].stride as u32;
    let ss = s[0].stride as u32;
    let (w, h) = (c.w, c.h);
    let (w32, h32) = (w as u32, h as u32);
    let bits = c.depth as usize;
    match op.call {
        Call::C0(f) => f(&bp(s, c), d[0].typed_mut(), ds, rg, mx, md),
        Call::C1(f) => f(&bp(s, c), d[0].typed_mut(), ds, rg, mx),
        Call::C2(f) => f(&bp(s, c), d[0].typed_mut(), ds, rg, mx, md),
        Call::C3(f) => f(&mut bpm(d, c), s[0].typed(), ss, rg, mx, md),
        Call::C4(f) => f(&pl(s, c), d[0].typed_mut(), ds, rg, mx),
        Call::C5(f) => f(&mut plm(d, c), s[0].typed(), ss, rg, mx, md),
        Call::C6(f) => f(&mut plm(d, c), s[0].typed(), ss, rg, mx),
        Call::C7(f) => f(&pla(s, c), d[0].typed_mut(), ds, rg, mx, c.premul),
        Call::C8(f) => {
            let mut g = YuvGrayImageMut { y_plane: BufferStoreMut::Borrowed(d[0].typed_mut()), y_stride: ds, width: w32, height: h32 };
            f(&mut g, s[0].typed(), ss, rg, mx)
        }
        Call::C9(f) => f(&gr(s, c), d[0].typed_mut(), ds, rg, mx),
        Call::C10(f) => f(&pl(s, c), d[0].typed_mut(), ds, rg, mx),
        Call::C11(f) => f(&mut plm(d, c), s[0].typed(), ss, rg),
        Call::C12(f) => f(&pl(s, c), d[0].typed_mut(), ds, rg),
        Call::C13(f) => f(&pl(s, c), d[0].typed_mut(), ds, rg),
        Call::C14(f) => f(&pla(s, c), d[0].typed_mut(), ds, rg),
        Call::C15(f) => f(&pla(s, c), d[0].typed_mut(), ds, rg),
        Call::C16(f) => f(&mut pkm(d, c), &pl(s, c)),
        Call::C17(f) => f(&mut plm(d, c), &pk(s, c)),
        Call::C18(f) => f(&mut plm(d, c), s[0].typed(), ss, rg),
        Call::C19(f) => f(&mut bpm(d, c), s[0].typed(), ss, rg, mx),
        Call::C20(f) => f(&pk(s, c), d[0].typed_mut(), ds, rg, mx),
        Call::C21(f) => f(&mut plm(d, c), &pk(s, c)),
        Call::C22(f) => f(&mut pkm(d, c), &pl(s, c)),
        Call::C23(f) => f(&pk(s, c), d[0].typed_mut(), ds, c.depth, rg, mx),
        Call::C24(f) => f(&mut plm(d, c), s[0].typed(), ss, rg, mx, gm),
        Call::C25(f) => f(&pl(s, c), d[0].typed_mut(), ds, rg),
        Call::C26(f) => f(&pla(s, c), d[0].typed_mut(), ds, rg),
        Call::C27(f) => f(&gr(s, c), d[0].typed_mut(), ds, rg, mx),
        Call::C28(f) => f(&gra(s, c), d[0].typed_mut(), ds, rg, mx),
        Call::C29(f) => f(&gra(s, c), d[0].typed_mut(), ds, rg, mx),
        Call::C30(f) => f(&pla(s, c), d[0].typed_mut(), ds, rg, mx),
        Call::C31(f) => f(&pla(s, c), d[0].typed_mut(), ds, rg, mx),
        Call::C32(f) => f(&pl(s, c), d[0].typed_mut(), ds, rg, mx),
        Call::C33(f) => f(&pla(s, c), d[0].typed_mut(), ds, rg, mx),
        Call::C34(f) => f(s[0].typed(), ss, bo, d[0].typed_mut(), ds, w32, h32),
        Call::C35(f) => f(s[0].typed(), s[0].stride, d[0].typed_mut(), d[0].stride, bits, w, h),
        Call::C36(f) => f(s[0].typed(), s[0].stride, d[0].typed_mut(), d[0].stride, w, h),
        Call::C37(f) => f(s[0].typed(), s[0].stride, d[0].typed_mut(), d[0].stride, bits, w, h),
        Call::C38(f) => f(s[0].typed(), s[0].stride, d[0].typed_mut(), d[0].stride, w, h),
        Call::C39(f) => f(s[0].typed(), s[0].stride, d[0].typed_mut(), d[0].stride, w, h, rot(c)),
        Call::C40(f) => f(s[0].typed(), s[0].stride, d[0].typed_mut(), d[0].stride, w, h, rot(c)),
        Call::C41(f) => f(s[0].typed(), s[0].stride, d[0].typed_mut(), d[0].stride, w, h, mir(c)),
        Call::C42(f) => f(s[0].typed(), s[0].stride, d[0].typed_mut(), d[0].stride, w, h, mir(c)),
        Call::C43(f) => f(d[0].typed_mut(), ds, bo, s[0].typed(), ss, w32, h32),
        Call::C44(f) => f(d[0].typed_mut(), ds, bo, s[0].typed(), ss, w32, h32),
        Call::C45(f) => f(s[0].typed(), ss, d[0].typed_mut(), ds, w32, h32),
        Call::C46(f) => f(&bp(s, c), d[0].typed_mut(), ds, bo, rg, mx),
        Call::C47(f) => f(&pl(s, c), d[0].typed_mut(), ds, bo, rg, mx),
        Call::C48(f) => f(&mut plm(d, c), s[0].typed(), ss),
        Call::C49(f) => f(&pl(s, c), d[0].typed_mut(), ds),
        Call::C50(f) => f(&pl(s, c), d[0].typed_mut(), ds, rg, mx),
        Call::C51(f) => f(&pk(s, c), d[0].typed_mut(), ds, rg, mx, c.premul),
    }
}
fn rot(c: &Case) -> RotationMode { [RotationMode::Rotate90, RotationMode::Rotate180, RotationMode::Rotate270][c.geo as usize % 3] }
fn mir(c: &Case) -> MirrorMode { if c.geo & 1 == 0 { MirrorMode::Vertical } else { MirrorMode::Horizontal } }

/// Runs one case from scratch and hashes the destination zones (visible samples, padding and canaries).
pub fn execute(b: &mut Bench, op: &Op, c: &Case, l: &Level) -> (Outcome, u64) {
    let img = crate::oracle::gen_src(op, c);
    b.layout(op, c); b.put_src(op, c, &img, 1); b.fill_dst(op, c, 0xA5);
    let o = b.call(op, c, l);
    (o, dst_hash(b, op, c))
}
pub fn dst_hash(b: &Bench, op: &Op, c: &Case) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    let n = b.ndst(op, c);
    for d in &b.dst[..n] { for x in d.zone_bytes() { h = (h ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(5); } }
    h
}

pub const KINDS: u32 = 22;
/// One more, for images with planes of 65537 rows: a stride whose product with the rows wraps around in 32 bits to just what the buffer holds.
pub const KIND_WRAP: u32 = 23;
/// Applies corruption `c.mutn` to the prepared arguments; returns the case to call with and what was done.
pub fn corrupt_args(bn: &mut Bench, op: &Op, c: &Case) -> (Case, String) {
    let kind = c.mutn / 16;
    let (side, plane) = ((c.mutn / 8) & 1, (c.mutn & 7) as usize);
    let mut m = c.clone();
    let (ns, nd) = (bn.nsrc(op, c), bn.ndst(op, c));
    let mut what = String::new();
    {
        let b = if side == 0 { &mut bn.src[plane % ns] } else { &mut bn.dst[plane % nd] };
        let e = b.elem.size();
        let min = b.stride * (b.rows - 1) + b.row;
        match kind {
            1 => b.stride = 0,
            2 => b.stride = b.row - 1,
            3 => b.stride = b.row / 2,
            4 => b.bytes = (min - 1) * e,
            5 => b.bytes = 0,
            6 => b.bytes = (min / 2) * e,
            7 => m.w = 0,
            8 => m.h = 0,
            9 => m.w = u32::MAX as usize,
            10 => m.h = u32::MAX as usize,
            11 => { m.w = u32::MAX as usize; m.h = u32::MAX as usize; }
            12 => m.w += 1,
            13 => m.h += 1,
            14 => b.stride = u32::MAX as usize,
            15 => m.w = 0x4000_0001,
            16 | 17 | 22 => {}
            KIND_WRAP => b.stride = 65537 * b.row,
            18 => m.w = m.w * 2 + 3,
            19 => m.h = m.h * 2 + 3,
            20 => { m.w = 65536; m.h = 65537; }
            _ => b.stride = b.row.saturating_sub(3),
        }
        if matches!(kind, 1..=6 | 14 | 21 | KIND_WRAP) { what = format!("{} plane {}: ", if side == 0 { "source" } else { "destination" }, plane % if side == 0 { ns } else { nd }); }
    }
    if kind == 22 { m.h = 65537; for b in bn.src[..ns].iter_mut().chain(&mut bn.dst[..nd]) { b.stride = 131072; } }
    what.push_str(["", "stride 0", "stride one short of the row", "stride half of the row", "buffer one element too short", "empty buffer", "buffer half as long", "width 0", "height 0", "width u32::MAX", "height u32::MAX",
        "both dimensions u32::MAX", "width one larger than the buffers", "height one larger than the buffers", "stride u32::MAX", "width 0x40000001", "source image wider than the destination", "source image taller than the destination",
        "width more than doubled", "height more than doubled", "65536x65537", "stride short of the row", "65537 rows of stride 131072", "65537 rows of a stride that wraps around"][kind as usize]);
    (m, what)
}
pub fn call_corrupted(b: &mut Bench, op: &Op, c: &Case, m: &Case, l: &Level) -> Outcome {
    use std::sync::atomic::Ordering::Relaxed;
    if c.mutn / 16 == 16 { SRC_DELTA[0].store(2, Relaxed); }
    if c.mutn / 16 == 17 { SRC_DELTA[1].store(2, Relaxed); }
    let o = b.call(op, m, l);
    SRC_DELTA[0].store(0, Relaxed); SRC_DELTA[1].store(0, Relaxed);
    o
}
