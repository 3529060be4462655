//! C21 image descriptors, C14 concurrency and feature equivalence.
use crate::oracle::*; use crate::tol; use crate::case::*; use crate::cpu::Level; use crate::engine::*; use crate::exec::*; use crate::fmt::*; use crate::gen::*; use crate::props::*;
use std::fmt::Debug;
use std::io::{BufRead, Write};
use yuv::*;

fn ss_of(k: usize) -> (YuvChromaSubsampling, usize, usize, &'static str) {
    match k % 3 { 0 => (YuvChromaSubsampling::Yuv420, 2, 2, "420"), 1 => (YuvChromaSubsampling::Yuv422, 2, 1, "422"), _ => (YuvChromaSubsampling::Yuv444, 1, 1, "444") }
}

/// C21
pub struct Descriptors;
pub const KINDS: [&str; 10] = ["planar", "planar_mut", "planar_alpha", "biplanar", "biplanar_mut", "gray", "gray_mut", "gray_alpha", "packed", "packed_mut"];

/// The planes an image of this kind consists of: (row length, rows, must be contiguous and exact)
fn geometry(kind: &str, w: usize, h: usize, sx: usize, sy: usize, p444: bool) -> Vec<(usize, usize, bool)> {
    let (cw, ch) = (w.div_ceil(sx), h.div_ceil(sy));
    match kind {
        "planar" | "planar_mut" => vec![(w, h, false), (cw, ch, false), (cw, ch, false)],
        "planar_alpha" => vec![(w, h, false), (cw, ch, false), (cw, ch, false), (w, h, false)],
        "biplanar" | "biplanar_mut" => vec![(w, h, false), (2 * cw, ch, true)],
        "gray" | "gray_mut" => vec![(w, h, false)],
        "gray_alpha" => vec![(w, h, false), (w, h, false)],
        _ => if p444 { vec![(4 * w, h, false)] } else { vec![(w.div_ceil(2) * 4, h, true)] },
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict { Ok, Bad, Either }
/// What the library has to say about one plane: the descriptor is right, cannot describe the image, or is a matter of taste.
fn plane_verdict(g: (usize, usize, bool), stride: usize, len: usize) -> Verdict {
    let (row, rows, contiguous) = g;
    if stride < row || (len as u128) < stride as u128 * (rows as u128 - 1) + row as u128 { return Verdict::Bad; }
    if len as u128 != stride as u128 * rows as u128 { return Verdict::Either; }
    if contiguous && stride != row { return Verdict::Either; }
    Verdict::Ok
}
/// A slice nobody may read: descriptor checks look at lengths only.
fn phantom<T: 'static>(base: *const u8, len: usize) -> &'static [T] { unsafe { std::slice::from_raw_parts(base as *const T, len) } }
fn phantom_mut<T: 'static>(base: *const u8, len: usize) -> &'static mut [T] { unsafe { std::slice::from_raw_parts_mut(base as *mut T, len) } }
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
const RESERVE: usize = 1 << 35;
fn reservation() -> *const u8 {
    static B: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    // address space only: PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
    *B.get_or_init(|| unsafe { let p = mmap(std::ptr::null_mut(), RESERVE, 0, 0x4022, -1, 0); if p as isize == -1 { 0 } else { p as usize } }) as *const u8
}
#[derive(Clone, Debug)]
struct Desc { kind: &'static str, wide: bool, w: usize, h: usize, ss: usize, p444: bool, st: Vec<usize>, ln: Vec<usize> }
impl Desc {
    fn line(&self) -> String {
        let j = |v: &Vec<usize>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        format!("descriptor kind={} elem={} w={} h={} ss={} p444={} strides={} lens={}", self.kind, if self.wide { "u16" } else { "u8" }, self.w, self.h, ss_of(self.ss).3, self.p444 as u8, j(&self.st), j(&self.ln))
    }
    fn parse(s: &str) -> Option<Desc> {
        let g = |k: &str| s.split_whitespace().find_map(|t| t.strip_prefix(k).and_then(|t| t.strip_prefix('=')));
        let l = |k: &str| g(k).map(|v| v.split(',').filter_map(|x| x.parse().ok()).collect::<Vec<usize>>());
        Some(Desc { kind: KINDS.iter().find(|k| Some(**k) == g("kind"))?, wide: g("elem")? == "u16", w: g("w")?.parse().ok()?, h: g("h")?.parse().ok()?,
            ss: (0..3).find(|k| Some(ss_of(*k).3) == g("ss"))?, p444: g("p444")? == "1", st: l("strides")?, ln: l("lens")? })
    }
    fn verdict(&self) -> Verdict {
        if self.w == 0 || self.h == 0 { return Verdict::Bad; }
        let (_, sx, sy, _) = ss_of(self.ss);
        let mut r = Verdict::Ok;
        for (i, g) in geometry(self.kind, self.w, self.h, sx, sy, self.p444).into_iter().enumerate() {
            match plane_verdict(g, self.st[i], self.ln[i]) { Verdict::Bad => return Verdict::Bad, Verdict::Either => r = Verdict::Either, Verdict::Ok => {} }
        }
        r
    }
    fn check<T: Copy + Debug + Default + 'static>(&self, base: *const u8) -> Result<(), String> {
        use BufferStoreMut::Borrowed as B;
        let ss = ss_of(self.ss).0;
        let (width, height) = (self.w as u32, self.h as u32);
        let p = |i: usize| phantom::<T>(base, self.ln[i]);
        let m = |i: usize| B(phantom_mut::<T>(base, self.ln[i]));
        let s = |i: usize| self.st[i] as u32;
        let r = match self.kind {
            "planar" => YuvPlanarImage { y_plane: p(0), y_stride: s(0), u_plane: p(1), u_stride: s(1), v_plane: p(2), v_stride: s(2), width, height }.check_constraints(ss),
            "planar_mut" => YuvPlanarImageMut { y_plane: m(0), y_stride: s(0), u_plane: m(1), u_stride: s(1), v_plane: m(2), v_stride: s(2), width, height }.check_constraints(ss),
            "planar_alpha" => YuvPlanarImageWithAlpha { y_plane: p(0), y_stride: s(0), u_plane: p(1), u_stride: s(1), v_plane: p(2), v_stride: s(2), a_plane: p(3), a_stride: s(3), width, height }.check_constraints(ss),
            "biplanar" => YuvBiPlanarImage { y_plane: p(0), y_stride: s(0), uv_plane: p(1), uv_stride: s(1), width, height }.check_constraints(ss),
            "biplanar_mut" => YuvBiPlanarImageMut { y_plane: m(0), y_stride: s(0), uv_plane: m(1), uv_stride: s(1), width, height }.check_constraints(ss),
            "gray" => YuvGrayImage { y_plane: p(0), y_stride: s(0), width, height }.check_constraints(),
            "gray_mut" => YuvGrayImageMut { y_plane: m(0), y_stride: s(0), width, height }.check_constraints(),
            "gray_alpha" => YuvGrayAlphaImage { y_plane: p(0), y_stride: s(0), a_plane: p(1), a_stride: s(1), width, height }.check_constraints(),
            "packed" => { let i = YuvPackedImage { yuy: p(0), yuy_stride: s(0), width, height }; if self.p444 { i.check_constraints444() } else { i.check_constraints() } }
            _ => YuvPackedImageMut { yuy: m(0), yuy_stride: s(0), width, height }.check_constraints(),
        };
        r.map_err(|e| format!("{e:?} / {e}"))
    }
    /// Read-only views of this (borrowed or owned, valid or not) mutable image: every field has to be the one of the image.
    fn views<T: Copy + Debug + Default + 'static>(&self, base: *const u8, owned: bool) -> Option<String> {
        let (width, height) = (self.w as u32, self.h as u32);
        let ss = ss_of(self.ss).0;
        let m = |i: usize| if owned { BufferStoreMut::Owned(vec![T::default(); self.ln[i]]) } else { BufferStoreMut::Borrowed(phantom_mut::<T>(base.wrapping_add(64 * (i + 1)), self.ln[i])) };
        let s = |i: usize| self.st[i] as u32;
        type F<T> = (&'static str, *const T, usize, u32);
        fn f<T>(n: &'static str, p: &[T], s: u32) -> F<T> { (n, p.as_ptr(), p.len(), s) }
        fn diff<T>(what: &str, a: &[F<T>], b: &[F<T>], size: (u32, u32), want: (u32, u32)) -> Option<String> {
            if size != want { return Some(format!("{what} says the image is {}x{}", size.0, size.1)); }
            a.iter().zip(b).find(|(x, y)| (x.1, x.2, x.3) != (y.1, y.2, y.3)).map(|(x, y)| format!("{what} has another {} plane (stride {} for {}, {} elements for {}{})", x.0, y.3, x.3, y.2, x.2, if x.1 != y.1 { ", elsewhere" } else { "" }))
        }
        let store = |i: usize, mut b: BufferStoreMut<'static, T>| -> Option<String> {
            let (p, l) = (b.borrow().as_ptr(), b.borrow().len());
            if l != self.ln[i] || (!owned && p != base.wrapping_add(64 * (i + 1)) as *const T) { return Some(format!("borrow() gives {l} elements of {}", self.ln[i])); }
            let q = b.borrow_mut();
            if q.as_ptr() != p || q.len() != l { return Some("borrow_mut() and borrow() differ".into()); }
            None
        };
        if let Some(b) = (0..self.ln.len()).find_map(|i| store(i, m(i))) { return Some(b); }
        let verdict = |a: Result<(), YuvError>, b: Result<(), YuvError>| if a.is_ok() != b.is_ok() { Some(format!("the image is judged {a:?} and its view {b:?}")) } else { None };
        match self.kind {
            "planar_mut" => {
                let i = YuvPlanarImageMut { y_plane: m(0), y_stride: s(0), u_plane: m(1), u_stride: s(1), v_plane: m(2), v_stride: s(2), width, height };
                let v = i.to_fixed();
                diff("to_fixed", &[f("Y", i.y_plane.borrow(), i.y_stride), f("U", i.u_plane.borrow(), i.u_stride), f("V", i.v_plane.borrow(), i.v_stride)],
                    &[f("Y", v.y_plane, v.y_stride), f("U", v.u_plane, v.u_stride), f("V", v.v_plane, v.v_stride)], (v.width, v.height), (width, height)).or_else(|| verdict(i.check_constraints(ss), v.check_constraints(ss)))
            }
            "biplanar_mut" => {
                let i = YuvBiPlanarImageMut { y_plane: m(0), y_stride: s(0), uv_plane: m(1), uv_stride: s(1), width, height };
                let found = [("to_fixed", i.to_fixed()), ("from_mut", YuvBiPlanarImage::from_mut(&i))].into_iter().find_map(|(n, v)|
                    diff(n, &[f("Y", i.y_plane.borrow(), i.y_stride), f("UV", i.uv_plane.borrow(), i.uv_stride)], &[f("Y", v.y_plane, v.y_stride), f("UV", v.uv_plane, v.uv_stride)], (v.width, v.height), (width, height))
                        .or_else(|| verdict(i.check_constraints(ss), v.check_constraints(ss))));
                found
            }
            "gray_mut" => {
                let i = YuvGrayImageMut { y_plane: m(0), y_stride: s(0), width, height };
                let v = i.to_fixed();
                diff("to_fixed", &[f("Y", i.y_plane.borrow(), i.y_stride)], &[f("Y", v.y_plane, v.y_stride)], (v.width, v.height), (width, height)).or_else(|| verdict(i.check_constraints(), v.check_constraints()))
            }
            "packed_mut" => {
                let i = YuvPackedImageMut { yuy: m(0), yuy_stride: s(0), width, height };
                let v = i.to_fixed();
                diff("to_fixed", &[f("packed", i.yuy.borrow(), i.yuy_stride)], &[f("packed", v.yuy, v.yuy_stride)], (v.width, v.height), (width, height)).or_else(|| verdict(i.check_constraints(), v.check_constraints()))
            }
            _ => None,
        }
    }
}
impl Descriptors {
    fn judge_desc(&self, cx: &mut Cx, d: &Desc) {
        let line = d.line();
        cx.note_journal(&format!("op={} level=- {line}", d.kind));
        cx.count("calls", 1);
        let base = reservation();
        let es = if d.wide { 2 } else { 1 };
        if d.ln.iter().any(|l| l * es > RESERVE) || base.is_null() { cx.count("skipped", 1); return; }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if d.wide { d.check::<u16>(base) } else { d.check::<u8>(base) }));
        let v = d.verdict();
        cx.count(match v { Verdict::Ok => "must_accept", Verdict::Bad => "must_reject", Verdict::Either => "either" }, 1);
        match (&r, v) {
            (Err(_), _) => cx.violation_line("verdict", d.kind, "-", "check_constraints panicked", &line),
            (Ok(Err(e)), Verdict::Ok) => cx.violation_line("verdict", d.kind, "-", &format!("a correct descriptor is rejected: {e}"), &line),
            (Ok(Ok(())), Verdict::Bad) => cx.violation_line("verdict", d.kind, "-", "a descriptor whose buffers cannot hold the image is accepted", &line),
            _ => {}
        }
        if d.kind.ends_with("_mut") {
            let owned = d.ln.iter().sum::<usize>() < 4096;
            for o in if owned { &[false, true][..] } else { &[false][..] } {
                cx.count("views", 1);
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if d.wide { d.views::<u16>(base, *o) } else { d.views::<u8>(base, *o) })) {
                    Ok(None) => {}
                    Ok(Some(m)) => cx.violation_line("view", d.kind, "-", &m, &line),
                    Err(_) => cx.violation_line("view", d.kind, "-", "making a read-only view panicked", &line),
                }
            }
        }
        if v != Verdict::Either {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            line.hash(&mut h);
            cx.distinct.insert(h.finish());
            cx.sample(|| format!("{line} -> {r:?}"));
        }
    }
    fn alloc_check<T: Copy + Debug + Default + PartialEq + 'static>(&self, cx: &mut Cx, kind: &str, w: usize, h: usize, k: usize, tn: &str) {
        let (ss, sx, sy, sn) = ss_of(k);
        let (cw, ch) = (w.div_ceil(sx), h.div_ceil(sy));
        let line = format!("alloc kind={kind} elem={tn} w={w} h={h} ss={sn}");
        cx.note_journal(&format!("op={kind} level=- {line}"));
        cx.count("calls", 1); cx.count("allocations", 1);
        let z = T::default();
        let bad: Option<String> = (|| {
            macro_rules! plane { ($n:expr, $b:expr, $s:expr, $row:expr, $rows:expr) => {{
                if $s as usize != $row { return Some(format!("{} stride is {} instead of {}", $n, $s, $row)); }
                if $b.borrow().len() != $row * $rows { return Some(format!("{} holds {} elements instead of {}", $n, $b.borrow().len(), $row * $rows)); }
                if !$b.borrow().iter().all(|v| *v == z) { return Some(format!("{} is not zeroed", $n)); }
            }} }
            macro_rules! same { ($n:expr, $b:expr, $bs:expr, $p:expr, $ps:expr) => {
                if $b.borrow().as_ptr() != $p.as_ptr() || $b.borrow().len() != $p.len() || $bs != $ps { return Some(format!("the read-only view has another {}", $n)); }
            } }
            macro_rules! verdict { ($i:expr) => {{
                for q in 0..3 {
                    let (s2, x2, y2, n2) = ss_of(q);
                    let same = w.div_ceil(x2) == cw && h.div_ceil(y2) == ch;
                    let fits = w.div_ceil(x2) <= cw && h.div_ceil(y2) <= ch;
                    let r = $i.check_constraints(s2);
                    if same && r.is_err() { return Some(format!("rejected as {n2}: {r:?}")); }
                    if !fits && r.is_ok() { return Some(format!("accepted as {n2}")); }
                }
            }} }
            match kind {
                "planar_mut" => {
                    let i = YuvPlanarImageMut::<T>::alloc(w as u32, h as u32, ss);
                    if (i.width as usize, i.height as usize) != (w, h) { return Some("wrong size".into()); }
                    plane!("Y", i.y_plane, i.y_stride, w, h); plane!("U", i.u_plane, i.u_stride, cw, ch); plane!("V", i.v_plane, i.v_stride, cw, ch);
                    verdict!(i);
                    let f = i.to_fixed();
                    if (f.width as usize, f.height as usize) != (w, h) { return Some("wrong size in the read-only view".into()); }
                    same!("Y plane", i.y_plane, i.y_stride, f.y_plane, f.y_stride); same!("U plane", i.u_plane, i.u_stride, f.u_plane, f.u_stride); same!("V plane", i.v_plane, i.v_stride, f.v_plane, f.v_stride);
                    verdict!(f);
                }
                "biplanar_mut" => {
                    let i = YuvBiPlanarImageMut::<T>::alloc(w as u32, h as u32, ss);
                    if (i.width as usize, i.height as usize) != (w, h) { return Some("wrong size".into()); }
                    plane!("Y", i.y_plane, i.y_stride, w, h); plane!("UV", i.uv_plane, i.uv_stride, 2 * cw, ch);
                    verdict!(i);
                    for f in [i.to_fixed(), YuvBiPlanarImage::from_mut(&i)] {
                        if (f.width as usize, f.height as usize) != (w, h) { return Some("wrong size in the read-only view".into()); }
                        same!("Y plane", i.y_plane, i.y_stride, f.y_plane, f.y_stride); same!("UV plane", i.uv_plane, i.uv_stride, f.uv_plane, f.uv_stride);
                        verdict!(f);
                    }
                }
                _ => {
                    let i = YuvGrayImageMut::<T>::alloc(w as u32, h as u32);
                    if (i.width as usize, i.height as usize) != (w, h) { return Some("wrong size".into()); }
                    plane!("Y", i.y_plane, i.y_stride, w, h);
                    if let Err(e) = i.check_constraints() { return Some(format!("rejected: {e:?}")); }
                    let f = i.to_fixed();
                    same!("Y plane", i.y_plane, i.y_stride, f.y_plane, f.y_stride);
                    if (f.width as usize, f.height as usize) != (w, h) { return Some("wrong size in the read-only view".into()); }
                    if let Err(e) = f.check_constraints() { return Some(format!("rejected: {e:?}")); }
                }
            }
            None
        })();
        if let Some(m) = bad { cx.violation_line("alloc", kind, "-", &m, &line); }
        use std::hash::{Hash, Hasher};
        let mut hh = std::collections::hash_map::DefaultHasher::new();
        line.hash(&mut hh);
        cx.distinct.insert(hh.finish());
    }
    /// Images that own their memory work exactly like images that borrow it, through a whole round trip.
    fn owned_check(&self, cx: &mut Cx, w: usize, h: usize, k: usize, rng: &mut Rng) {
        let (ss, sx, sy, sn) = ss_of(k);
        let (cw, ch) = (w.div_ceil(sx), h.div_ceil(sy));
        let line = format!("owned w={w} h={h} ss={sn}");
        cx.note_journal(&format!("op=owned level=- {line}"));
        cx.count("calls", 4); cx.count("owned_round_trips", 1);
        let rgb: Vec<u8> = (0..w * h * 4).map(|_| rng.next() as u8).collect();
        let (r, m, md) = (YuvRange::Full, YuvStandardMatrix::Bt709, YuvConversionMode::Balanced);
        let res: Result<Option<String>, YuvError> = (|| {
            let mut own = YuvPlanarImageMut::<u8>::alloc(w as u32, h as u32, ss);
            let (mut y, mut u, mut v) = (vec![7u8; w * h], vec![7u8; cw * ch], vec![7u8; cw * ch]);
            {
                let mut b = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(&mut y), y_stride: w as u32, u_plane: BufferStoreMut::Borrowed(&mut u), u_stride: cw as u32,
                    v_plane: BufferStoreMut::Borrowed(&mut v), v_stride: cw as u32, width: w as u32, height: h as u32 };
                let f = match k % 3 { 0 => rgba_to_yuv420, 1 => rgba_to_yuv422, _ => rgba_to_yuv444 };
                f(&mut own, &rgb, 4 * w as u32, r, m, md)?; f(&mut b, &rgb, 4 * w as u32, r, m, md)?;
            }
            if own.y_plane.borrow() != &y[..] || own.u_plane.borrow() != &u[..] || own.v_plane.borrow() != &v[..] { return Ok(Some("an owned planar image receives other samples than a borrowed one".into())); }
            own.y_plane.borrow_mut()[0] ^= 1;
            if own.y_plane.borrow()[0] != y[0] ^ 1 { return Ok(Some("borrow_mut and borrow disagree".into())); }
            own.y_plane.borrow_mut()[0] ^= 1;
            let (mut o1, mut o2) = (vec![0u8; w * h * 4], vec![0u8; w * h * 4]);
            let f = match k % 3 { 0 => yuv420_to_rgba, 1 => yuv422_to_rgba, _ => yuv444_to_rgba };
            f(&own.to_fixed(), &mut o1, 4 * w as u32, r, m)?;
            f(&YuvPlanarImage { y_plane: &y, y_stride: w as u32, u_plane: &u, u_stride: cw as u32, v_plane: &v, v_stride: cw as u32, width: w as u32, height: h as u32 }, &mut o2, 4 * w as u32, r, m)?;
            if o1 != o2 { return Ok(Some("the view of an owned planar image decodes differently".into())); }
            let mut own = YuvBiPlanarImageMut::<u8>::alloc(w as u32, h as u32, ss);
            let (mut y, mut uv) = (vec![7u8; w * h], vec![7u8; 2 * cw * ch]);
            {
                let mut b = YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(&mut y), y_stride: w as u32, uv_plane: BufferStoreMut::Borrowed(&mut uv), uv_stride: 2 * cw as u32, width: w as u32, height: h as u32 };
                let f = match k % 3 { 0 => rgba_to_yuv_nv12, 1 => rgba_to_yuv_nv16, _ => rgba_to_yuv_nv24 };
                f(&mut own, &rgb, 4 * w as u32, r, m, md)?; f(&mut b, &rgb, 4 * w as u32, r, m, md)?;
            }
            if own.y_plane.borrow() != &y[..] || own.uv_plane.borrow() != &uv[..] { return Ok(Some("an owned bi-planar image receives other samples than a borrowed one".into())); }
            let f = match k % 3 { 0 => yuv_nv12_to_rgba, 1 => yuv_nv16_to_rgba, _ => yuv_nv24_to_rgba };
            f(&YuvBiPlanarImage::from_mut(&own), &mut o1, 4 * w as u32, r, m, md)?;
            f(&YuvBiPlanarImage { y_plane: &y, y_stride: w as u32, uv_plane: &uv, uv_stride: 2 * cw as u32, width: w as u32, height: h as u32 }, &mut o2, 4 * w as u32, r, m, md)?;
            if o1 != o2 { return Ok(Some("the view of an owned bi-planar image decodes differently".into())); }
            let mut own = YuvGrayImageMut::<u8>::alloc(w as u32, h as u32);
            let mut y = vec![7u8; w * h];
            {
                let mut b = YuvGrayImageMut { y_plane: BufferStoreMut::Borrowed(&mut y), y_stride: w as u32, width: w as u32, height: h as u32 };
                rgba_to_yuv400(&mut own, &rgb, 4 * w as u32, r, m)?; rgba_to_yuv400(&mut b, &rgb, 4 * w as u32, r, m)?;
            }
            if own.y_plane.borrow() != &y[..] { return Ok(Some("an owned gray image receives other samples than a borrowed one".into())); }
            yuv400_to_rgba(&own.to_fixed(), &mut o1, 4 * w as u32, r, m)?;
            yuv400_to_rgba(&YuvGrayImage { y_plane: &y, y_stride: w as u32, width: w as u32, height: h as u32 }, &mut o2, 4 * w as u32, r, m)?;
            if o1 != o2 { return Ok(Some("the view of an owned gray image decodes differently".into())); }
            Ok(None)
        })();
        match res {
            Ok(None) => {}
            Ok(Some(s)) => cx.violation_line("owned", sn, "-", &s, &line),
            Err(e) => cx.violation_line("owned", sn, "-", &format!("{e:?}"), &line),
        }
    }
}
impl Prop for Descriptors {
    fn id(&self) -> &'static str { "C21" }
    fn units(&self, _cx: &Cx) -> Vec<String> { KINDS.iter().map(|s| s.to_string()).chain(["constants".to_string(), "owned".to_string()]).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 3000 } else { 200_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        if unit == "constants" {
            if round > 0 { return; }
            use YuvStandardMatrix::*;
            for (n, m, kr, kb) in [("Bt601", Bt601, 0.299, 0.114), ("Bt709", Bt709, 0.2126, 0.0722), ("Bt2020", Bt2020, 0.2627, 0.0593), ("Smpte240", Smpte240, 0.087, 0.212),
                ("Bt470_6", Bt470_6, 0.2220, 0.0713), ("Fcc", Fcc, 0.30, 0.11), ("Custom", Custom(0.2345, 0.0678), 0.2345, 0.0678)] {
                let b = m.get_kr_kb();
                cx.count("calls", 1);
                if b.kr != kr || b.kb != kb { cx.violation_line("constants", n, "-", &format!("kr/kb are {}/{} instead of {kr}/{kb}", b.kr, b.kb), &format!("constants {n}")); }
            }
            return;
        }
        if unit == "owned" { for k in 0..3 { let (w, h) = (rng.range(1, 90), rng.range(1, 9)); self.owned_check(cx, w, h, k, rng); } return; }
        let kind = *KINDS.iter().find(|k| **k == unit).unwrap();
        let n = if cx.tier == Tier::Quick { 400 } else { 1500 };
        for k in 0..n {
            let (w, h) = match rng.below(10) { 0 => (0, rng.range(0, 4)), 1 => (rng.range(0, 4), 0), 2..=6 => (rng.range(1, 20), rng.range(1, 9)), 7 | 8 => (rng.range(1, 5000), rng.range(1, 4000)),
                _ => match rng.below(5) { 0 => (1usize << 31, 1), 1 => ((1 << 31) + rng.below(4), rng.range(1, 3)), 2 => (u32::MAX as usize - rng.below(3), 1), 3 => (1, (1usize << 31) + rng.below(3)), _ => ((1usize << 30) + rng.below(3), rng.range(1, 5)) } };
            let ss = k % 3;
            let (_, sx, sy, _) = ss_of(ss);
            let p444 = kind == "packed" && rng.chance(1, 2);
            let g = geometry(kind, w, h, sx, sy, p444);
            let mut st = vec![]; let mut ln = vec![];
            for &(row, rows, _) in &g { let s = if rng.chance(1, 3) { row + rng.below(40) } else { row }; let s = s.min(u32::MAX as usize); st.push(s); ln.push(s.saturating_mul(rows)); }
            // damage one plane
            if rng.chance(3, 4) {
                let i = rng.below(g.len());
                let (row, rows, _) = g[i];
                match rng.below(9) {
                    0 => st[i] = row.saturating_sub(rng.range(1, 3)),
                    1 => st[i] = rng.below(4),
                    2 => ln[i] = (st[i].saturating_mul(rows.saturating_sub(1)) + row).saturating_sub(1),
                    3 => ln[i] = st[i].saturating_mul(rows.saturating_sub(1)),
                    4 => ln[i] = rng.below(4),
                    5 => { st[i] = row; ln[i] = row.saturating_mul(rows).saturating_sub(rng.range(1, 3)); }
                    6 => { st[i] = 0; ln[i] = 0; }
                    7 => { let (a, b) = (row.div_ceil(2), rows); st[i] = a; ln[i] = a.saturating_mul(b); }
                    _ => { st[i] = row; ln[i] = row.saturating_mul(rows.div_ceil(2)); if rows < 2 { ln[i] = ln[i].saturating_sub(1); } }
                }
                st[i] = st[i].min(u32::MAX as usize);
            }
            self.judge_desc(cx, &Desc { kind, wide: k & 1 == 1, w, h, ss, p444, st, ln });
        }
        if matches!(kind, "planar_mut" | "biplanar_mut" | "gray_mut") {
            for k in 0..if round == 0 { 400 } else { 20 } {
                let (w, h) = if round == 0 { (1 + k % 20, 1 + k / 20) } else { (rng.range(1, 300), rng.range(1, 40)) };
                for s in 0..3 { self.alloc_check::<u8>(cx, kind, w, h, s, "u8"); self.alloc_check::<u16>(cx, kind, w, h, s, "u16"); }
            }
        }
    }
    fn check_case(&mut self, _cx: &mut Cx, _op: &Op, _c: &Case, _l: Option<&str>) {}
    fn replay_line(&mut self, cx: &mut Cx, line: &str) -> bool {
        let g = |k: &str| line.split_whitespace().find_map(|t| t.strip_prefix(k).and_then(|t| t.strip_prefix('='))).unwrap_or("").to_string();
        let ss = (0..3).find(|k| ss_of(*k).3 == g("ss")).unwrap_or(0);
        if let Some(i) = line.find("descriptor ") { if let Some(d) = Desc::parse(&line[i..]) { self.judge_desc(cx, &d); return true; } }
        if line.contains("alloc ") { let (w, h) = (g("w").parse().unwrap_or(1), g("h").parse().unwrap_or(1)); if g("elem") == "u8" { self.alloc_check::<u8>(cx, &g("kind"), w, h, ss, "u8") } else { self.alloc_check::<u16>(cx, &g("kind"), w, h, ss, "u16") } return true; }
        if line.contains("owned ") { self.owned_check(cx, g("w").parse().unwrap_or(1), g("h").parse().unwrap_or(1), ss, &mut Rng::new(1)); return true; }
        if line.contains("constants") { self.run_unit(cx, "constants", 0, &mut Rng::new(1)); return true; }
        false
    }
    fn rule(&self) -> String { "ten image descriptor kinds x u8/u16 x subsampling: allocation geometry and zeroing, identity of read-only views, acceptance/rejection of random strides, lengths and sizes (up to 2^32-1, on reserved address space), owned against borrowed storage through whole conversions; non-trivial = the descriptor is either exactly right or impossible".into() }
}

// ---------------------------------------------------------------------------------------------------------------------
/// `yuvmon serve`: executes case lines from stdin and answers with the outcome and a hash of everything the call wrote.
pub fn serve(threads: usize) {
    let ops = crate::ops::registry();
    let levels = crate::cpu::levels();
    let _ = threads;
    // tasks may pile up on one thread when they call from inside the pool
    #[cfg(feature = "rayon")]
    { let _ = rayon::ThreadPoolBuilder::new().stack_size(64 << 20).build_global(); }
    let stdin = std::io::stdin();
    let mut b = Bench::new();
    let out = std::io::stdout();
    for l in stdin.lock().lines().map_while(Result::ok) {
        // `callers SEED LEVEL` runs one group of concurrent callers here
        if let Some(r) = l.strip_prefix("callers ") {
            let mut f = r.split_whitespace();
            let mut rng = Rng::new(f.next().and_then(|x| x.parse().ok()).unwrap_or(0));
            let lv = f.next().unwrap_or("");
            let lv = levels.iter().find(|x| x.name == lv).unwrap_or(&levels[0]);
            let work = callers_work(&ops, &mut rng, f.next().and_then(|x| x.parse().ok()));
            println!("{}", callers_run(&work, lv).iter().map(|v| v.join(",")).collect::<Vec<_>>().join(";"));
            continue;
        }
        // `pool SEED LEVEL` makes the same calls from inside the thread pool the library itself uses
        if let Some(r) = l.strip_prefix("pool ") {
            let mut f = r.split_whitespace();
            let mut rng = Rng::new(f.next().and_then(|x| x.parse().ok()).unwrap_or(0));
            let lv = f.next().unwrap_or("");
            let lv = levels.iter().find(|x| x.name == lv).unwrap_or(&levels[0]);
            let work = callers_work(&ops, &mut rng, f.next().and_then(|x| x.parse().ok()));
            println!("{}", pool_run(&work, lv).iter().map(|v| v.join(",")).collect::<Vec<_>>().join(";"));
            continue;
        }
        if let Some(r) = l.strip_prefix("hammer ") {
            let mut f = r.split_whitespace();
            let mut rng = Rng::new(f.next().and_then(|x| x.parse().ok()).unwrap_or(0));
            let lv = f.next().unwrap_or("");
            let lv = levels.iter().find(|x| x.name == lv).unwrap_or(&levels[0]);
            println!("{:?}", hammer_run(&hammer_work(&ops, &mut rng), lv, 20).1);
            continue;
        }
        // `img CASE` answers with the samples themselves
        let (l, img) = match l.strip_prefix("img ") { Some(r) => (r.to_string(), true), None => (l, false) };
        let ans = match Case::parse(&l, &ops) {
            None => "unparsable".to_string(),
            Some((c, lv)) => {
                let op = ops[c.op];
                let Some(l) = levels.iter().find(|x| x.name == lv).or(levels.first()) else { println!("nolevel"); continue };
                let (o, h) = execute(&mut b, &op, &c, l);
                if img { b.read_dst(&op, &c).c.iter().flat_map(|p| p.d.iter()).map(|v| format!("{v}")).collect::<Vec<_>>().join(" ") } else { format!("{h:016x} {o:?}") }
            }
        };
        let mut w = out.lock();
        let _ = writeln!(w, "{ans}");
        let _ = w.flush();
    }
}
/// `yuvmon miri SEED SKIP,SKIP..`: small cases of every operation in a random order, each announced before it runs, for the interpreter.
pub fn miri(seed: u64, skip: &str) {
    let mut ops = crate::ops::registry();
    let levels = crate::cpu::levels();
    let mut rng = Rng::new(seed);
    let skip: Vec<&str> = skip.split(',').collect();
    for i in (1..ops.len()).rev() { let j = rng.below(i + 1); ops.swap(i, j); }
    for op in &ops {
        if skip.contains(&op.name) { continue; }
        let k = rng.below(1000);
        let mut c = any_case(op, k, &mut rng, false);
        // one pass of the widest row code in use plus a tail
        c.w = match rng.below(4) { 0 => rng.range(1, 20), 1 => rng.range(16, 48), _ => rng.range(30, 84) };
        c.h = rng.range(1, 3);
        pick_layout(op, &mut c, &mut rng);
        if c.pat == Pat::Hostile { c.pat = Pat::Random; }
        println!("CASE {}", c.to_line(op, levels[0].name));
        let mut b = Bench::new();
        let (o, h) = execute(&mut b, op, &c, &levels[0]);
        println!("DONE {h:016x} {o:?}");
    }
}
struct Peer { name: String, ch: std::process::Child, tx: std::process::ChildStdin, rx: std::io::BufReader<std::process::ChildStdout> }
impl Peer {
    fn start(name: &str, exe: &str, pool: usize) -> Option<Peer> { Peer::start_args(name, exe, &["serve"], pool) }
    fn start_args(name: &str, exe: &str, args: &[&str], pool: usize) -> Option<Peer> {
        let mut ch = std::process::Command::new(exe).args(args).env("RAYON_NUM_THREADS", pool.to_string()).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().ok()?;
        let (tx, rx) = (ch.stdin.take()?, std::io::BufReader::new(ch.stdout.take()?));
        Some(Peer { name: name.into(), ch, tx, rx })
    }
    fn ask(&mut self, line: &str) -> Option<String> {
        writeln!(self.tx, "{line}").ok()?;
        self.tx.flush().ok()?;
        // a co-process that does not answer in time is as good as dead
        if self.rx.buffer().is_empty() && !readable(self.rx.get_ref(), PEER_PATIENCE_MS) { let _ = self.ch.kill(); return None; }
        let mut s = String::new();
        let n = self.rx.read_line(&mut s).ok()?;
        if n == 0 { None } else { Some(s.trim_end().to_string()) }
    }
}
const PEER_PATIENCE_MS: i32 = 100_000;
#[cfg(unix)]
fn readable(f: &std::process::ChildStdout, ms: i32) -> bool {
    use std::os::fd::AsRawFd;
    #[repr(C)] struct PollFd { fd: i32, events: i16, revents: i16 }
    extern "C" { fn poll(f: *mut PollFd, n: u64, ms: i32) -> i32; }
    let mut p = PollFd { fd: f.as_raw_fd(), events: 1, revents: 0 };
    unsafe { poll(&mut p, 1, ms) != 0 }
}
#[cfg(not(unix))]
fn readable(_f: &std::process::ChildStdout, _ms: i32) -> bool { true }
impl Drop for Peer { fn drop(&mut self) { let _ = self.ch.kill(); let _ = self.ch.wait(); } }

/// C14: the rayon build, concurrent callers and repeated calls all give the single-threaded result.
pub struct Concurrency { peers: Vec<Peer>, failed: bool, tsan: Option<Peer>, tsan_tried: u32, log: String }
impl Concurrency {
    pub fn new() -> Concurrency { Concurrency { peers: vec![], failed: false, tsan: None, tsan_tried: 0, log: String::new() } }
    /// The rayon build under ThreadSanitizer (library and standard library instrumented): answers like the others, or ends with 66 at a data race.
    fn ask_tsan(&mut self, cx: &mut Cx, line: &str) -> Option<Result<String, String>> {
        let exe = std::env::var("YUVMON_TSAN").ok()?;
        if self.tsan.is_none() {
            if self.tsan_tried > 3 { return None; }
            self.tsan_tried += 1;
            self.log = std::env::temp_dir().join(format!("yuvmon-tsan-{}", std::process::id())).to_string_lossy().into_owned();
            std::env::set_var("TSAN_OPTIONS", format!("halt_on_error=1 exitcode=66 atexit_sleep_ms=0 log_path={}", self.log));
            self.tsan = Peer::start("rayon under ThreadSanitizer, pool of 4", &exe, 4);
            // a sandbox in which ThreadSanitizer cannot run at all says nothing about the library
            if self.tsan.as_mut()?.ask("callers 1 scalar").is_none() { self.tsan = None; cx.count("tsan_unavailable", 1); return None; }
        }
        let p = self.tsan.as_mut()?;
        match p.ask(line) {
            Some(a) => { cx.count("thread_sanitizer_calls", 1); Some(Ok(a)) }
            None => {
                let code = p.ch.wait().ok().and_then(|s| s.code());
                let f = format!("{}.{}", self.log, p.ch.id());
                let rep = std::fs::read_to_string(&f).unwrap_or_default();
                let _ = std::fs::remove_file(&f);
                self.tsan = None;
                if code != Some(66) { cx.count("tsan_lost", 1); return None; }
                let frames: Vec<String> = rep.lines().filter(|l| l.trim_start().starts_with('#') && (l.contains("/src/") || l.contains("yuv"))).take(2).map(|l| l.trim().chars().take(110).collect()).collect();
                Some(Err(format!("{} {}", rep.lines().find_map(|l| l.strip_prefix("SUMMARY: ")).unwrap_or("data race reported"), frames.join(" <- "))))
            }
        }
    }
    fn peers(&mut self, cx: &mut Cx) {
        if !self.peers.is_empty() || self.failed { return; }
        let Ok(exe) = std::env::var("YUVMON_RAYON") else { self.failed = true; cx.count("no_rayon_build", 1); return };
        for pool in [1usize, 2, 3, 8] { if let Some(p) = Peer::start(&format!("rayon, pool of {pool}"), &exe, pool) { self.peers.push(p); } }
        if self.peers.len() != 4 { panic!("cannot start the rayon build {exe}"); }
    }
}
impl Prop for Concurrency {
    fn id(&self) -> &'static str { "C14" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().map(|o| o.name.to_string()).chain((0..16).map(|i| format!("concurrent-callers-{i}"))).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 60 } else { 20_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        if unit.starts_with("concurrent-callers") { let i: usize = unit.rsplit('-').next().and_then(|x| x.parse().ok()).unwrap_or(0); if round % 2 == 0 { self.callers(cx, rng, None); } self.callers(cx, rng, Some(i + 16 * round)); for _ in 0..3 { self.hammer(cx, rng); } return; }
        let op = op_named(cx, unit).unwrap();
        let n = configs(&op).len();
        let (first, cnt) = if round == 0 { (0, 3.max(n / 6).min(8)) } else { (round * 3, 3) };
        for k in 0..cnt {
            let mut c = any_case(&op, first + k * if round == 0 { n.div_ceil(cnt).max(1) } else { 1 }, rng, false);
            // enough rows that the work is really shared out
            c.h = match rng.below(4) { 0 => rng.range(1, 8), 1 => rng.range(9, 33), 2 => rng.range(33, 90), _ => rng.pick(&[16usize, 17, 31, 32, 33, 63, 64, 65]) };
            if c.w > 400 { c.w = 1 + c.w % 400; }
            if rng.chance(1, 2) { pick_layout(&op, &mut c, rng); }
            self.check_case(cx, &op, &c, None);
        }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) {
        self.peers(cx);
        if let Some("concurrent") = level { return; }
        let ls = levels_of(cx, level);
        // one dispatch level per case, alternating between the best and the others
        let pick = if level.is_some() || c.seed % 2 == 0 { ls.len() - 1 } else { (c.seed / 2) as usize % ls.len() };
        let l = ls[pick].clone();
        let line = c.to_line(op, l.name);
        cx.note_journal(&line);
        cx.count("calls", 2);
        let (o, h) = execute(&mut cx.b, op, c, &l);
        let want = format!("{h:016x} {o:?}");
        let (o2, h2) = execute(&mut cx.b2, op, c, &l);
        if want != format!("{h2:016x} {o2:?}") { cx.violation("repeatable", op, l.name, c, &format!("the same call gave {want} and then {h2:016x} {o2:?}")); }
        for i in 0..self.peers.len() {
            cx.count("calls", 1); cx.count("parallel_calls", 1);
            let got = self.peers[i].ask(&line);
            let name = self.peers[i].name.clone();
            match got {
                Some(g) if g == want => {}
                Some(g) if g == "nolevel" || g == "unparsable" => cx.count("peer_refused", 1),
                Some(g) => cx.violation("parallel", op, l.name, c, &format!("{name} gives {g}, the sequential build {want}")),
                None => {
                    let e = self.peers[i].ch.wait().map(|s| format!("{s}")).unwrap_or_default();
                    cx.violation("parallel", op, l.name, c, &format!("{name} died ({e}) in this call"));
                    self.peers.clear();
                    self.peers(cx);
                    break;
                }
            }
        }
        if !l.name.starts_with("avx512") && (level.is_some() || c.seed % 3 != 0) {
            match self.ask_tsan(cx, &line) {
                Some(Err(e)) => cx.violation("data-race", op, l.name, c, &format!("the rayon build under ThreadSanitizer: {e}")),
                Some(Ok(g)) if g != want && g != "unparsable" && g != "nolevel" => cx.violation("parallel", op, l.name, c, &format!("the rayon build under ThreadSanitizer (pool of 4) gives {g}, the sequential build {want}")),
                _ => {}
            }
        }
        if o == Outcome::Ok { cx.distinct(op, c, l.name, 0); cx.sample(|| format!("{line} -> {want} from the sequential build and all pool sizes")); }
    }
    fn rule(&self) -> String { "every public conversion, sequential build against the rayon build with pools of 1, 2, 3 and 8 threads, hash of every destination byte including padding; groups of 6 threads calling different conversions at once against the same calls made alone; each call repeated on other memory; non-trivial = the call completed".into() }
}
const CALLERS: usize = 6;
/// What each of the concurrent callers converts.
/// With a family number, all of them work on tall pictures with conversions of one family (one entry signature of the library).
fn families(ops: &[Op]) -> Vec<std::mem::Discriminant<crate::ops::Call>> { let mut v = vec![]; for o in ops { let d = std::mem::discriminant(&o.call); if !v.contains(&d) { v.push(d); } } v }
fn callers_work(ops: &[Op], rng: &mut Rng, fam: Option<usize>) -> Vec<Vec<(Op, Case)>> {
    let own: Vec<Op>;
    let ops = match fam { Some(f) => { let d = families(ops); let d = d[f % d.len()]; own = ops.iter().filter(|o| std::mem::discriminant(&o.call) == d).cloned().collect(); &own[..] } None => ops };
    let same = rng.chance(1, 3);
    let first = rng.below(ops.len());
    let at = rng.below(1000);
    let wide = rng.chance(3, 4);
    let mut work: Vec<Vec<(Op, Case)>> = vec![];
    for t in 0..CALLERS {
        let mut v = vec![];
        for _ in 0..12 {
            let op = ops[if same { first } else { rng.below(ops.len()) }];
            let k = rng.below(1000);
            let mut c = any_case(&op, k, rng, false);
            if c.w > 300 { c.w = 1 + c.w % 300; }
            c.h = 1 + c.h % 12;
            if fam.is_some() {
                // neighbours in size and settings; enough rows to be shared out
                c = any_case(&op, if same { at + t % 2 } else { k }, rng, false);
                c.w = if wide { rng.range(60, 300) } else { rng.range(3, 36) }; c.h = rng.range(40, 110);
            }
            if c.pat == Pat::Hostile { c.pat = Pat::Random; }
            v.push((op, c));
        }
        work.push(v);
    }
    work
}
/// All callers at once; each reports outcome and hash of every call, in the order of its list.
fn callers_run(work: &[Vec<(Op, Case)>], l: &Level) -> Vec<Vec<String>> {
    let bar = std::sync::Barrier::new(CALLERS);
    std::thread::scope(|s| {
        let hs: Vec<_> = work.iter().enumerate().map(|(t, v)| { let (bar, l) = (&bar, l); s.spawn(move || {
            let mut b = Bench::new();
            bar.wait();
            (0..v.len()).map(|i| { let (op, c) = &v[(i + t) % v.len()]; let (o, h) = execute(&mut b, op, c, l); ((i + t) % v.len(), format!("{h:016x} {o:?}")) }).collect::<Vec<_>>()
        }) }).collect();
        hs.into_iter().map(|h| { let mut v = h.join().expect("caller"); v.sort(); v.into_iter().map(|x| x.1).collect() }).collect()
    })
}
/// The same calls as tasks of the global rayon pool, where the thread that runs one conversion may take up another in the middle of it.
#[cfg(feature = "rayon")]
const POOL_TIMES: usize = 8;
#[cfg(feature = "rayon")]
fn pool_run(work: &[Vec<(Op, Case)>], l: &Level) -> Vec<Vec<String>> {
    use rayon::prelude::*;
    // nothing but the calls happens inside the pool, a few times over
    let mut bs: Vec<Vec<Bench>> = work.iter().map(|v| v.iter().map(|(op, c)| { let mut b = Bench::new(); b.layout(op, c); b.put_src(op, c, &crate::oracle::gen_src(op, c), 1); b.fill_dst(op, c, 0xA5); b }).collect()).collect();
    let res: Vec<Vec<Outcome>> = bs.par_iter_mut().zip(work.par_iter()).map(|(bs, v)| bs.par_iter_mut().zip(v.par_iter()).map(|(b, (op, c))| {
        let mut last = Outcome::Ok;
        for _ in 0..POOL_TIMES { last = b.call(op, c, l); if let Outcome::Panic(_) = last { break; } }
        last
    }).collect()).collect();
    bs.iter().zip(work).zip(res).map(|((bs, v), r)| bs.iter().zip(v).zip(r).map(|((b, (op, c)), o)| format!("{:016x} {o:?}", dst_hash(b, op, c))).collect()).collect()
}
#[cfg(not(feature = "rayon"))]
fn pool_run(work: &[Vec<(Op, Case)>], l: &Level) -> Vec<Vec<String>> { callers_run(work, l) }
/// A few tiny images per group, each converted over and over by its own thread: little work around the calls, so that
/// whatever calls might share is contended.  Reports per thread the first result that differs from the one alone.
fn hammer_work(ops: &[Op], rng: &mut Rng) -> Vec<(Op, Case)> {
    let same = rng.chance(2, 3);
    let first = rng.below(ops.len());
    let k0 = rng.below(1000);
    let one = rng.chance(1, 2);
    (0..CALLERS).map(|t| {
        let op = ops[if same { first } else { rng.below(ops.len()) }];
        let n = configs(&op).len();
        // neighbours in the configuration order differ in range, mode or matrix; half of the groups differ in caller-chosen coefficients only
        let mut c = any_case(&op, k0 + t, rng, false);
        if one && uses_matrix(&op) { let g = configs(&op).into_iter().filter(|g| g.matrix == 6).nth(k0 % (n / 7).max(1)); if let Some(g) = g { apply(&mut c, &g, rng); } }
        c.w = rng.range(1, 12); c.h = rng.range(1, 3);
        if c.pat == Pat::Hostile { c.pat = Pat::Random; }
        (op, c)
    }).collect()
}
fn hammer_once(b: &mut Bench, op: &Op, c: &Case, l: &Level) -> (Outcome, Vec<u8>) { b.fill_dst(op, c, 0xA5); let o = b.call(op, c, l); let v = b.visible_dst(op, c); (o, v) }
fn hammer_run(work: &[(Op, Case)], l: &Level, times: usize) -> (Vec<(Outcome, Vec<u8>)>, Vec<Option<usize>>) {
    let mut alone = vec![];
    let mut bs: Vec<Bench> = work.iter().map(|(op, c)| {
        let mut b = Bench::new();
        let img = crate::oracle::gen_src(op, c);
        b.layout(op, c); b.put_src(op, c, &img, 1);
        alone.push(hammer_once(&mut b, op, c, l));
        b
    }).collect();
    let bar = std::sync::Barrier::new(work.len());
    let (bar, alone_) = (&bar, &alone);
    let bad = std::thread::scope(|s| {
        let hs: Vec<_> = bs.iter_mut().enumerate().map(|(t, b)| s.spawn(move || {
            let (op, c) = &work[t];
            bar.wait();
            (0..times).find(|_| hammer_once(b, op, c, l) != alone_[t])
        })).collect();
        hs.into_iter().map(|h| h.join().expect("caller")).collect()
    });
    (alone, bad)
}
impl Concurrency {
    fn hammer(&mut self, cx: &mut Cx, rng: &mut Rng) {
        let ls = cx.levels.clone();
        let l = ls[if rng.chance(1, 2) { ls.len() - 1 } else { rng.below(ls.len()) }].clone();
        let seed = rng.next();
        let work = hammer_work(&cx.ops, &mut Rng::new(seed));
        cx.note_journal(&format!("op={} level={} concurrent callers (hammer {seed})", work[0].0.name, l.name));
        let times = 300;
        let (_, bad) = hammer_run(&work, &l, times);
        cx.count("calls", (CALLERS * times) as u64); cx.count("contended_calls", (CALLERS * times) as u64); cx.count("contended_groups", 1);
        for (t, (op, c)) in work.iter().enumerate() {
            match bad[t] {
                Some(i) => cx.violation("concurrent", op, "concurrent", c, &format!("repetition {i} next to other callers of {} (hammer {seed} {}) differs from the result alone", work.iter().map(|w| w.0.name).collect::<Vec<_>>().join(","), l.name)),
                None => cx.distinct(op, c, l.name, 9),
            }
        }
        if !l.name.starts_with("avx512") && seed % 4 == 0 {
            if let Some(Err(e)) = self.ask_tsan(cx, &format!("hammer {seed} {}", l.name)) { let (op, c) = work[0].clone(); cx.violation("data-race", &op, "concurrent", &c, &format!("{CALLERS} contending callers at {} under ThreadSanitizer (hammer {seed} {}): {e}", l.name, l.name)); }
        }
    }
    fn callers(&mut self, cx: &mut Cx, rng: &mut Rng, fam: Option<usize>) {
        let ls = cx.levels.clone();
        let l = ls[if rng.chance(1, 2) { ls.len() - 1 } else { rng.below(ls.len()) }].clone();
        let nt = CALLERS;
        let seed = rng.next();
        let work = callers_work(&cx.ops, &mut Rng::new(seed), fam);
        let fam = fam.map_or(String::new(), |f| format!(" {f}"));
        if !fam.is_empty() { cx.count("family_groups", 1); }
        // alone
        let mut want: Vec<Vec<String>> = vec![];
        for v in &work { want.push(v.iter().map(|(op, c)| { cx.note_journal(&c.to_line(op, l.name)); cx.count("calls", 1); let (o, h) = execute(&mut cx.b, op, c, &l); format!("{h:016x} {o:?}") }).collect()); }
        // together
        cx.note_journal(&format!("op={} level={} concurrent callers", work[0][0].0.name, l.name));
        let got = callers_run(&work, &l);
        if !l.name.starts_with("avx512") {
            match self.ask_tsan(cx, &format!("callers {seed} {}{fam}", l.name)) {
                Some(Err(e)) => { let (op, c) = work[0][0].clone(); cx.violation("data-race", &op, "concurrent", &c, &format!("{CALLERS} concurrent callers at {} under ThreadSanitizer (callers {seed} {}{fam}): {e}", l.name, l.name)); }
                Some(Ok(g)) => {
                    cx.count("thread_sanitizer_groups", 1);
                    let all = want.iter().map(|v| v.join(",")).collect::<Vec<_>>().join(";");
                    if g != all { let (op, c) = work[0][0].clone(); cx.violation("concurrent", &op, "concurrent", &c, &format!("{CALLERS} concurrent callers of the rayon build at {} (callers {seed} {}{fam}) do not get the results of the same calls alone", l.name, l.name)); }
                }
                None => {}
            }
        }
        cx.count("calls", (nt * 12) as u64); cx.count("concurrent_calls", (nt * 12) as u64); cx.count("concurrent_groups", 1);
        // the rayon build: called by threads of their own, and by tasks of its own pool
        self.peers(cx);
        let all = want.iter().map(|v| v.join(",")).collect::<Vec<_>>().join(";");
        for how in if fam.is_empty() { &["callers", "pool"][..] } else { &["callers", "pool", "pool", "pool", "pool"] } {
            if self.peers.is_empty() { break; }
            let i = if fam.is_empty() { rng.below(self.peers.len()) } else { rng.pick(&[3usize, 3, 3, 1, 2]) };
            let name = self.peers[i].name.clone();
            let (op, c) = work[0][0].clone();
            let got = self.peers[i].ask(&format!("{how} {seed} {}{fam}", l.name));
            let what = if *how == "pool" { "tasks of the same thread pool" } else { "threads" };
            cx.count("calls", (nt * 12) as u64); cx.count(if *how == "pool" { "calls_from_inside_the_pool" } else { "concurrent_calls_of_the_rayon_build" }, (nt * 12) as u64);
            match got {
                Some(g) if g == all => {}
                Some(g) => {
                    let g: Vec<Vec<&str>> = g.split(';').map(|x| x.split(',').collect()).collect();
                    let at = (0..nt).flat_map(|t| (0..work[t].len()).map(move |j| (t, j))).find(|&(t, j)| g.get(t).and_then(|v| v.get(j)).copied() != Some(want[t][j].as_str()));
                    let ((o, c), m) = match at { Some((t, j)) => (work[t][j].clone(), format!("gives {} instead of {}", g.get(t).and_then(|v| v.get(j)).unwrap_or(&"nothing"), want[t][j])), None => ((op, c), "answers something else".into()) };
                    cx.violation("concurrent", &o, "concurrent", &c, &format!("{name}, called by {what} at {} ({how} {seed}{fam}), {m}", l.name));
                }
                None => {
                    cx.violation("concurrent", &op, "concurrent", &c, &format!("{name}, called by {what} at {} ({how} {seed} {}{fam}), died or never finished", l.name, l.name));
                    self.peers.clear();
                }
            }
        }
        for t in 0..nt { for i in 0..work[t].len() {
            let (op, c) = &work[t][i];
            if want[t][i] != got[t][i] { let (op, c) = (*op, c.clone()); cx.violation("concurrent", &op, l.name, &c, &format!("alone: {}, next to other callers: {}", want[t][i], got[t][i])); }
            else { cx.distinct(op, c, l.name, 1 + t as u64); }
        } }
    }
}

// ---------------------------------------------------------------------------------------------------------------------
/// C22: the enabled cargo features choose implementations, never results.
pub struct Features { peers: Vec<(Peer, &'static str)>, failed: bool }
const FEATURE_SETS: [(&str, &str, &str); 4] = [("scalar", "scalar", "no instruction-set features"), ("sse", "sse41", "`sse` only"), ("stable", "avx2+f16c", "`avx` and `sse` without `nightly_avx512`"), ("avx", "", "`avx` only")];
impl Features {
    pub fn new() -> Features { Features { peers: vec![], failed: false } }
    fn peers(&mut self, cx: &mut Cx) {
        if !self.peers.is_empty() || self.failed { return; }
        let Ok(dir) = std::env::var("YUVMON_FEATURES") else { self.failed = true; cx.count("no_feature_builds", 1); return };
        for (n, cap, what) in FEATURE_SETS {
            let exe = format!("{dir}/{n}/debug/yuvmon");
            match Peer::start(what, &exe, 1) { Some(p) => self.peers.push((p, cap)), None => panic!("cannot start {exe}") }
        }
    }
}
impl Prop for Features {
    fn id(&self) -> &'static str { "C22" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 400 } else { 100_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        let n = configs(&op).len();
        let (first, cnt) = if round == 0 { (0, n.max(4)) } else { (round * 4, 4) };
        for k in 0..cnt {
            let mut c = any_case(&op, first + k, rng, round > 0);
            if c.w > 400 { c.w = 1 + c.w % 400; }
            if rng.chance(1, 3) { pick_layout(&op, &mut c, rng); }
            self.check_case(cx, &op, &c, None);
        }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) {
        self.peers(cx);
        let all = crate::cpu::levels();
        let ls = levels_of(cx, level);
        // a random level and the machine's own
        let mut chosen = vec![ls[(c.seed % ls.len() as u64) as usize].clone(), ls[ls.len() - 1].clone()];
        if chosen[0].name == chosen[1].name { chosen.pop(); }
        let fam = tol::family(op, c);
        for l in chosen {
            let pos = all.iter().position(|x| x.name == l.name).unwrap_or(0);
            let line = c.to_line(op, l.name);
            cx.note_journal(&line);
            for i in 0..self.peers.len() {
                let cap = self.peers[i].1;
                // the level of the full build that has the same instruction sets as the reduced build on this CPU
                let eq = all.iter().position(|x| x.name == cap).unwrap_or(all.len()).min(pos);
                let eq = if cap.is_empty() { all.iter().position(|x| x.name == "avx2+f16c").unwrap_or(0).min(pos) } else { eq };
                // rotation is done by a dependency with instruction-set features of its own
                let eq = if op.model == Model::Rotate { all.iter().position(|x| x.name == "avx2+f16c").unwrap_or(0).min(pos) } else { eq };
                let el = all[eq.min(all.len() - 1)].clone();
                let (o, h) = execute(&mut cx.b, op, c, &el);
                let want = format!("{h:016x} {o:?}");
                cx.count("calls", 2);
                let name = self.peers[i].0.name.clone();
                let Some(got) = self.peers[i].0.ask(&line) else {
                    let e = self.peers[i].0.ch.wait().map(|s| format!("{s}")).unwrap_or_default();
                    cx.violation("feature-set", op, l.name, c, &format!("the build with {name} died ({e}) in this call"));
                    self.peers.clear();
                    self.peers(cx);
                    break;
                };
                if got == want { cx.count("identical", 1); }
                else if !cap.is_empty() || !got.ends_with(" Ok") || o != Outcome::Ok {
                    cx.violation("feature-set", op, l.name, c, &format!("the build with {name} gives {got}, the full build at level {} {want}", el.name));
                } else {
                    // without `sse`, row tails run on the scalar code: same image up to the rounding between levels
                    let (_, _) = execute(&mut cx.b, op, c, &all[0]);
                    let b0 = cx.b.read_dst(op, c);
                    let ans = self.peers[i].0.ask(&format!("img {line}")).unwrap_or_default();
                    let v: Vec<f64> = ans.split(' ').filter_map(|t| t.parse().ok()).collect();
                    let mut g = b0.clone();
                    let mut it = v.iter();
                    if v.len() != g.c.iter().map(|p| p.d.len()).sum::<usize>() { cx.violation("feature-set", op, l.name, c, &format!("the build with {name} answered {} samples", v.len())); continue; }
                    for p in &mut g.c { for x in &mut p.d { *x = *it.next().unwrap(); } }
                    let img = gen_src(op, c);
                    let w = expect(op, c, &img);
                    for (k, s) in compare(&g, &b0).iter().enumerate() {
                        let cn = comp_names(&op.dst)[k];
                        let mut s = s.clone();
                        if let Some(hi) = &w.hi {
                            s = Stat::default();
                            for i in 0..g.c[k].d.len() {
                                let slack = hi.c[k].d[i] - w.lo.c[k].d[i];
                                let d = (g.c[k].d[i] - b0.c[k].d[i]).abs();
                                let e = if d <= slack { 0.0 } else { d - slack };
                                s.add(b0.c[k].d[i] + e, b0.c[k].d[i], i % g.c[k].w, i / g.c[k].w);
                            }
                        }
                        let key = format!("X|{fam}|avx2|{cn}");
                        judge_max(cx, "feature-rounding", key, &s, op, l.name, c, || format!("the build with {name}: component {cn} differs from the scalar level at"));
                    }
                    cx.count("compared_by_tolerance", 1);
                }
                if o == Outcome::Ok { cx.distinct(op, c, &name, 0); }
            }
            cx.sample(|| format!("{line} -> same from the builds with no instruction sets, sse, avx, avx+sse and all features"));
        }
    }
    fn rule(&self) -> String { "every public conversion, all configurations, random geometry, contents and CPU level; the build with all features against builds with no instruction-set feature, `sse` only, `avx` only, and `avx`+`sse` without nightly_avx512; byte-identical with the full build restricted to the same instruction sets (avx-only: within the rounding between levels); one judged configuration = (operation, configuration, geometry, feature set)".into() }
}

// ---------------------------------------------------------------------------------------------------------------------
/// C23: the WebAssembly build (32-bit, simd128), run in node, gives the images and the verdicts of the native build.
pub struct Wasm { peer: Option<Peer>, failed: bool }
impl Wasm {
    pub fn new() -> Wasm { Wasm { peer: None, failed: false } }
    fn start(&mut self, cx: &mut Cx) {
        if self.peer.is_some() || self.failed { return; }
        let (Ok(js), Ok(wasm)) = (std::env::var("YUVMON_WASM_JS"), std::env::var("YUVMON_WASM")) else { self.failed = true; cx.count("no_wasm_build", 1); return };
        self.peer = Peer::start_args("wasm32", "node", &[&js, &wasm], 1);
        if self.peer.is_none() { panic!("cannot start node"); }
    }
    fn ask(&mut self, line: &str) -> String {
        match self.peer.as_mut().and_then(|p| p.ask(line)) { Some(a) => a, None => { self.peer = None; "the WebAssembly engine died".into() } }
    }
}
impl Prop for Wasm {
    fn id(&self) -> &'static str { "C23" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 400 } else { 100_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        let n = configs(&op).len();
        let (first, cnt) = if round == 0 { (0, n.max(4)) } else { (round * 4, 4) };
        for k in 0..cnt {
            let mut c = any_case(&op, first + k, rng, round > 0);
            if rng.chance(1, 3) { pick_layout(&op, &mut c, rng); }
            self.check_case(cx, &op, &c, None);
        }
        if round > 2 && round % 4 != 0 { return; }
        let (ns, nd) = (plane_dims(&op.src, 4, 4).len(), plane_dims(&op.dst, 4, 4).len());
        if round < 3 { for p in (0..ns as u32).chain((0..nd as u32).map(|p| 8 + p)) {
            let mut c = any_case(&op, rng.below(n), rng, false);
            c.w = rng.range(1, 3); c.h = 65537; c.pat = Pat::Flat;
            let (f, i) = if p < 8 { (&op.src, p as usize) } else { (&op.dst, p as usize - 8) };
            if plane_dims(f, 4, 4)[i].1 == 2 { c.h = 131073 + rng.below(2); }
            c.mutn = KIND_WRAP * 16 + p;
            self.check_case(cx, &op, &c, None);
        } }
        for kind in 1..=crate::exec::KINDS {
            if matches!(kind, 16 | 17) && !crate::props2::two_images(&op) { continue; }
            if matches!(kind, 7 | 8) && matches!(op.model, Model::Rotate | Model::Mirror) { continue; }
            let (ns, nd) = (plane_dims(&op.src, 4, 4).len(), plane_dims(&op.dst, 4, 4).len());
            let places: Vec<u32> = if matches!(kind, 1..=6 | 14 | 21) { (0..ns as u32).chain((0..nd as u32).map(|p| 8 + p)).collect() } else { vec![0] };
            for p in places {
                let mut c = any_case(&op, rng.below(n), rng, false);
                if rng.chance(1, 2) { c.w = rng.range(1, 40); c.h = rng.range(1, 6); }
                pick_layout(&op, &mut c, rng);
                c.mutn = kind * 16 + p;
                self.check_case(cx, &op, &c, None);
            }
        }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, _: Option<&str>) {
        self.start(cx);
        if self.peer.is_none() { return; }
        let l = crate::cpu::levels()[0].clone();
        let line = c.to_line(op, l.name);
        cx.note_journal(&line);
        if c.mutn != 0 {
            cx.b.layout(op, c);
            let (_, bad, what) = crate::props2::corrupt(&mut cx.b, op, c);
            if !bad { return; }
            let a = self.ask(&format!("bad {line}"));
            if !a.starts_with("Err(") { cx.violation("wasm-contract", op, l.name, c, &format!("{what}: {a}")); }
            else if a.contains("modified") { cx.violation("wasm-contract", op, l.name, c, &format!("{what}: refused, but {a}")); }
            cx.count("corrupted_calls", 1);
            cx.distinct(op, c, "wasm32", c.mutn as u64);
            return;
        }
        let (o, h) = execute(&mut cx.b, op, c, &l);
        let want = format!("{h:016x} {o:?}");
        let got = self.ask(&line);
        cx.count("calls", 1);
        if got == want { cx.count("identical", 1); }
        else if got.get(17..) != want.get(17..) {
            let monitor = if got.contains("depends on") { "wasm-leak" } else if got.contains("stray") { "wasm-stray" } else { "wasm-outcome" };
            cx.violation(monitor, op, l.name, c, &format!("WebAssembly gives `{}`, native `{}`", got.get(17..).unwrap_or(&got), want.get(17..).unwrap_or("")));
        } else if o == Outcome::Ok {
            let ans = self.ask(&format!("img {line}"));
            let v: Vec<f64> = ans.split(' ').filter_map(|t| t.parse().ok()).collect();
            let b0 = cx.b.read_dst(op, c);
            let mut g = b0.clone();
            if v.len() != g.c.iter().map(|p| p.d.len()).sum::<usize>() { cx.violation("wasm-outcome", op, l.name, c, &format!("WebAssembly answered {} samples: {}", v.len(), &ans[..ans.len().min(80)])); return; }
            let mut it = v.iter();
            for p in &mut g.c { for x in &mut p.d { *x = *it.next().unwrap(); } }
            let img = gen_src(op, c);
            let w = expect(op, c, &img);
            let fam = tol::family(op, c);
            for (k, s) in compare(&g, &b0).iter().enumerate() {
                let cn = comp_names(&op.dst)[k];
                let mut s = s.clone();
                if let Some(hi) = &w.hi {
                    s = Stat::default();
                    for i in 0..g.c[k].d.len() {
                        let slack = hi.c[k].d[i] - w.lo.c[k].d[i];
                        let d = (g.c[k].d[i] - b0.c[k].d[i]).abs();
                        let e = if d <= slack { 0.0 } else { d - slack };
                        s.add(b0.c[k].d[i] + e, b0.c[k].d[i], i % g.c[k].w, i / g.c[k].w);
                    }
                }
                judge_max(cx, "wasm-rounding", format!("X|{fam}|wasm|{cn}"), &s, op, l.name, c, || format!("WebAssembly: component {cn} differs from the native scalar level at"));
            }
            cx.count("compared_by_tolerance", 1);
        }
        if o == Outcome::Ok { cx.distinct(op, c, "wasm32", 0); }
        cx.sample(|| format!("{line} -> {}", got));
    }
    fn rule(&self) -> String { "every public conversion, all configurations, random geometry and contents, plus 22 corruptions of the arguments; the wasm32 (32-bit, simd128) build run in node against the native scalar build: same outcome, no trap, no stray write, no dependence on padding, same image up to rounding where WebAssembly has its own row code; one judged configuration = (operation, configuration, geometry[, corruption])".into() }
}
