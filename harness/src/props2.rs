//! Memory safety, argument contract, round trips, alpha, neutrality, descriptors.
use crate::case::*; use crate::cpu::Level; use crate::engine::*; use crate::exec::*; use crate::fmt::*; use crate::gen::*; use crate::oracle::*; use crate::props::*; use crate::tol;
use std::collections::BTreeMap;

/// Arithmetic-overflow panics exist only in builds with overflow checks; for samples beyond the nominal depth of the
/// format the result is unspecified, so there they are not held against the library.
pub fn arithmetic_panic(o: &Outcome) -> bool { matches!(o, Outcome::Panic(p) if p.contains("with overflow")) }

// ---------------------------------------------------------------------------------------------------------------------
/// C01: no access outside the buffers handed in, whatever the contents, geometry and (accepted) layout.
pub struct Safety;
impl Prop for Safety {
    fn id(&self) -> &'static str { "C01" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 4000 } else { 1_000_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        let n = configs(&op).len();
        for k in 0..6 {
            let mut c = any_case(&op, (round * 6 + k) % n.max(1) + rng.below(2), rng, true);
            // walk through all small widths systematically: SIMD tails live there
            if k < 2 { c.w = 1 + (round * 2 + k) * 7 % 331; c.h = 1 + rng.below(4); }
            pick_layout(&op, &mut c, rng);
            if rng.chance(1, 2) { c.pat = Pat::Hostile; }
            for i in 0..4 {
                for (f, l) in [(&op.src, &mut c.src[i]), (&op.dst, &mut c.dst[i])] {
                    if may_pad(f, i) { match rng.below(4) { 0 => l.tail = Tail::Trim, 1 => { l.tail = Tail::Extra; l.extra = rng.range(1, 200); } _ => {} } }
                }
            }
            self.check_case(cx, &op, &c, None);
        }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) {
        cx.b.layout(op, c);
        let img = gen_src(op, c);
        cx.b.put_src(op, c, &img, 1);
        let (ns, nd) = (cx.b.nsrc(op, c), cx.b.ndst(op, c));
        let before: Vec<Vec<u8>> = cx.b.src[..ns].iter().map(|b| b.zone_bytes().to_vec()).collect();
        for l in levels_of(cx, level) {
            cx.b.fill_dst(op, c, 0xA5);
            let o = cx.call(op, c, &l);
            // (a refusal by panic is memory-safe; buffers that are not exactly rows x stride long are C03's business)
            let exact = c.src.iter().chain(&c.dst).all(|p| p.tail == Tail::Exact);
            if let Outcome::Panic(p) = &o { if !exact { cx.count("panics_on_inexact_buffers", 1); } else if !(c.pat == Pat::Hostile && arithmetic_panic(&o)) { cx.violation("panic", op, l.name, c, p); } else { cx.count("arithmetic_panics_on_out_of_range_samples", 1); } }
            for i in 0..nd { if let Some(s) = cx.b.dst[i].outside(0xA5) { cx.violation("outside-write", op, l.name, c, &format!("destination plane {i}: {s} was overwritten")); } }
            for i in 0..ns { if cx.b.src[i].zone_bytes() != &before[i][..] { cx.violation("source-write", op, l.name, c, &format!("source plane {i} or the memory next to it was modified")); } }
            if o == Outcome::Ok { cx.distinct(op, c, l.name, 0); cx.count("calls_ok", 1); }
            cx.sample(|| c.to_line(op, l.name));
        }
    }
    fn rule(&self) -> String { "every public conversion at every CPU level, every buffer placed against an inaccessible page (before or after) or between canaries, widths walked through 1..331 plus large ones, random strides, trimmed and oversized tails, legal and raw-noise contents; non-trivial = the call returned Ok".into() }
}

// ---------------------------------------------------------------------------------------------------------------------
/// C02: arguments that do not describe an image are refused.
pub struct Contract;
/// Corrupts the prepared arguments. Returns (case to call with, are the arguments provably invalid?)
pub fn corrupt(b: &mut Bench, op: &Op, c: &Case) -> (Case, bool, String) {
    let (m, what) = crate::exec::corrupt_args(b, op, c);
    let kind = c.mutn / 16;
    let (ns, nd) = (b.nsrc(op, c), b.ndst(op, c));
    // provably invalid?
    let mut bad = m.w == 0 || m.h == 0;
    if !bad {
        let (dw, dh) = m.dst_dims(op);
        let sd = plane_dims(&op.src, m.w, m.h); let dd = plane_dims(&op.dst, dw, dh);
        for (b, d) in b.src[..ns].iter().zip(&sd).chain(b.dst[..nd].iter().zip(&dd)) {
            let len = (b.bytes / b.elem.size()) as u128;
            if (b.stride as u128) < d.0 as u128 || len < b.stride as u128 * (d.1 as u128 - 1) + d.0 as u128 { bad = true; }
        }
    }
    if kind == 16 || kind == 17 { bad = true; }
    (m, bad, what)
}
pub fn two_images(op: &Op) -> bool { use crate::ops::Call::*; matches!(op.call, C16(_) | C17(_) | C21(_) | C22(_)) }
impl Prop for Contract {
    fn id(&self) -> &'static str { "C02" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 400 } else { 100_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        for kind in 1..=KINDS {
            if matches!(kind, 16 | 17) && !two_images(&op) { continue; }
            // rotating or mirroring nothing is accepted as doing nothing
            if matches!(kind, 7 | 8) && matches!(op.model, Model::Rotate | Model::Mirror) { continue; }
            let planar_kind = matches!(kind, 1..=6 | 14 | 21);
            let (ns, nd) = (plane_dims(&op.src, 4, 4).len(), plane_dims(&op.dst, 4, 4).len());
            let places: Vec<u32> = if planar_kind { (0..ns as u32).chain((0..nd as u32).map(|p| 8 + p)).collect() } else { vec![0] };
            for p in places {
                let mut c = any_case(&op, round * 5 + rng.below(3), rng, false);
                if round % 3 == 1 { c.w = rng.range(1, 40); c.h = rng.range(1, 6); }
                if c.w < 2 && rng.chance(3, 4) { c.w += 2; }
                pick_layout(&op, &mut c, rng);
                c.mutn = kind * 16 + p;
                let l = cx.levels[rng.below(cx.levels.len())].name;
                self.check_case(cx, &op, &c, Some(l));
            }
        }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) {
        cx.b.layout(op, c);
        let img = gen_src(op, c);
        cx.b.put_src(op, c, &img, 1);
        let nd = cx.b.ndst(op, c);
        cx.b.fill_dst(op, c, 0xA5);
        let zones: Vec<Vec<u8>> = cx.b.dst[..nd].iter().map(|b| b.zone_bytes().to_vec()).collect();
        let keep: Vec<(usize, usize, usize, usize)> = cx.b.dst[..nd].iter().map(|b| (b.off, b.bytes, b.stride, 0)).collect();
        let (m, bad, what) = corrupt(&mut cx.b, op, c);
        if !bad { cx.count("corruptions_that_left_a_valid_description", 1); return; }
        let Some(l) = levels_of(cx, level).into_iter().next() else { return };
        cx.note_journal(&c.to_line(op, l.name));
        cx.count("calls", 1);
        let o = call_corrupted(&mut cx.b, op, c, &m, &l);
        match &o {
            Outcome::Ok => cx.violation("accepted", op, l.name, c, &format!("{what}: returned Ok")),
            Outcome::Panic(p) => cx.violation("panic", op, l.name, c, &format!("{what}: {p}")),
            Outcome::Err(e) => { cx.count(&format!("refused_{e}"), 1); }
        }
        for i in 0..nd {
            let b = &mut cx.b.dst[i];
            (b.off, b.bytes, b.stride) = (keep[i].0, keep[i].1, keep[i].2);
            if b.zone_bytes() != &zones[i][..] { cx.violation("touched", op, l.name, c, &format!("{what}: destination plane {i} was modified although the call ended in {o:?}")); }
        }
        cx.distinct(op, c, l.name, c.mutn as u64);
        cx.sample(|| format!("{what}: {o:?}  {}", c.to_line(op, l.name)));
    }
    fn rule(&self) -> String { "every public conversion x 22 corruptions of its arguments (strides, buffer lengths, dimensions, mismatched images; for each plane) on guarded buffers; judged only when the arguments provably cannot describe an image; non-trivial = judged".into() }
}

// ---------------------------------------------------------------------------------------------------------------------
/// C13: converting there and back returns the picture.
pub struct RoundTrip;
fn same_fmt(a: &Fmt, b: &Fmt) -> bool { a == b }
fn inverse(e: &Op, d: &Op) -> bool {
    use Model::*;
    if e.src.be != d.dst.be { return false; }
    let ok_models = matches!((e.model, d.model), (Yuv, Yuv) | (YCgCo, YCgCo) | (Gbr, Gbr) | (Rdp, Rdp) | (Repack, Repack) | (Shuffle, Shuffle) | (Rgb30, Rgb30) | (ToF16, FromF16));
    if !ok_models || !same_fmt(&e.dst, &d.src) || !same_fmt(&e.src, &d.dst) { return false; }
    if matches!(e.model, Yuv | YCgCo | Gbr | Rdp) && !is_enc_any(e) { return false; }
    if e.model == Rgb30 && e.src.kind == Kind::Rgb30 { return false; }
    true
}
fn is_enc_any(o: &Op) -> bool { matches!(o.src.kind, Kind::Rgb) && matches!(o.dst.kind, Kind::Planar | Kind::Bip | Kind::Gray | Kind::Packed422 | Kind::Packed444) }
impl Prop for RoundTrip {
    fn id(&self) -> &'static str { "C13" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().filter(|e| cx.ops.iter().any(|d| inverse(e, d))).map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 400 } else { 100_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        let n = configs(&op).len();
        let (first, cnt) = if round == 0 { (0, n.max(4)) } else { (round * 5, 5) };
        for k in 0..cnt { let mut c = any_case(&op, first + k, rng, true); if rng.chance(1, 4) { pick_layout(&op, &mut c, rng); } self.check_case(cx, &op, &c, None); }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) {
        let ds: Vec<Op> = cx.ops.iter().filter(|d| inverse(op, d)).copied().collect();
        let mut img = gen_src(op, c);
        let (w, h) = (c.w, c.h);
        // what the intermediate format cannot carry is removed from the picture first
        if is_enc_any(op) {
            let (sx, sy) = (op.dst.ss.sx(), op.dst.ss.sy());
            if op.dst.kind == Kind::Gray { for k in 1..3 { img.c[k].d = img.c[0].d.clone(); } }
            else { for k in 0..3 { for y in 0..h { for x in 0..w { let v = img.c[k].at(x / sx * sx, y / sy * sy); img.c[k].set(x, y, v); } } } }
        }
        if op.model == Model::Repack {
            let (sx, sy) = ((op.dst.ss.sx() / op.src.ss.sx()).max(1), (op.dst.ss.sy() / op.src.ss.sy()).max(1));
            for k in 1..3 {
                let p = &mut img.c[k];
                for y in 0..p.h { for x in 0..p.w { let v = p.at(x / sx * sx, y / sy * sy); p.set(x, y, v); } }
            }
        }
        cx.b.layout(op, c); cx.b.put_src(op, c, &img, 1);
        let lossless = matches!(op.model, Model::Shuffle | Model::Repack) || (op.model == Model::Rgb30 && op.src.bits == 8) || (op.model == Model::ToF16 && src_bits(op, c) <= 10);
        for l in levels_of(cx, level) {
            cx.b.fill_dst(op, c, 0xA5);
            let o = cx.call(op, c, &l);
            if o != Outcome::Ok { cx.violation("completes", op, l.name, c, &format!("{o:?}")); continue; }
            let mid = cx.b.read_dst(op, c);
            for d in &ds {
                let mut cd = c.clone(); cd.op = d.id; cd.src = c.dst; cd.dst = c.src;
                cx.b2.layout(d, &cd); cx.b2.put_src(d, &Case { pat: Pat::Random, ..cd.clone() }, &mid, 1); cx.b2.fill_dst(d, &cd, 0xA5);
                let o = cx.call2(d, &cd, &l);
                if o != Outcome::Ok { cx.violation("completes", d, l.name, &cd, &format!("{o:?}")); continue; }
                let got = cx.b2.read_dst(d, &cd);
                let n = if mid.c.len() < 4 || is_enc_any(op) { 3.min(got.c.len()) } else { got.c.len() };
                let n = if op.model == Model::Rgb30 { 3 } else { n };
                let st = compare(&Img { c: got.c[..n].to_vec() }, &Img { c: img.c[..n].to_vec() });
                for (k, s) in st.iter().enumerate() {
                    let name = comp_names(&d.dst)[k];
                    if lossless {
                        if s.max != 0.0 { cx.violation("lossless", op, l.name, c, &format!("component {name} at {:?} comes back from {} as {} instead of {}", (s.at.0, s.at.1), d.name, s.at.2, s.at.3)); }
                    } else {
                        let mut cc = c.clone(); if cc.matrix == 6 { cc.kr = 0.3; }
                        let key = format!("R|{}|{}|{name}", tol::family(op, &cc), tol::lclass(l.name));
                        judge_max(cx, "round-trip", key, s, op, l.name, c, || format!("component {name} comes back from {} changed at", d.name));
                    }
                }
                cx.count("samples_compared", st.iter().map(|s| s.n).sum());
                cx.distinct(op, c, l.name, d.id as u64);
                cx.sample(|| format!("{} then {} -> max errors {}", c.to_line(op, l.name), d.name, nums(&st.iter().map(|s| s.max).collect::<Vec<_>>())));
            }
        }
    }
    fn rule(&self) -> String { "every pair of mutually inverse public conversions (RGB->YUV->RGB with contents that the chroma subsampling can carry, GBR, YCgCo, RemoteFX, channel shuffles, packed/planar repacking, RGB30, half float) x configuration x CPU level; non-trivial = both calls completed and every sample was compared".into() }
}

// ---------------------------------------------------------------------------------------------------------------------
/// C15: alpha.
pub struct Alpha;
impl Alpha {
    /// The alpha plane of a big-endian image is big-endian like its other planes.
    fn be_alpha(&self, cx: &mut Cx, op: &Op, level: Option<&str>) {
        let mut c = Case::new(op.id, 9, 2);
        c.pat = Pat::Random; c.seed = 77;
        let img = gen_src(op, &c);
        cx.b.layout(op, &c);
        BE_ALPHA.store(true, std::sync::atomic::Ordering::Relaxed);
        cx.b.put_src(op, &c, &img, 1);
        BE_ALPHA.store(false, std::sync::atomic::Ordering::Relaxed);
        let f16 = op.dst.elem == F16;
        let (sm, dm) = (src_max(op, &c, 3), if f16 { 1.0 } else { dst_max(op, &c, 3) });
        for l in levels_of(cx, level) {
            cx.b.fill_dst(op, &c, 0xA5);
            if cx.call(op, &c, &l) != Outcome::Ok { continue; }
            let got = cx.b.read_dst(op, &c);
            let tol = if sm == dm { 0.0 } else if f16 { 0.001 } else { 1.0 };
            if let Some(i) = got.c[3].d.iter().zip(&img.c[3].d).position(|(g, a)| (g - a * dm / sm).abs() > tol) {
                cx.violation("be-alpha", op, l.name, &c, &format!("alpha of pixel {i} is {} although the big-endian alpha plane holds {}", got.c[3].d[i], img.c[3].d[i]));
            }
            cx.count("be_alpha_probes", 1);
        }
    }
}
fn dec_any(o: &Op) -> bool { matches!(o.model, Model::Yuv | Model::YCgCo | Model::Gbr | Model::Rdp) && matches!(o.dst.kind, Kind::Rgb | Kind::Rgb30) }
fn enc_any(o: &Op) -> bool { matches!(o.model, Model::Yuv | Model::YCgCo | Model::Gbr | Model::Rdp | Model::Sharp) && matches!(o.src.kind, Kind::Rgb) }
fn alpha_idx(f: &Fmt) -> usize { if f.kind == Kind::Gray { 1 } else { 3 } }
impl Prop for Alpha {
    fn id(&self) -> &'static str { "C15" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().filter(|o| dec_any(o) && o.dst.alpha || enc_any(o) && o.src.alpha).map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 400 } else { 100_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        let n = configs(&op).len();
        let (first, cnt) = if round == 0 { (0, n.max(4)) } else { (round * 5, 5) };
        for k in 0..cnt {
            let mut c = any_case(&op, first + k, rng, true);
            if round % 4 == 3 { c.pat = Pat::Random; c.w = rng.range(192, 400); c.h = rng.range(2, 6); }
            if rng.chance(1, 4) { pick_layout(&op, &mut c, rng); }
            self.check_case(cx, &op, &c, None);
        }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) {
        if op.src.be && op.src.alpha { self.be_alpha(cx, op, level); }
        let img = gen_src(op, c);
        let mut rng = Rng::new(c.seed ^ 0xA1FA);
        let ai = alpha_idx(&op.src);
        let src_a = op.src.alpha;
        // the same picture with another alpha plane
        let mut img2 = img.clone();
        if src_a { let m = src_max(op, c, ai); let f16 = op.src.elem == F16; for v in &mut img2.c[ai].d { *v = if f16 { rng.unit() as f16 as f64 } else { (rng.unit() * m).round() }; } }
        cx.b.layout(op, c); cx.b.put_src(op, c, &img, 1);
        cx.b2.layout(op, c); cx.b2.put_src(op, c, &img2, 1);
        let decode = dec_any(op);
        let want = if decode { Some(expect(op, c, &img)) } else { None };
        let fam = tol::family(op, c);
        for l in levels_of(cx, level) {
            cx.b.fill_dst(op, c, 0xA5);
            let o = cx.call(op, c, &l);
            if o != Outcome::Ok { cx.violation("completes", op, l.name, c, &format!("{o:?}")); continue; }
            let got = cx.b.read_dst(op, c);
            let other = if src_a {
                cx.b2.fill_dst(op, c, 0xA5);
                let o = cx.call2(op, c, &l);
                if o != Outcome::Ok { cx.violation("completes", op, l.name, c, &format!("{o:?}")); continue; }
                Some(cx.b2.read_dst(op, c))
            } else { None };
            if decode {
                let a = &got.c[3];
                let m = dst_max(op, c, 3);
                if !src_a {
                    if let Some(i) = a.d.iter().position(|v| *v != m) { cx.violation("opaque", op, l.name, c, &format!("alpha at ({},{}) is {} instead of {m}", i % a.w, i / a.w, a.d[i])); }
                } else {
                    if src_max(op, c, ai) == m {
                        if let Some(i) = a.d.iter().zip(&img.c[ai].d).position(|(x, y)| x != y) { cx.violation("alpha-copy", op, l.name, c, &format!("alpha at ({},{}) is {} instead of {}", i % a.w, i / a.w, a.d[i], img.c[ai].d[i])); }
                    }
                    if !c.premul {
                        let o = other.as_ref().unwrap();
                        for k in 0..3 { if let Some(i) = got.c[k].d.iter().zip(&o.c[k].d).position(|(x, y)| x.to_bits() != y.to_bits()) {
                            cx.violation("straight", op, l.name, c, &format!("component {} at ({},{}) changes from {} to {} when only alpha changes, without premultiplication", comp_names(&op.dst)[k], i % a.w, i / a.w, got.c[k].d[i], o.c[k].d[i])); break;
                        } }
                    }
                }
                let st = compare_want(&got, want.as_ref().unwrap());
                for (k, s) in st.iter().enumerate() {
                    let name = comp_names(&op.dst)[k];
                    if c.premul || k == 3 { judge_max(cx, "accuracy", format!("A|{fam}|{}|{name}", tol::lclass(l.name)), s, op, l.name, c, || format!("component {name} at")); }
                    if c.premul && c.pat == Pat::Random && c.w >= 192 && c.matrix != 6 { let mut t = s.clone(); t.note.clear(); cx.stat(bias_key(op, c, l.name, k), &t); }
                }
                if c.premul {
                    let mut s = Stat::default();
                    for k in 0..3 { for i in 0..a.d.len() { s.add((got.c[k].d[i] - a.d[i]).max(0.0), 0.0, i % a.w, i / a.w); } }
                    judge_max(cx, "premultiplied", format!("P|{fam}|{}|over", tol::lclass(l.name)), &s, op, l.name, c, || "a premultiplied component exceeds alpha at".into());
                    // fully transparent pixels are black
                    let ia = &img.c[ai].d;
                    'z: for k in 0..3 { for i in 0..ia.len() { if ia[i] == 0.0 && got.c[k].d[i] != 0.0 { cx.violation("transparent", op, l.name, c, &format!("component {} at ({},{}) is {} under zero alpha", comp_names(&op.dst)[k], i % a.w, i / a.w, got.c[k].d[i])); break 'z; } } }
                }
                cx.count("samples_compared", st.iter().map(|s| s.n).sum());
            } else {
                let o = other.as_ref().unwrap();
                let st = compare(&got, o);
                for (k, s) in st.iter().enumerate() { if s.max != 0.0 { cx.violation("alpha-ignored", op, l.name, c, &format!("component {} at {:?} changes from {} to {} when only the alpha of the source changes", comp_names(&op.dst)[k], (s.at.0, s.at.1), s.at.3, s.at.2)); } }
                cx.count("samples_compared", st.iter().map(|s| s.n).sum());
            }
            cx.distinct(op, c, l.name, 0);
            cx.sample(|| c.to_line(op, l.name));
        }
    }
    fn judge(&self, stats: &BTreeMap<String, Stat>) -> Vec<(String, String, String, String)> { judge_bias(stats) }
    fn rule(&self) -> String { "every conversion with alpha on either side x configuration x CPU level: opaque output without source alpha, verbatim alpha at equal depth, colour independent of alpha unless premultiplying, premultiplied colour against exact arithmetic and never above alpha, encoders independent of alpha; non-trivial = call completed".into() }
}

// ---------------------------------------------------------------------------------------------------------------------
/// C19: greys stay grey, black and white stay put, ramps stay monotone.
pub struct Neutral;
impl Prop for Neutral {
    fn id(&self) -> &'static str { "C19" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().filter(|o| matches!(o.model, Model::Yuv | Model::YCgCo) && (is_dec(o) || is_enc(o)) || o.model == Model::Sharp).map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 400 } else { 100_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        let n = configs(&op).len();
        let (first, cnt) = if round == 0 { (0, n.max(4)) } else { (round * 3, 3) };
        for k in 0..cnt {
            let mut c = any_case(&op, first + k, rng, false);
            c.premul = false;
            c.w = rng.range(1, 150);
            c.h = if round == 0 { 40 } else { rng.pick(&[64usize, 129, 256]) };
            // which quantity runs: 0 the grey axis, 1..3 one component
            c.geo = if round % 2 == 0 { 0 } else { 1 + rng.below(3) as u8 };
            self.check_case(cx, &op, &c, None);
        }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) {
        let dims = comp_dims(&op.src, c.w, c.h);
        let enc = !is_dec(op);
        let mut rng = Rng::new(c.seed ^ 0x6EA);
        let mut img = Img { c: dims.iter().map(|&(w, h)| Comp::new(w, h)).collect() };
        let m = src_max(op, c, 0);
        let bits = if enc { dst_bits(op, c) } else { src_bits(op, c) };
        let r3 = ranges(bits, c.range);
        let (black, white) = if enc { (0.0, m) } else { (r3.by, r3.by + r3.ry) };
        // one value per chroma row, ascending
        let rows = c.h.div_ceil(2);
        let mut v: Vec<f64> = (0..rows).map(|_| rng.below(m as usize + 1) as f64).collect();
        let lo = if rng.chance(1, 2) && rows > 2 { let s = rng.below((m as usize + 2).saturating_sub(rows).max(1)); (0..rows).for_each(|i| v[i] = ((s + i) as f64).min(m)); s as f64 } else { 0.0 };
        let _ = lo;
        if rows > 3 { v[0] = black; v[1] = white; }
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let axis = c.geo as usize;
        if axis != 0 && op.src.kind == Kind::Gray { return; }
        let fixed: Vec<f64> = (0..4).map(|k| if k == 3 { src_max(op, c, 3.min(img.c.len() - 1)) } else { rng.below(m as usize + 1) as f64 }).collect();
        let mid = r3.buv;
        for k in 0..img.c.len() {
            let (pw, ph) = (img.c[k].w, img.c[k].h);
            let alpha = k == alpha_idx(&op.src) && op.src.alpha;
            for y in 0..ph { for x in 0..pw {
                let run = v[if ph == c.h { y / 2 } else { y }];
                let val = if alpha { src_max(op, c, k) } else if enc { if axis == 0 || axis == k + 1 { run } else { fixed[k] } }
                    else if axis == 0 { if k == 0 { run } else { mid } } else if axis == k + 1 { run } else { fixed[k] };
                img.c[k].set(x, y, val);
            } }
        }
        cx.b.layout(op, c); cx.b.put_src(op, c, &img, 1);
        let fam = tol::family(op, c);
        for l in levels_of(cx, level) {
            cx.b.fill_dst(op, c, 0xA5);
            let o = cx.call(op, c, &l);
            if o != Outcome::Ok { cx.violation("completes", op, l.name, c, &format!("{o:?}")); continue; }
            let got = cx.b.read_dst(op, c);
            let lc = tol::lclass(l.name);
            if axis == 0 && op.src.kind != Kind::Gray || (enc && axis == 0) {
                if enc {
                    for k in 1..3.min(got.c.len()) {
                        let mut s = Stat::default();
                        for (i, q) in got.c[k].d.iter().enumerate() { s.add(*q, mid, i % got.c[k].w, i / got.c[k].w); }
                        judge_max(cx, "grey", format!("N|{fam}|{lc}|{}", comp_names(&op.dst)[k]), &s, op, l.name, c, || format!("a grey pixel gets a coloured {} at", comp_names(&op.dst)[k]));
                    }
                } else {
                    let mut s = Stat::default();
                    for i in 0..got.c[0].d.len() {
                        let t = [got.c[0].d[i], got.c[1].d[i], got.c[2].d[i]];
                        s.add(t.iter().cloned().fold(f64::MIN, f64::max) - t.iter().cloned().fold(f64::MAX, f64::min), 0.0, i % c.w, i / c.w);
                    }
                    judge_max(cx, "grey", format!("N|{fam}|{lc}|spread"), &s, op, l.name, c, || "neutral chroma gives a coloured pixel (spread) at".into());
                }
            }
            if axis == 0 {
                let (ob, ow) = if enc { (r3.by, r3.by + r3.ry) } else { (0.0, dst_max(op, c, 0)) };
                for k in 0..if enc { 1 } else { 3 } {
                    let mut s = Stat::default();
                    for y in 0..c.h { let r = v[y / 2]; if r == black || r == white || (!enc && (r < black || r > white)) { for x in 0..c.w { s.add(got.c[k].at(x, y), if r <= black { ob } else { ow }, x, y); } } }
                    judge_max(cx, "endpoint", format!("K|{fam}|{lc}|{}", comp_names(&op.dst)[k]), &s, op, l.name, c, || format!("black or white is displaced in {} at", comp_names(&op.dst)[k]));
                }
            }
            // monotone ramps: rows carry ascending values of one quantity, everything else is constant
            let sign: [f64; 3] = if enc { if axis == 0 { [1.0, 0.0, 0.0] } else if op.model == Model::YCgCo { match axis { 1 => [1.0, -1.0, 1.0], 2 => [1.0, 1.0, 0.0], _ => [1.0, -1.0, -1.0] } } else { match axis { 1 => [1.0, -1.0, 1.0], 2 => [1.0, -1.0, -1.0], _ => [1.0, 1.0, -1.0] } } }
                else if axis <= 1 { [1.0; 3] } else if op.model == Model::YCgCo { if axis == 2 { [-1.0, 1.0, -1.0] } else { [1.0, 0.0, -1.0] } } else if axis == 2 { [0.0, -1.0, 1.0] } else { [1.0, -1.0, 0.0] };
            for k in 0..3.min(got.c.len()) {
                if sign[k] == 0.0 { continue; }
                let p = &got.c[k];
                let mut s = Stat::default();
                for y in 1..p.h { for x in 0..p.w { let d = (p.at(x, y) - p.at(x, y - 1)) * sign[k]; s.add((-d).max(0.0), 0.0, x, y); } }
                judge_max(cx, "monotone", format!("M|{fam}|{lc}|{}{axis}", comp_names(&op.dst)[k]), &s, op, l.name, c, || format!("component {} runs backwards on a monotone ramp at", comp_names(&op.dst)[k]));
                cx.count("ramp_steps_checked", s.n);
            }
            cx.distinct(op, c, l.name, 0);
            cx.sample(|| format!("axis {axis} {}", c.to_line(op, l.name)));
        }
    }
    fn rule(&self) -> String { "every colour conversion x configuration x CPU level on ramps (one value per row, ascending, including black and white): spread of decoded greys, chroma of encoded greys, displacement of black/white, monotonicity per column; non-trivial = call completed".into() }
}
