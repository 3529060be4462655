//! The monitors that judge one call (or a few related calls) at a time.
use crate::case::*; use crate::cpu::Level; use crate::engine::*; use crate::exec::*; use crate::fmt::*; use crate::gen::*; use crate::oracle::*; use crate::tol;
use std::collections::BTreeMap;

pub fn levels_of(cx: &Cx, only: Option<&str>) -> Vec<Level> { cx.levels.iter().filter(|l| only.is_none_or(|o| o == l.name || o == "-" || !cx.levels.iter().any(|x| x.name == o))).cloned().collect() }
pub fn nums(b: &[f64]) -> String { b.iter().map(|v| format!("{v:.3}")).collect::<Vec<_>>().join("/") }

/// Judges one maximum against its calibrated limit and records it.
pub fn judge_max(cx: &mut Cx, monitor: &str, key: String, s: &Stat, op: &Op, l: &str, c: &Case, what: impl Fn() -> String) {
    if s.n == 0 { return; }
    match tol::limit(&key) {
        Some(m) if s.max <= m => {}
        Some(m) => cx.violation(monitor, op, l, c, &format!("{} {:?} (got {:.4}, exact {:.4}); the error {:.4} exceeds {:.4} [{key}]", what(), (s.at.0, s.at.1), s.at.2, s.at.3, s.max, m)),
        None => { cx.count("uncalibrated", 1); if s.max > 3.0 * tol::unit_of(&op.dst) { cx.count("uncalibrated_large", 1); } }
    }
    let mut t = s.clone();
    if tol::calibrating() { t.note = c.to_line(op, l); }
    cx.stat(key, &t);
}

// ---------------------------------------------------------------------------------------------------------------------
/// Accuracy against exact arithmetic (C04, C05, C06, C07, C12, C15, C17, C18, C20).
pub struct Accuracy { pub id: &'static str, pub filter: fn(&Op) -> bool, pub cfg: fn(&Op, &Case) -> bool, pub exact: bool, pub rule: &'static str }
pub fn bias_key(op: &Op, c: &Case, l: &str, k: usize) -> String { format!("B|{}{}|{}|{}|{}|{}", tol::family(op, c), if uses_matrix(op) { format!("-m{}", c.matrix) } else { String::new() }, tol::lclass(l), comp_names(&op.dst)[k], op.name, l) }
impl Prop for Accuracy {
    fn id(&self) -> &'static str { self.id }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().filter(|o| (self.filter)(o)).map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 1000 } else { 100_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        // the first round walks through every configuration once
        let n = configs(&op).len();
        let (first, cnt) = if round == 0 { (0, n.max(4)) } else { (round * 5, 5) };
        for k in 0..cnt {
            let mut c = any_case(&op, first + k, rng, true);
            if !(self.cfg)(&op, &c) { continue; }
            if round % 4 == 3 { c.pat = Pat::Random; c.w = rng.range(192, 400); c.h = rng.range(2, 6); }
            if rng.chance(1, 3) { pick_layout(&op, &mut c, rng); }
            self.check_case(cx, &op, &c, None);
        }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) {
        cx.b.layout(op, c);
        let img = gen_src(op, c);
        cx.b.put_src(op, c, &img, 1);
        let want = expect(op, c, &img);
        let fam = tol::family(op, c);
        for l in levels_of(cx, level) {
            cx.b.fill_dst(op, c, 0xA5);
            match cx.call(op, c, &l) { Outcome::Ok => {} o => { cx.violation("completes", op, l.name, c, &format!("a valid conversion ended in {o:?}")); continue; } }
            let got = cx.b.read_dst(op, c);
            let st = compare_want(&got, &want);
            for (k, s) in st.iter().enumerate() {
                let name = comp_names(&op.dst)[k];
                if self.exact {
                    if s.max != 0.0 { cx.violation("value", op, l.name, c, &format!("component {name} at {:?} is {} instead of {}", (s.at.0, s.at.1), s.at.2, s.at.3)); }
                    cx.stat(format!("E|{fam}|{}|{name}", tol::lclass(l.name)), s);
                    continue;
                }
                let around = || format!("component {name} at");
                judge_max(cx, "accuracy", format!("A|{fam}|{}|{name}", tol::lclass(l.name)), s, op, l.name, c, around);
                if c.pat == Pat::Random && c.w >= 192 && c.matrix != 6 { let mut t = s.clone(); t.note.clear(); cx.stat(bias_key(op, c, l.name, k), &t); }
            }
            if got.c.iter().any(|p| p.d.iter().any(|v| *v != p.d[0])) || c.w * c.h < 3 { cx.distinct(op, c, l.name, 0); }
            cx.count("samples_compared", st.iter().map(|s| s.n).sum());
            cx.sample(|| format!("{} -> max errors {}", c.to_line(op, l.name), nums(&st.iter().map(|s| s.max).collect::<Vec<_>>())));
        }
    }
    fn rule(&self) -> String { self.rule.into() }
    fn judge(&self, stats: &BTreeMap<String, Stat>) -> Vec<(String, String, String, String)> { judge_bias(stats) }
}
pub fn judge_bias(stats: &BTreeMap<String, Stat>) -> Vec<(String, String, String, String)> {
        let mut v = vec![];
        for (k, s) in stats {
            let f: Vec<&str> = k.split('|').collect();
            if f[0] != "B" || s.n < 4000 { continue; }
            let Some((lo, hi, rms)) = tol::bias(&f[..4].join("|")) else { continue };
            // sampling error of the mean and of the rms
            let se = 5.0 * s.rms() / (s.n as f64).sqrt();
            if s.mean() < lo - se || s.mean() > hi + se || s.rms() > rms + se {
                v.push(("bias".into(), f[4].into(), f[5].into(), format!("component {}: over {} samples the mean error is {:+.4} (admissible {:+.4}..{:+.4}) and the rms error {:.4} (admissible {:.4}) [{}]", f[3], s.n, s.mean(), lo, hi, s.rms(), rms, k)));
            }
        }
        v
}

// ---------------------------------------------------------------------------------------------------------------------
/// C03: every visible destination sample is written, nothing else is, the source is untouched.
pub struct Coverage;
impl Prop for Coverage {
    fn id(&self) -> &'static str { "C03" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 1000 } else { 100_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        for k in 0..4 {
            let mut c = any_case(&op, round * 4 + k + rng.below(2), rng, true);
            pick_layout(&op, &mut c, rng);
            self.check_case(cx, &op, &c, None);
        }
        if round == 0 {
            // buffers that are accepted although they are not exactly stride x rows long: without the padding of the last
            // row, and with one row too many
            let (ns, nd) = (cx.b.nsrc(&op, &Case::new(op.id, 6, 4)), cx.b.ndst(&op, &Case::new(op.id, 6, 4)));
            for (h, geo) in [(4, 0), (3, 1), (3, 2)] { for i in 0..ns + nd { for tail in [Tail::Trim, Tail::Extra] {
                let mut c = Case::new(op.id, 6, h);
                c.geo = geo; c.seed = 5;
                let (f, l) = if i < ns { (&op.src, &mut c.src[i]) } else { (&op.dst, &mut c.dst[i - ns]) };
                if !may_pad(f, if i < ns { i } else { i - ns }) { continue; }
                l.pad = 3; l.tail = tail;
                c.geo = geo % if op.model == Model::Mirror { 2 } else { 3 };
                cx.b.layout(&op, &c);
                if tail == Tail::Extra { let st = if i < ns { cx.b.src[i].stride } else { cx.b.dst[i - ns].stride }; if i < ns { c.src[i].extra = st } else { c.dst[i - ns].extra = st } }
                let l = cx.levels[cx.levels.len() - 1].name;
                self.check_case(cx, &op, &c, Some(l));
            } } }
        }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) {
        cx.b.layout(op, c);
        let img = gen_src(op, c);
        cx.b.put_src(op, c, &img, 1);
        let ns = cx.b.nsrc(op, c);
        let nd = cx.b.ndst(op, c);
        let before: Vec<Vec<u8>> = cx.b.src[..ns].iter().map(|b| b.zone_bytes().to_vec()).collect();
        let trimmed = c.src.iter().chain(&c.dst).any(|p| p.tail != Tail::Exact);
        for l in levels_of(cx, level) {
            let mut vis: Vec<Vec<u8>> = vec![];
            let mut bad = false;
            for fill in [0xA5u8, 0x5A] {
                cx.b.fill_dst(op, c, fill);
                cx.b.stack_fill = fill ^ 0xFF;
                match cx.call(op, c, &l) {
                    Outcome::Ok => {}
                    Outcome::Err(_) if trimmed => { cx.count("nonexact_rejected", 1); bad = true; break; }
                    o => { cx.violation(if trimmed { "completes-nonexact" } else { "completes" }, op, l.name, c, &format!("a valid conversion ended in {o:?}")); bad = true; break; }
                }
                let stray = cx.b.dst[..nd].iter().enumerate().find_map(|(i, d)| d.stray(fill).map(|s| (i, s)));
                if let Some((i, s)) = stray { cx.violation(if trimmed { "stray-write-nonexact" } else { "stray-write" }, op, l.name, c, &format!("destination plane {i}: {s} was overwritten")); }
                vis.push(cx.b.visible_dst(op, c));
                cx.count("destination_bytes_checked", vis[vis.len() - 1].len() as u64);
            }
            if bad { continue; }
            if vis[0] != vis[1] {
                let p = vis[0].iter().zip(&vis[1]).position(|(a, b)| a != b).unwrap();
                let n = vis[0].iter().zip(&vis[1]).filter(|(a, b)| a != b).count();
                cx.violation(if trimmed { "unwritten-nonexact" } else { "unwritten" }, op, l.name, c, &format!("{n} of {} visible destination bytes depend on the previous contents of the buffer (first at visible byte {p}: {:#x} / {:#x})", vis[0].len(), vis[0][p], vis[1][p]));
            }
            let changed = cx.b.src[..ns].iter().enumerate().find(|(i, b)| b.zone_bytes() != &before[*i][..]).map(|x| x.0);
            if let Some(i) = changed { cx.violation("source-write", op, l.name, c, &format!("source plane {i} was modified")); }
            if vis[0].iter().any(|b| *b != vis[0][0]) { cx.distinct(op, c, l.name, 0); }
            cx.sample(|| c.to_line(op, l.name));
        }
    }
    fn rule(&self) -> String { "every public conversion, all configurations, random sizes/strides/buffer placements; each call is made twice over two different destination fills (canaries on both sides); non-trivial = the produced image is not constant".into() }
}

// ---------------------------------------------------------------------------------------------------------------------
/// C08: every CPU feature level produces the same image up to the rounding of the fixed-point paths.
pub struct Dispatch;
impl Prop for Dispatch {
    fn id(&self) -> &'static str { "C08" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 1000 } else { 100_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        let n = configs(&op).len();
        let (first, cnt) = if round == 0 { (0, n.max(4)) } else { (round * 4, 4) };
        for k in 0..cnt {
            let mut c = any_case(&op, first + k, rng, true);
            if rng.chance(1, 4) { pick_layout(&op, &mut c, rng); }
            self.check_case(cx, &op, &c, None);
        }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, _level: Option<&str>) {
        cx.b.layout(op, c);
        let img = gen_src(op, c);
        cx.b.put_src(op, c, &img, 1);
        // below-black luma may be clamped first or carried through: both readings are admissible, so compare interval-wise
        let want = Some(expect(op, c, &img));
        let mut base: Option<Img> = None;
        let mut first: Option<Outcome> = None;
        let fam = tol::family(op, c);
        let has_hi = want.as_ref().is_some_and(|w| w.hi.is_some());
        for l in levels_of(cx, None) {
            cx.b.fill_dst(op, c, 0xA5);
            let o = cx.call(op, c, &l);
            if let Some(f) = &first { if std::mem::discriminant(f) != std::mem::discriminant(&o) { cx.violation("outcome", op, l.name, c, &format!("outcome {o:?}, but {f:?} at the scalar level")); continue; } } else { first = Some(o.clone()); }
            if let Outcome::Panic(p) = &o { cx.violation("completes", op, l.name, c, &format!("panic: {p}")); }
            if o != Outcome::Ok { continue; }
            let got = cx.b.read_dst(op, c);
            if let Some(b0) = &base {
                let st = compare(&got, b0);
                for (k, s) in st.iter().enumerate() {
                    let name = comp_names(&op.dst)[k];
                    let mut s = s.clone();
                    if has_hi {
                        let w = want.as_ref().unwrap();
                        let hi = w.hi.as_ref().unwrap();
                        s = Stat::default();
                        for i in 0..got.c[k].d.len() {
                            let slack = hi.c[k].d[i] - w.lo.c[k].d[i];
                            let (a, b) = (got.c[k].d[i], b0.c[k].d[i]);
                            let d = a - b;
                            let e = if d.abs() <= slack { 0.0 } else { d.abs() - slack };
                            s.add(b + e, b, i % got.c[k].w, i / got.c[k].w);
                        }
                    }
                    let key = format!("X|{fam}|{}|{name}", tol::lclass(l.name));
                    judge_max(cx, "cross-level", key, &s, op, l.name, c, || format!("component {name} differs from the scalar level at"));
                }
                cx.count("samples_compared", st.iter().map(|s| s.n).sum());
                cx.distinct(op, c, l.name, 0);
                cx.sample(|| format!("{} vs scalar -> max differences {}", c.to_line(op, l.name), nums(&st.iter().map(|s| s.max).collect::<Vec<_>>())));
            } else { base = Some(got); }
        }
    }
    fn rule(&self) -> String { "every public conversion, all configurations, random sizes and contents; the same call is executed at every x86 dispatch level this machine offers and compared component-wise with the scalar level; one judged configuration = (operation, configuration, geometry, level above scalar)".into() }
}

// ---------------------------------------------------------------------------------------------------------------------
/// C09: strides, padding contents, alignment and buffer placement do not influence the image.
pub struct Layout;
/// Few rows, up to 2^32-1 elements apart (address space only): offsets pass 2^31 and 2^32 within the plane.
fn giant_layout(op: &Op, c: &mut Case, rng: &mut Rng) {
    let d = |n: usize| n.min(97);
    c.w = d(c.w); c.h = c.h.min(5).max(if rng.chance(3, 4) { 3 } else { 1 });
    let (dw, dh) = c.dst_dims(op);
    let rows = [plane_dims(&op.src, c.w, c.h), plane_dims(&op.dst, dw, dh)];
    for (side, dims) in rows.iter().enumerate() {
        for (i, &(row, _)) in dims.iter().enumerate() {
            if !may_pad(if side == 0 { &op.src } else { &op.dst }, i) || rng.chance(1, 3) { continue; }
            let top = match rng.below(4) { 0 => u32::MAX as usize - rng.below(3), 1 => (1 << 31) + rng.below(5), 2 => (1 << 30) + rng.below(1 << 20), _ => (1 << 28) + rng.next() as usize % ((1 << 32) - (1 << 28)) };
            let p = if side == 0 { &mut c.src[i] } else { &mut c.dst[i] };
            p.pad = top - row;
        }
    }
}
impl Prop for Layout {
    fn id(&self) -> &'static str { "C09" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 1000 } else { 100_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        for k in 0..4 {
            let mut c = any_case(&op, round * 4 + k + rng.below(2), rng, true);
            if rng.chance(1, 6) { c.pat = Pat::Hostile; }
            pick_layout(&op, &mut c, rng);
            if k == 3 { giant_layout(&op, &mut c, rng); cx.count("giant_stride_layouts", 1); }
            self.check_case(cx, &op, &c, None);
        }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) {
        let mut t = c.clone();
        t.src = [TIGHT; 4]; t.dst = [TIGHT; 4];
        let img = gen_src(op, c);
        cx.b.layout(op, &t); cx.b.put_src(op, &t, &img, 1);
        cx.b2.layout(op, c); cx.b2.put_src(op, c, &img, 2);
        for l in levels_of(cx, level) {
            cx.b.fill_dst(op, &t, 0xA5);
            let o1 = cx.call(op, &t, &l);
            let base = cx.b.visible_dst(op, &t);
            for noise in [2u64, 3] {
                if noise == 3 { cx.b2.put_src(op, c, &img, 3); }
                cx.b2.fill_dst(op, c, if noise == 2 { 0x00 } else { 0xFF });
                let o2 = cx.call2(op, c, &l);
                if o1 != o2 { cx.violation("outcome", op, l.name, c, &format!("{o2:?}, but {o1:?} for the same image in contiguous buffers")); break; }
                if o1 != Outcome::Ok { break; }
                let v = cx.b2.visible_dst(op, c);
                if v != base {
                    let p = v.iter().zip(&base).position(|(a, b)| a != b).unwrap_or(0);
                    let n = v.iter().zip(&base).filter(|(a, b)| a != b).count();
                    cx.violation("layout", op, l.name, c, &format!("{n} of {} output bytes differ from the contiguous layout (first at visible byte {p}: {:#x} instead of {:#x})", base.len(), v[p], base[p]));
                    break;
                }
                cx.count("bytes_compared", v.len() as u64);
            }
            if base.iter().any(|b| *b != base[0]) { cx.distinct(op, c, l.name, 1); }
            cx.sample(|| c.to_line(op, l.name));
        }
        // leave the noise as check_case found it
    }
    fn rule(&self) -> String { "every public conversion; the same image is converted from contiguous buffers and from two padded/unaligned/differently placed layouts with different padding noise, and the visible bytes must be identical; non-trivial = output not constant".into() }
}

// ---------------------------------------------------------------------------------------------------------------------
/// C10: a sample depends only on the pixels it covers.
pub struct Locality;
fn cell(op: &Op) -> (usize, usize) { (op.src.ss.sx().max(op.dst.ss.sx()), op.src.ss.sy().max(op.dst.ss.sy())) }
impl Prop for Locality {
    fn id(&self) -> &'static str { "C10" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 1000 } else { 100_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        for k in 0..4 {
            let mut c = any_case(&op, round * 4 + k + rng.below(2), rng, true);
            if rng.chance(1, 5) { pick_layout(&op, &mut c, rng); }
            self.check_case(cx, &op, &c, None);
        }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) {
        let img = gen_src(op, c);
        let (cw, chh) = cell(op);
        let (w, h) = (c.w, c.h);
        let mut rng = Rng::new(c.seed ^ 0x10CA);
        // perturb a few cells
        let (gw, gh) = (w.div_ceil(cw), h.div_ceil(chh));
        let mut mask = vec![false; gw * gh];
        let n = 1 + rng.below((gw * gh / 8).max(1));
        for _ in 0..n { let i = rng.below(gw * gh); mask[i] = true; }
        if rng.chance(1, 3) { mask[gw * gh - 1] = true; }
        let mut c2 = c.clone();
        c2.seed = c.seed ^ 0x5EED_0001; if c2.pat == Pat::Hostile { c2.pat = Pat::Random; }
        if c2.pat == Pat::Flat { c2.pat = Pat::Random; }
        let other = gen_src(op, &c2);
        let mut img2 = img.clone();
        for k in 0..img2.c.len() {
            let (pw, ph) = (img2.c[k].w, img2.c[k].h);
            let (sx, sy) = (if pw == w { 1 } else { 2 }, if ph == h { 1 } else { 2 });
            for y in 0..ph { for x in 0..pw { if mask[(y * sy / chh) * gw + x * sx / cw] { let v = other.c[k].at(x, y); img2.c[k].set(x, y, v); } } }
        }
        cx.b.layout(op, c); cx.b.put_src(op, c, &img, 1);
        cx.b2.layout(op, c); cx.b2.put_src(op, c, &img2, 1);
        for l in levels_of(cx, level) {
            cx.b.fill_dst(op, c, 0xA5); cx.b2.fill_dst(op, c, 0xA5);
            let (o1, o2) = (cx.call(op, c, &l), cx.call2(op, c, &l));
            if o1 != Outcome::Ok || o2 != Outcome::Ok { cx.violation("completes", op, l.name, c, &format!("{o1:?} / {o2:?}")); continue; }
            let (a, b) = (cx.b.read_dst(op, c), cx.b2.read_dst(op, c));
            let (dw, dh) = c.dst_dims(op);
            let mut inside = 0u64; let mut outside = 0u64;
            'k: for k in 0..a.c.len() {
                let (pw, ph) = (a.c[k].w, a.c[k].h);
                let (sx, sy) = (if pw == dw { 1 } else { 2 }, if ph == dh { 1 } else { 2 });
                for y in 0..ph { for x in 0..pw {
                    let (u, v) = (x * sx, y * sy);
                    // position in the source picture
                    let (px, py) = match op.model {
                        Model::Rotate => match c.geo { 0 => (w - 1 - v, u), 1 => (w - 1 - u, h - 1 - v), _ => (v, h - 1 - u) },
                        Model::Mirror => if c.geo & 1 == 0 { (u, h - 1 - v) } else { (w - 1 - u, v) },
                        _ => (u, v),
                    };
                    let m = mask[(py / chh) * gw + px / cw];
                    let (p, q) = (a.c[k].at(x, y), b.c[k].at(x, y));
                    if p.to_bits() != q.to_bits() {
                        if m { inside += 1; } else {
                            cx.violation("leak", op, l.name, c, &format!("component {} at ({x},{y}) changed from {p} to {q} although only pixels in other {cw}x{chh} cells were changed", comp_names(&op.dst)[k]));
                            break 'k;
                        }
                    } else if !m { outside += 1; }
                } }
            }
            cx.count("unaffected_samples_checked", outside);
            if inside > 0 && outside > 0 { cx.distinct(op, c, l.name, 0); }
            // a strip of rows converts to the same rows
            if !matches!(op.model, Model::Rotate | Model::Mirror) && h > chh {
                let y0 = chh * rng.below(gh); let y1 = if rng.chance(1, 2) { h } else { (y0 + chh * (1 + rng.below(gh))).min(h) };
                let mut cs = c.clone(); cs.h = y1 - y0;
                let sub = Img { c: img.c.iter().map(|p| {
                    let sy = if p.h == h { 1 } else { 2 };
                    let (r0, r1) = (y0 / sy, y1.div_ceil(sy));
                    Comp { w: p.w, h: r1 - r0, d: p.d[r0 * p.w..r1 * p.w].to_vec() }
                }).collect() };
                cx.b2.layout(op, &cs); cx.b2.put_src(op, &cs, &sub, 1); cx.b2.fill_dst(op, &cs, 0xA5);
                let o = cx.call2(op, &cs, &l);
                if o != Outcome::Ok { cx.violation("completes", op, l.name, &cs, &format!("{o:?}")); }
                else {
                    let g = cx.b2.read_dst(op, &cs);
                    for k in 0..g.c.len() {
                        let sy = if a.c[k].h == h { 1 } else { 2 };
                        let pw = a.c[k].w;
                        let part = &a.c[k].d[y0 / sy * pw..y1.div_ceil(sy) * pw];
                        if let Some(i) = part.iter().zip(&g.c[k].d).position(|(p, q)| p.to_bits() != q.to_bits()) {
                            cx.violation("strip", op, l.name, c, &format!("rows {y0}..{y1} converted on their own differ: component {} row {} column {}: {} instead of {}", comp_names(&op.dst)[k], i / pw, i % pw, g.c[k].d[i], part[i]));
                            break;
                        }
                    }
                    cx.count("strips_compared", 1);
                }
                cx.b2.layout(op, c); cx.b2.put_src(op, c, &img2, 1);
            }
            cx.sample(|| format!("{} perturbed cells {}", c.to_line(op, l.name), mask.iter().filter(|m| **m).count()));
        }
    }
    fn rule(&self) -> String { "every public conversion; a random set of chroma cells of the source is replaced and all samples outside must be bit-identical, and a strip of whole cell rows converted alone must equal the same rows of the full conversion; non-trivial = the perturbation was visible inside and there were samples outside".into() }
}

// ---------------------------------------------------------------------------------------------------------------------
/// C11: variants of one conversion that differ only in the arrangement of channels agree.
pub struct Variants;
/// Operations that are the same conversion up to channel order, chroma plane order, byte order and the presence of opaque alpha.
pub fn variant_key(o: &Op) -> String {
    let norm = |f: &Fmt| { let mut g = *f; g.vu = false; g.be = false; g.order = NONE; if matches!(f.kind, Kind::Rgb) { g.ch = 3; g.alpha = false; } format!("{g:?}") };
    if matches!(o.model, Model::Shuffle | Model::Rotate | Model::Mirror | Model::ToF16 | Model::FromF16 | Model::Rgb30) { return String::new(); }
    format!("{:?} {} {}", o.model, norm(&o.src), norm(&o.dst))
}
impl Prop for Variants {
    fn id(&self) -> &'static str { "C11" }
    fn units(&self, cx: &Cx) -> Vec<String> {
        let mut m: BTreeMap<String, Vec<&'static str>> = BTreeMap::new();
        for o in &cx.ops { let k = variant_key(o); if !k.is_empty() { m.entry(k).or_default().push(o.name); } }
        m.values().filter(|v| v.len() > 1).map(|v| v[0].to_string()).collect()
    }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 1000 } else { 100_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        let n = configs(&op).len();
        let (first, cnt) = if round == 0 { (0, n.max(6)) } else { (round * 6, 6) };
        for k in 0..cnt { let c = any_case(&op, first + k, rng, true); self.check_case(cx, &op, &c, None); }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) {
        let key = variant_key(op);
        let group: Vec<Op> = cx.ops.iter().filter(|o| variant_key(o) == key).copied().collect();
        let img = gen_src(&group[0], c);
        for l in levels_of(cx, level) {
            let mut base: Option<(Img, &'static str)> = None;
            for o in &group {
                let mut ci = c.clone(); ci.op = o.id;
                let dims = comp_dims(&o.src, c.w, c.h);
                let im = Img { c: (0..dims.len()).map(|k| if k < img.c.len() { img.c[k].clone() } else { Comp { w: dims[k].0, h: dims[k].1, d: vec![max_of(src_bits(o, c)); dims[k].0 * dims[k].1] } }).collect() };
                cx.b.layout(o, &ci); cx.b.put_src(o, &ci, &im, 1); cx.b.fill_dst(o, &ci, 0xA5);
                let r = cx.call(o, &ci, &l);
                if r != Outcome::Ok { cx.violation("completes", o, l.name, &ci, &format!("{r:?}")); continue; }
                let got = cx.b.read_dst(o, &ci);
                if let Some((b0, bn)) = &base {
                    let m = got.c.len().min(b0.c.len());
                    let st = compare(&Img { c: got.c[..m].to_vec() }, &Img { c: b0.c[..m].to_vec() });
                    for (k, s) in st.iter().enumerate() {
                        let name = comp_names(&o.dst)[k];
                        let fam = tol::family(o, &ci);
                        judge_max(cx, "variant", format!("G|{fam}|{}|{name}", tol::lclass(l.name)), s, o, l.name, &ci, || format!("component {name} differs from {bn} at"));
                    }
                    cx.count("samples_compared", st.iter().map(|s| s.n).sum());
                    cx.distinct(o, &ci, l.name, 0);
                    cx.sample(|| format!("{} compared with {bn}", ci.to_line(o, l.name)));
                } else { base = Some((got, o.name)); }
            }
        }
    }
    fn rule(&self) -> String { "operations grouped by conversion; within a group (RGB/BGR/RGBA/BGRA/ARGB/ABGR, NV12/NV21 style, LE/BE, YUYV/UYVY/... variants) the same logical image is converted by every member at every CPU level and compared component-wise with the first member".into() }
}

// ---------------------------------------------------------------------------------------------------------------------
pub fn is_yuv_fmt(f: &Fmt) -> bool { matches!(f.kind, Kind::Planar | Kind::Bip | Kind::Gray | Kind::Packed422 | Kind::Packed444) }
pub fn is_dec(o: &Op) -> bool { is_yuv_fmt(&o.src) && matches!(o.dst.kind, Kind::Rgb | Kind::Rgb30) }
pub fn is_enc(o: &Op) -> bool { is_yuv_fmt(&o.dst) && matches!(o.src.kind, Kind::Rgb | Kind::Rgb30) }
fn any_cfg(_: &Op, _: &Case) -> bool { true }
fn straight(_: &Op, c: &Case) -> bool { !c.premul }

pub fn make(id: &str) -> Option<Box<dyn Prop>> {
    use crate::props2::*;
    Some(match id {
        "C01" => Box::new(Safety),
        "C02" => Box::new(Contract),
        "C14" => Box::new(crate::props3::Concurrency::new()),
        "C21" => Box::new(crate::props3::Descriptors),
        "C22" => Box::new(crate::props3::Features::new()),
        "C23" => Box::new(crate::props3::Wasm::new()),
        "C24" => Box::new(crate::props4::Resources),
        "C25" => Box::new(crate::props4::Refusals),
        "C13" => Box::new(RoundTrip),
        "C15" => Box::new(Alpha),
        "C19" => Box::new(Neutral),
        "C03" => Box::new(Coverage),
        "C04" => Box::new(Accuracy { id: "C04", filter: |o| o.model == Model::Yuv && is_dec(o) && o.src.bits == 8, cfg: straight, exact: false,
            rule: "every 8-bit YUV to RGB conversion x matrix (6 standard + random custom) x range x mode x CPU level, random sizes, layouts and 10 content classes, compared sample by sample with exact arithmetic; non-trivial = output not constant" }),
        "C05" => Box::new(Accuracy { id: "C05", filter: |o| o.model == Model::Yuv && is_enc(o) && o.dst.bits == 8, cfg: any_cfg, exact: false,
            rule: "every 8-bit RGB to YUV conversion x matrix x range x mode x CPU level, random sizes, layouts and contents, compared sample by sample with exact arithmetic; non-trivial = output not constant" }),
        "C06" => Box::new(Accuracy { id: "C06", filter: |o| o.model == Model::Yuv && is_dec(o) && o.src.bits > 8, cfg: any_cfg, exact: false,
            rule: "every 10/12/14/16-bit YUV to RGB8/RGB16/RGB f16/RGB30 conversion x matrix x range x CPU level, compared sample by sample with exact arithmetic; non-trivial = output not constant" }),
        "C07" => Box::new(Accuracy { id: "C07", filter: |o| o.model == Model::Yuv && is_enc(o) && o.dst.bits > 8, cfg: any_cfg, exact: false,
            rule: "every RGB16 to 10/12/14/16-bit YUV conversion x matrix x range x CPU level, compared sample by sample with exact arithmetic; non-trivial = output not constant" }),
        "C08" => Box::new(Dispatch),
        "C09" => Box::new(Layout),
        "C10" => Box::new(Locality),
        "C11" => Box::new(Variants),
        "C12" => Box::new(Accuracy { id: "C12", filter: |o| matches!(o.model, Model::Shuffle | Model::Repack | Model::Rotate | Model::Mirror | Model::Rgb30), cfg: any_cfg, exact: true,
            rule: "every channel shuffle, packed/planar 4:2:2 repack, rotation, mirroring and RGB30 pack/unpack at every CPU level, random sizes and contents; every output sample must equal the rearranged source sample; non-trivial = output not constant" }),
        "C16" => Box::new(Accuracy { id: "C16", filter: |o| o.model == Model::Sharp, cfg: any_cfg, exact: false,
            rule: "every sharp-YUV encoder x gamma x matrix x range x CPU level; luma against the ordinary luma, chroma against bilinear interpolation in linear light computed in f64; non-trivial = output not constant" }),
        "C17" => Box::new(Accuracy { id: "C17", filter: |o| matches!(o.model, Model::YCgCo | Model::Gbr), cfg: any_cfg, exact: false,
            rule: "every YCgCo and GBR conversion x range x CPU level, compared with exact arithmetic; non-trivial = output not constant" }),
        "C18" => Box::new(Accuracy { id: "C18", filter: |o| o.src.elem == Elem::F16 || o.dst.elem == Elem::F16, cfg: any_cfg, exact: false,
            rule: "every conversion from or to half floats (also out of YUV, YCgCo and GBR) x bit depth x matrix x range x CPU level, compared with exact arithmetic; non-trivial = output not constant" }),
        "C20" => Box::new(Accuracy { id: "C20", filter: |o| o.model == Model::Rdp, cfg: any_cfg, exact: false,
            rule: "every RemoteFX conversion x CPU level, compared with exact arithmetic; non-trivial = output not constant" }),
        _ => return None,
    })
}
