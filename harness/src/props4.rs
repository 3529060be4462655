//! C24: conversions keep nothing.
use crate::case::*; use crate::cpu::Level; use crate::engine::*; use crate::exec::*; use crate::fmt::*; use crate::gen::*; use crate::oracle::*; use crate::props::*; use crate::props2::*;
use crate::mem;

/// Bytes of temporary memory a call may use per pixel of the image, and whatever its size.
const TEMP_PER_PIXEL: i64 = 16;
const TEMP_FIXED: i64 = 1 << 20;
/// The stack of the threads all calls are made on; a debug build needs several times the stack of an optimised one.
const STACK: usize = 1 << 20;
pub struct Resources;
const PAINT: usize = 700 << 10;
#[inline(never)]
fn paint() { let mut a = std::mem::MaybeUninit::<[u8; PAINT]>::uninit(); unsafe { std::ptr::write_bytes(a.as_mut_ptr() as *mut u8, 0x5A, PAINT); } std::hint::black_box(&mut a); }
/// How deep the stack has been used since `paint`, up to the painted depth.
#[inline(never)]
fn depth() -> usize {
    let mut a = std::mem::MaybeUninit::<[u8; PAINT]>::uninit();
    let p = std::hint::black_box(&mut a).as_mut_ptr() as *const u8;
    // the probes of large frames write one word per page, without using it
    let clean = (0..PAINT / 4096).find(|k| (0..4096).filter(|j| unsafe { p.add(k * 4096 + j).read_volatile() } == 0x5A).count() < 4000).map_or(PAINT, |k| k * 4096);
    PAINT - clean
}
fn entries(d: &str) -> usize { std::fs::read_dir(d).map(|r| r.count()).unwrap_or(0) }
impl Resources {
    fn one(&self, cx: &mut Cx, op: &Op, c: &Case, l: &Level) {
        let img = gen_src(op, c);
        cx.b.layout(op, c);
        cx.b.put_src(op, c, &img, 1);
        let nd = cx.b.ndst(op, c);
        let keep: Vec<(usize, usize, usize)> = cx.b.dst[..nd].iter().map(|b| (b.off, b.bytes, b.stride)).collect();
        let (m, bad) = if c.mutn != 0 { let (m, bad, _) = corrupt(&mut cx.b, op, c); if !bad { return; } (m, true) } else { (c.clone(), false) };
        cx.note_journal(&c.to_line(op, l.name));
        let mut grown = [0i64; 4];
        let mut temp = 0i64;
        let mut out = Outcome::Ok;
        for g in &mut grown {
            cx.count("calls", 1);
            let k = mem::mark();
            let o = if bad { call_corrupted(&mut cx.b, op, c, &m, l) } else { cx.b.call(op, c, l) };
            let failed = matches!(o, Outcome::Panic(_));
            let txt = match &o { Outcome::Err(e) => e.capacity() as i64, _ => 0 };
            let (d, p, n) = mem::since(k);
            *g = d - txt; temp = temp.max(p);
            cx.count("heap_blocks_taken", n);
            out = o;
            if failed { cx.count("panicked", 1); break; }
        }
        for i in 0..nd { let b = &mut cx.b.dst[i]; (b.off, b.bytes, b.stride) = keep[i]; }
        if matches!(out, Outcome::Panic(_)) { return; }
        cx.count(if matches!(out, Outcome::Ok) { "completed" } else { "refused" }, 1);
        // what the first call sets up once may stay
        if grown[1..].iter().all(|g| *g > 0) { cx.violation("leak", op, l.name, c, &format!("the same call, repeated, ends {out:?} and leaves {:?} more bytes on the heap every time", &grown[1..])); }
        if grown[1..].iter().any(|g| *g < 0) { cx.count("released_more_than_taken", 1); }
        let (dw, dh) = c.dst_dims(op);
        let px = (c.w * c.h).max(dw * dh) as i64;
        let cap = if bad { TEMP_FIXED } else { TEMP_FIXED + TEMP_PER_PIXEL * px };
        if temp > cap { cx.violation("temporary", op, l.name, c, &format!("{temp} bytes of temporary memory for {px} pixels")); }
        let mut st = Stat::default();
        st.n = 1; st.max = temp as f64 / px.max(1) as f64; st.note = c.to_line(op, l.name);
        if !bad && px > 2000 { cx.stat(format!("temporary bytes per pixel {}", op.name), &st); }
        cx.distinct(op, c, l.name, c.mutn as u64);
        cx.sample(|| format!("{out:?}, {} bytes kept, {temp} bytes used meanwhile  {}", grown[3], c.to_line(op, l.name)));
    }
    /// A run of different small calls: what is kept from one call to the next must not add up.
    fn history(&self, cx: &mut Cx, op: &Op, round: usize, rng: &mut Rng) {
        let n = if op.model == Model::Sharp { 48 } else { 320 };
        let l = rng.pick(&cx.levels.iter().map(|l| l.name).collect::<Vec<_>>());
        let Some(l) = levels_of(cx, Some(l)).into_iter().next() else { return };
        let k0 = rng.below(1000);
        let step = rng.pick(&[1usize, 1, 5, 7]);
        let (mut sum, mut half, mut last) = (0i64, 0i64, String::new());
        for i in 0..n {
            let mut c = any_case(op, k0 + i * step, rng, false);
            c.w = rng.range(1, 40); c.h = rng.range(1, 4);
            cx.b.layout(op, &c);
            cx.b.put_src(op, &c, &gen_src(op, &c), 1);
            cx.note_journal(&c.to_line(op, l.name));
            let k = mem::mark();
            let o = cx.b.call(op, &c, &l);
            let (d, _, _) = mem::since(k);
            if let Outcome::Panic(_) = o { cx.count("panicked", 1); return; }
            sum += d - match &o { Outcome::Err(e) => e.capacity() as i64, _ => 0 };
            if i == n / 2 { half = sum; }
            last = c.to_line(op, l.name);
        }
        cx.count("history_calls", n as u64);
        cx.count("histories", 1);
        if sum > 8 * n as i64 && sum > half { cx.violation_line("accumulates", op.name, l.name, &format!("{n} different calls leave {half} more bytes on the heap half way and {sum} at the end; the last: {last}"), &format!("resources op={} round={round} seed={}", op.name, cx.seed)); }
    }
    fn inner(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        let n = configs(&op).len();
        let (threads, files) = (entries("/proc/self/task"), entries("/proc/self/fd"));
        let cnt = if round == 0 { n.clamp(4, 12) } else { 4 };
        paint();
        for k in 0..cnt {
            let mut c = any_case(&op, if round == 0 { k * n / cnt } else { round * 4 + k }, rng, round > 0);
            if round > 0 && k == 0 { c.w = rng.range(60, 900); c.h = rng.range(30, 130); }
            if rng.chance(1, 2) { pick_layout(&op, &mut c, rng); }
            self.check_case(cx, &op, &c, None);
        }
        // calls that have to fail
        for _ in 0..2 {
            let mut c = any_case(&op, rng.below(n), rng, false);
            let (ns, nd) = (plane_dims(&op.src, 4, 4).len(), plane_dims(&op.dst, 4, 4).len());
            let kind = rng.range(1, KINDS as usize) as u32;
            if matches!(kind, 16 | 17) && !two_images(&op) { continue; }
            if matches!(kind, 7 | 8) && matches!(op.model, Model::Rotate | Model::Mirror) { continue; }
            c.mutn = kind * 16 + if rng.chance(1, 2) { rng.below(ns) as u32 } else { 8 + rng.below(nd) as u32 };
            self.check_case(cx, &op, &c, None);
        }
        if round % 3 == 0 { self.history(cx, &op, round, rng); }
        let mut st = Stat::default();
        st.n = 1; st.max = depth() as f64; st.note = op.name.into();
        cx.stat("stack depth".into(), &st);
        let (t2, f2) = (entries("/proc/self/task"), entries("/proc/self/fd"));
        cx.count("process_tables_compared", 1);
        if t2 > threads || f2 > files { cx.violation_line("left-behind", op.name, "-", &format!("{} threads and {} open files before the calls, {t2} and {f2} after", threads, files), &format!("resources op={} round={round} seed={}", op.name, cx.seed)); }
    }
}
impl Prop for Resources {
    fn id(&self) -> &'static str { "C24" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 60 } else { 20_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || self.inner(cx, unit, round, rng)).expect("thread").join().expect("unit"));
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) { for l in levels_of(cx, level) { self.one(cx, op, c, &l); } }
    fn rule(&self) -> String { "every public conversion x CPU level x configurations x sizes, each call made four times on a thread with a 1 MiB stack under a counting allocator, also with arguments that have to be refused; thread and file tables compared around each unit; non-trivial = the call returned".into() }
}

// ---------------------------------------------------------------------------------------------------------------------
/// C25: an error names the argument at fault.
pub struct Refusals;
fn role(f: &Fmt, plane: usize) -> &'static str {
    match (f.kind, plane) {
        (Kind::Planar | Kind::Bip, 1 | 2) => "chroma",
        (Kind::Planar, 3) | (Kind::Gray, 1) => "alpha",
        (Kind::Planar | Kind::Bip | Kind::Gray, _) => "luma",
        (Kind::Packed422, _) => "packed 4:2:2",
        (Kind::Packed444, _) => "packed 4:4:4",
        _ => "interleaved",
    }
}
impl Prop for Refusals {
    fn id(&self) -> &'static str { "C25" }
    fn units(&self, cx: &Cx) -> Vec<String> { cx.ops.iter().map(|o| o.name.to_string()).collect() }
    fn rounds(&self, t: Tier) -> usize { if t == Tier::Quick { 400 } else { 100_000 } }
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng) {
        let op = op_named(cx, unit).unwrap();
        let (ns, nd) = (plane_dims(&op.src, 4, 4).len(), plane_dims(&op.dst, 4, 4).len());
        for kind in [1u32, 2, 3, 4, 5, 6, 7, 8, 21] {
            if matches!(kind, 7 | 8) && matches!(op.model, Model::Rotate | Model::Mirror) { continue; }
            for p in if kind < 7 || kind == 21 { (0..ns as u32).chain((0..nd as u32).map(|p| 8 + p)).collect() } else { vec![0u32] } {
                let mut c = any_case(&op, round * 5 + rng.below(3), rng, false);
                if round % 3 == 1 { c.w = rng.range(1, 40); c.h = rng.range(1, 6); }
                pick_layout(&op, &mut c, rng);
                c.mutn = kind * 16 + p;
                let l = cx.levels[rng.below(cx.levels.len())].name;
                self.check_case(cx, &op, &c, Some(l));
            }
        }
    }
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>) {
        cx.b.layout(op, c);
        cx.b.put_src(op, c, &gen_src(op, c), 1);
        let nd = cx.b.ndst(op, c);
        let keep: Vec<(usize, usize, usize)> = cx.b.dst[..nd].iter().map(|b| (b.off, b.bytes, b.stride)).collect();
        let (m, bad, what) = corrupt(&mut cx.b, op, c);
        let Some(l) = levels_of(cx, level).into_iter().next() else { return };
        if !bad { return; }
        cx.note_journal(&c.to_line(op, l.name));
        cx.count("calls", 1);
        let o = call_corrupted(&mut cx.b, op, c, &m, &l);
        let (kind, side, plane) = (c.mutn / 16, (c.mutn / 8) & 1, (c.mutn & 7) as usize);
        let (f, b) = if side == 0 { (&op.src, &cx.b.src[plane]) } else { (&op.dst, &cx.b.dst[plane]) };
        let (stride, len, rows, row) = (b.stride, b.bytes / b.elem.size(), b.rows, b.row);
        let (dbg, txt) = last_err();
        for i in 0..nd { let b = &mut cx.b.dst[i]; (b.off, b.bytes, b.stride) = keep[i]; }
        // whether it is refused at all is for C02 to say
        if !matches!(o, Outcome::Err(_)) { cx.count("not_refused", 1); return; }
        let name = dbg.split('(').next().unwrap().to_string();
        let num = |k: &str| dbg.split_once(&format!("{k}: ")).and_then(|x| x.1.split(|c: char| !c.is_ascii_digit()).next()).and_then(|x| x.parse::<u128>().ok());
        let r = role(f, plane);
        let ok = match kind {
            7 | 8 => name == "ZeroBaseSize",
            _ if matches!(op.model, Model::Rotate | Model::Mirror) => matches!(name.as_str(), "ImageDimensionsNotMatch" | "ImagesSizesNotMatch"),
            _ => match r {
                "luma" | "alpha" => name.starts_with("LumaPlane"),
                "chroma" => name.starts_with("ChromaPlane"),
                "packed 4:2:2" => name.starts_with("PackedFrame"),
                _ => matches!(name.as_str(), "DestinationSizeMismatch" | "MinimumStrideSizeMismatch"),
            },
        };
        cx.count(&format!("named_{name}"), 1);
        let at = if matches!(kind, 7 | 8) { what.clone() } else { format!("{what} ({r}, row {row}, {rows} rows, stride {stride}, {len} elements)") };
        if !ok { cx.violation("family", op, l.name, c, &format!("{at}: the error is {dbg}")); }
        if let (Some(e), Some(g)) = (num("expected"), num("received")) {
            let (stride, len, rows, row) = (stride as u128, len as u128, rows as u128, row as u128);
            let short = matches!(kind, 4..=6);
            let fine = if r == "packed 4:2:2" { g == len && e != g }
                else if short { g == len && e > g && e >= stride * (rows - 1) + row }
                else { (g == stride && e >= row || g == stride * rows && e >= row * rows) && e > g };
            if !fine { cx.violation("numbers", op, l.name, c, &format!("{at}: the error speaks of {e} expected and {g} received")); }
            if !(txt.contains(&e.to_string()) && txt.contains(&g.to_string())) { cx.violation("message", op, l.name, c, &format!("{at}: the message {txt:?} does not give the numbers of {dbg}")); }
            cx.count("numbers_compared", 1);
        }
        if txt.trim().is_empty() { cx.violation("message", op, l.name, c, &format!("{at}: the error has no message")); }
        cx.distinct(op, c, l.name, c.mutn as u64);
        cx.sample(|| format!("{at}: {dbg} {txt:?}"));
    }
    fn rule(&self) -> String { "every public conversion x one wrong argument at a time (each plane's stride or length, or a zero dimension) x sizes x layouts: family of the error, the numbers in it and its message; non-trivial = refused".into() }
}
