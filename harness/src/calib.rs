//! Development aid: measures every operation against the reference model and across dispatch levels.
use crate::case::*; use crate::cpu; use crate::exec::*; use crate::fmt::*; use crate::ops; use crate::oracle::*;

pub fn uses_mode(op: &Op) -> bool { use crate::ops::Call::*; matches!(op.call, C0(_) | C2(_) | C3(_) | C5(_)) }
pub fn uses_matrix(op: &Op) -> bool { matches!(op.model, Model::Yuv | Model::Sharp) }
pub fn uses_range(op: &Op) -> bool { matches!(op.model, Model::Yuv | Model::Sharp | Model::YCgCo | Model::Gbr) }

pub fn run(filter: &str) {
    let ops = ops::registry();
    let levels = cpu::levels();
    let mut b = Bench::new();
    for op in &ops {
        if if let Some(x) = filter.strip_prefix("=") { op.name != x } else { !op.name.contains(filter) } { continue; }
        let modes: &[u8] = if uses_mode(op) { &[0, 1, 2] } else { &[1] };
        let mats: &[u8] = if uses_matrix(op) { &[0, 1, 2, 3, 4, 5] } else { &[0] };
        let ranges: &[u8] = if uses_range(op) { &[0, 1] } else { &[0] };
        for &mode in modes { for &range in ranges {
            let mut per: Vec<Vec<Stat>> = vec![vec![Stat::default(); 4]; levels.len()];
            let mut cross = vec![0f64; levels.len()];
            let verbose = std::env::var_os("V").is_some();
            let mut worst = vec![String::new(); levels.len()]; let mut wcross = worst.clone();
            let mut notes: std::collections::BTreeMap<String, u32> = Default::default();
            for &matrix in mats { for premul in [false, true] {
              if premul && !matches!(op.call, ops::Call::C7(_) | ops::Call::C51(_)) { continue; }
              for (w, h) in [(131, 5), (64, 4), (1, 1), (2, 2), (3, 3), (17, 2), (259, 3)] { for (pi, pat) in [Pat::Random, Pat::Legal, Pat::Extremes, Pat::Gray, Pat::Smooth].into_iter().enumerate() {
                let mut c = Case::new(op.id, w, h);
                c.mode = mode; c.range = range; c.matrix = matrix; c.pat = pat; c.seed = (w * 7 + pi) as u64; c.premul = premul;
                c.geo = (pi % 3) as u8; c.network = pi & 1 == 1; c.depth = [10, 12, 14, 10, 12][pi];
                b.layout(op, &c);
                let img = gen_src(op, &c);
                b.put_src(op, &c, &img, 1);
                let want = expect(op, &c, &img);
                let mut base: Option<Img> = None;
                for (li, l) in levels.iter().enumerate() {
                    b.fill_dst(op, &c, 0xA5);
                    match b.call(op, &c, l) {
                        Outcome::Ok => {
                            let got = b.read_dst(op, &c);
                            for (k, s) in compare_want(&got, &want).iter().enumerate() {
                                if s.max > per[li][k].max && verbose { worst[li] = format!("{} comp {k} at {:?} :: {}", s.max, s.at, c.to_line(op, l.name)); }
                                per[li][k].merge(s);
                            }
                            if let Some(b0) = &base { for (k, s) in compare(&got, b0).iter().enumerate() {
                                if s.max > cross[li] && verbose { wcross[li] = format!("{} comp {k} at {:?} src {:?} :: {}", s.max, s.at, around(&img, s.at.0, s.at.1), c.to_line(op, l.name)); }
                                cross[li] = cross[li].max(s.max);
                            } } else { base = Some(got); }
                            for d in &b.dst[..b.ndst(op, &c)] { if let Some(s) = d.stray(0xA5) { *notes.entry(format!("STRAY {s}").chars().take(40).collect()).or_default() += 1; } }
                        }
                        o => { *notes.entry(format!("{} {o:?} w{w} h{h}", l.name)).or_default() += 1; }
                    }
                }
            } } } }
            let mut prev = String::new();
            for (li, l) in levels.iter().enumerate() {
                let t: Vec<String> = per[li].iter().filter(|s| s.n > 0).map(|s| format!("{:.3}/{:+.3}/{:.3}", s.max, s.mean(), s.rms())).collect();
                let line = format!("{} x{:.3}", t.join(" "), cross[li]);
                if line != prev { println!("{:28} m{} r{} {:18} {}", op.name, mode, range, l.name, line); }
                if line != prev && verbose { println!("      worst {}\n      cross {}", worst[li], wcross[li]); }
                prev = line;
            }
            for (k, v) in notes.iter().take(6) { println!("{:28} m{} r{} NOTE {} x{}", op.name, mode, range, k, v); }
        } }
    }
}

/// Source components at (or co-sited with) pixel (x, y) of the luma grid.
pub fn around(im: &Img, x: usize, y: usize) -> Vec<f64> {
    let (w, h) = (im.c[0].w, im.c[0].h);
    im.c.iter().map(|c| { let cx = x * c.w / w.max(1); let cy = y * c.h / h.max(1); if cx < c.w && cy < c.h { c.at(cx, cy) } else { f64::NAN } }).collect()
}
