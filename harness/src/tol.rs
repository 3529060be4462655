//! Tolerances.  The oracle is exact arithmetic; how far a fixed-point path may be from it was calibrated once per family of
//! conversions (tolerances.txt, see tools/calibrate.sh) and is fixed in the committed file.
use crate::case::*; use crate::fmt::*; use crate::gen::*;
use std::collections::HashMap;
use std::sync::OnceLock;

fn fk(f: &Fmt) -> String {
    let e = match f.elem { U8 => "b", U16 => "w", I16 => "i", F16 => "h" };
    let s = match f.ss { S420 => "420", S422 => "422", S444 => "444", S400 => "400" };
    match f.kind {
        Kind::Planar => format!("pl{s}{}_{}{e}", if f.alpha { "a" } else { "" }, f.bits),
        Kind::Bip => format!("bp{s}_{}{e}", f.bits),
        Kind::Gray => format!("gray{}_{}{e}", if f.alpha { "a" } else { "" }, f.bits),
        Kind::Packed422 => format!("pk422_{}{e}", f.bits),
        Kind::Packed444 => format!("pk444_{}{e}", f.bits),
        Kind::Rgb => format!("rgb_{}{e}", f.bits),
        Kind::Rgb30 => "rgb30".into(),
        Kind::Chan => format!("ch{}_{}{e}", f.ch, f.bits),
    }
}
/// The family of a call: operations and configurations that share arithmetic.
pub fn family(op: &Op, c: &Case) -> String {
    let mut s = format!("{:?}:{}>{}", op.model, fk(&op.src), fk(&op.dst));
    if uses_mode(op) { s.push_str(["-fast", "-bal", "-prof"][c.mode as usize]); }
    if uses_range(op) { s.push_str(["-lim", "-full"][c.range as usize]); }
    if uses_premul(op) && c.premul { s.push_str("-premul"); }
    if uses_depth(op) { s.push_str(&format!("-d{}", c.depth)); }
    if op.model == Model::Sharp { s.push_str(&format!("-g{}", c.gamma)); }
    if uses_matrix(op) && c.matrix == 6 { s.push_str("-custom"); }
    s
}
pub fn lclass(level: &str) -> &'static str {
    if level.starts_with("scalar") { "scalar" } else if level.starts_with("sse") { "sse" } else if level.starts_with("avx2") { "avx2" } else { "avx512" }
}
pub fn unit_of(f: &Fmt) -> f64 { if f.elem == F16 { 0.0004 } else { 1.0 } }

struct Row { max: f64, lo: f64, hi: f64, rms: f64 }
static T: OnceLock<HashMap<String, Row>> = OnceLock::new();
fn table() -> &'static HashMap<String, Row> {
    T.get_or_init(|| {
        let mut m = HashMap::new();
        for l in include_str!("../tolerances.txt").lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            if f.len() == 5 && !l.starts_with('#') { m.insert(f[0].into(), Row { max: f[1].parse().unwrap(), lo: f[2].parse().unwrap(), hi: f[3].parse().unwrap(), rms: f[4].parse().unwrap() }); }
        }
        m
    })
}
pub fn calibrating() -> bool { static C: OnceLock<bool> = OnceLock::new(); *C.get_or_init(|| std::env::var_os("YUVMON_CALIB").is_some()) }
/// Largest admissible error, or None when the family was never calibrated.
pub fn limit(key: &str) -> Option<f64> {
    if calibrating() { return Some(f64::INFINITY); }
    if let Some(r) = table().get(key) { return Some(r.max); }
    // a CPU level that was never calibrated (or a custom matrix): the loosest of its siblings
    let f: Vec<&str> = key.split('|').collect();
    if f.len() < 3 { return None; }
    if f[0] == "G" { return Some(0.0); }
    let mut best = None;
    for lc in ["scalar", "sse", "avx2", "avx512"] {
        let mut g = f.clone(); g[2] = lc;
        if let Some(r) = table().get(&g.join("|")) { best = Some(r.max.max(best.unwrap_or(0.0))); }
    }
    best
}
/// (lowest mean, highest mean, highest rms)
pub fn bias(key: &str) -> Option<(f64, f64, f64)> { if calibrating() { return None; } table().get(key).map(|r| (r.lo, r.hi, r.rms)) }
