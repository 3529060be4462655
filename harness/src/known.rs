//! Known findings: genuine defects recorded instead of repaired.  Matching is on property, monitor, operation and an
//! explicit condition over the failing case, so a different violation of the same property is still reported.
use crate::case::*; use crate::engine::*; use crate::fmt::*;
use std::process::Command;

pub struct Known { pub id: String, pub ops: Vec<String>, pub monitors: Vec<String>, pub when: Vec<String>, pub probe: String, pub text: String }

/// Lines: `finding: property=Cxx id=.. ops=a,b monitors=m1,m2 when=cond,cond probe={case line} text=...`
pub fn load(root: &str, prop: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(format!("{root}/known-findings.txt")) else { return vec![] };
    let mut v = vec![];
    for l in s.lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let (head, text) = r.split_once(" text=").unwrap_or((r, ""));
        let (head, probe) = match head.split_once(" probe={") { Some((h, p)) => (h, p.trim_end().trim_end_matches('}')), None => (head, "") };
        let mut k = Known { id: String::new(), ops: vec![], monitors: vec![], when: vec![], probe: probe.into(), text: text.into() };
        let mut pid = "";
        for kv in head.split_whitespace() {
            let Some((a, b)) = kv.split_once('=') else { continue };
            let list = || b.split(',').map(|s| s.to_string()).collect::<Vec<_>>();
            match a { "property" => pid = b, "id" => k.id = b.into(), "ops" => k.ops = list(), "monitors" => k.monitors = list(), "when" => k.when = list(), _ => {} }
        }
        if pid == prop { v.push(k); }
    }
    v
}
impl Known {
    pub fn matches(&self, v: &Viol, ops: &[Op]) -> bool {
        if !self.monitors.iter().any(|m| *m == v.monitor) { return false; }
        if !self.ops.iter().any(|o| *o == v.op) { return false; }
        if self.when.is_empty() { return true; }
        let Some((c, level)) = Case::parse(&v.line, ops) else { return false };
        self.when.iter().all(|w| cond(w, &c, &level))
    }
    /// Re-runs the recorded failing case in a child process.
    pub fn reproduces(&self, p: &mut dyn Prop, _cx: &mut Cx, exe: &str) -> bool {
        if self.probe.is_empty() { return false; }
        let o = Command::new(exe).args(["case", p.id(), &self.probe]).output();
        match o { Ok(o) => o.status.code() != Some(0), Err(_) => false }
    }
}
fn cond(w: &str, c: &Case, level: &str) -> bool {
    let num = |k: &str| -> Option<f64> { Some(match k {
        "w" => c.w as f64, "h" => c.h as f64, "geo" => c.geo as f64, "range" => c.range as f64, "mode" => c.mode as f64, "matrix" => c.matrix as f64, "premul" => c.premul as u8 as f64, "depth" => c.depth as f64,
        // arguments whose products exceed 32 bits
        "huge" => matches!(c.mutn / 16, 9 | 10 | 11 | 14 | 15 | 20 | 22 | 23) as u8 as f64,
        "spad" => c.src.iter().map(|p| p.pad).max().unwrap() as f64, "dpad" => c.dst.iter().map(|p| p.pad).max().unwrap() as f64, _ => return None }) };
    if let Some((k, v)) = w.split_once(">=") { return num(k).is_some_and(|x| x >= v.parse().unwrap_or(f64::INFINITY)); }
    if let Some((k, v)) = w.split_once(':') { if k == "level" { return level == v; } return num(k).is_some_and(|x| x == v.parse().unwrap_or(f64::NAN)); }
    false
}
