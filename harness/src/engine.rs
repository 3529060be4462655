//! Parent/worker machinery shared by all monitors.
//!
//! The parent starts `N` worker processes; each worker executes its share of the work units (one unit = one public
//! operation, or a pseudo unit of the property) round after round and streams observations back.  Before every call of
//! the library the worker writes the case into a shared journal, so a worker that dies (SIGSEGV on a guard page, abort
//! from a standard-library precondition check, AddressSanitizer report) is attributed to the call that killed it.
use crate::case::*; use crate::cpu::{self, Level}; use crate::exec::*; use crate::fmt::*; use crate::ops; use crate::oracle::Stat;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};

extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
const JN: usize = 8192;
pub struct Journal(*mut u8);
unsafe impl Send for Journal {}
impl Journal {
    pub fn open(path: &str) -> Journal {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("journal");
        f.set_len(JN as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), JN, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        Journal(p)
    }
    pub fn none() -> Journal { Journal(std::ptr::null_mut()) }
    fn put(&self, s: &str) {
        if self.0.is_null() { return; }
        let b = s.as_bytes(); let n = b.len().min(JN - 16);
        unsafe {
            let c = self.0 as *mut u64; c.write_volatile(c.read_volatile().wrapping_add(1));
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(8), n); self.0.add(8 + n).write_volatile(0);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

pub struct Cx { pub ops: Vec<Op>, pub levels: Vec<Level>, pub b: Bench, pub b2: Bench, pub tier: Tier, pub seed: u64, pub j: Journal, pub prop: String,
    pub distinct: HashSet<u64>, seen: HashSet<String>, pub stats: BTreeMap<String, Stat>, pub counters: BTreeMap<String, u64>, samples: u32, pub verbose: bool, pub nviol: u64 }

impl Cx {
    pub fn new(prop: &str, tier: Tier, seed: u64) -> Cx {
        Cx { ops: ops::registry(), levels: cpu::levels(), b: Bench::new(), b2: Bench::new(), tier, seed, j: Journal::none(), prop: prop.into(),
            distinct: HashSet::new(), seen: HashSet::new(), stats: BTreeMap::new(), counters: BTreeMap::new(), samples: 0, verbose: false, nviol: 0 }
    }
    pub fn count(&mut self, k: &str, n: u64) { if let Some(v) = self.counters.get_mut(k) { *v += n; } else { self.counters.insert(k.into(), n); } }
    /// Journals and performs one call on the primary bench.
    pub fn call(&mut self, op: &Op, c: &Case, l: &Level) -> Outcome {
        self.j.put(&c.to_line(op, l.name));
        self.count("calls", 1);
        self.b.call(op, c, l)
    }
    pub fn call2(&mut self, op: &Op, c: &Case, l: &Level) -> Outcome {
        self.j.put(&c.to_line(op, l.name));
        self.count("calls", 1);
        self.b2.call(op, c, l)
    }
    pub fn note_journal(&self, s: &str) { self.j.put(s); }
    /// Registers a judged observation as distinct (op, level, configuration, geometry class, content class).
    pub fn distinct(&mut self, op: &Op, c: &Case, level: &str, extra: u64) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (op.id, level, c.range, c.matrix, c.mode, c.premul, c.gamma, c.geo).hash(&mut h);
        (c.network, c.w, c.h, c.depth, c.pat as u8, extra).hash(&mut h);
        for p in c.src.iter().chain(&c.dst) { (p.pad, p.extra, p.tail as u8).hash(&mut h); }
        self.distinct.insert(h.finish());
    }
    pub fn stat(&mut self, key: String, s: &Stat) { self.stats.entry(key).or_default().merge(s); }
    pub fn violation(&mut self, monitor: &str, op: &Op, level: &str, c: &Case, msg: &str) { self.violation_line(monitor, op.name, level, msg, &c.to_line(op, level)); }
    pub fn violation_line(&mut self, monitor: &str, opname: &str, level: &str, msg: &str, line: &str) {
        self.nviol += 1;
        *self.counters.entry("violating_observations".into()).or_default() += 1;
        if !self.seen.insert(format!("{monitor} {opname} {level} {}", if self.verbose { line } else { "" })) { return; }
        println!("V\t{monitor}\t{opname}\t{level}\t{}\t{line}", msg.replace(['\t', '\n'], " "));
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) { if self.samples < 2 { self.samples += 1; println!("E\t{}", s().replace(['\t', '\n'], " ")); } }
    fn flush(&mut self) {
        for (k, s) in std::mem::take(&mut self.stats) { println!("S\t{k}\t{}\t{}\t{}\t{}\t{}", s.n, s.max, s.sum, s.sq, s.note.replace(['\t', '\n'], " ")); }
        for (k, v) in std::mem::take(&mut self.counters) { println!("C\t{k}\t{v}"); }
        let _ = std::io::stdout().flush();
    }
}

pub trait Prop {
    fn id(&self) -> &'static str;
    /// Names of the work units (operation names, or free names).
    fn units(&self, cx: &Cx) -> Vec<String>;
    fn rounds(&self, tier: Tier) -> usize;
    fn run_unit(&mut self, cx: &mut Cx, unit: &str, round: usize, rng: &mut Rng);
    /// Re-judges one case (for replay and for known-finding probes).
    fn check_case(&mut self, cx: &mut Cx, op: &Op, c: &Case, level: Option<&str>);
    /// Re-judges an observation that is not a plain case line; false if the line is not of that kind.
    fn replay_line(&mut self, _cx: &mut Cx, _line: &str) -> bool { false }
    fn rule(&self) -> String;
    /// Judges the merged statistics: (monitor, op, level, message)
    fn judge(&self, _stats: &BTreeMap<String, Stat>) -> Vec<(String, String, String, String)> { vec![] }
}

pub fn op_named(cx: &Cx, n: &str) -> Option<Op> { cx.ops.iter().find(|o| o.name == n).copied() }

fn h64(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h }

pub fn worker(p: &mut dyn Prop, cx: &mut Cx, shard: usize, of: usize, from: (usize, usize), budget: f64, journal: &str, only: &str) {
    cx.j = Journal::open(journal);
    let t0 = std::time::Instant::now();
    let mut units: Vec<String> = p.units(cx);
    if !only.is_empty() { units.retain(|u| u.contains(only)); }
    let seed = cx.seed;
    units.sort_by_key(|u| (h64(u).wrapping_add(seed).wrapping_mul(0x9E3779B97F4A7C15) >> 7, u.clone()));
    let mine: Vec<String> = units.iter().enumerate().filter(|(i, _)| i % of == shard).map(|(_, u)| u.clone()).collect();
    let rounds = p.rounds(cx.tier);
    let quick_stop = std::env::var_os("YUVMON_STOP").is_some();
    let mut done = 0;
    'o: for round in from.0..rounds {
        for (i, u) in mine.iter().enumerate() {
            if round == from.0 && i < from.1 { continue; }
            println!("U\t{round}\t{i}\t{u}");
            let _ = std::io::stdout().flush();
            let mut rng = Rng::new(seed.wrapping_mul(0x1000003D) ^ h64(u) ^ ((round as u64) << 40));
            p.run_unit(cx, u, round, &mut rng);
            cx.count("units_run", 1);
            cx.flush();
            // the first round always completes: every operation is observed at least once
            if round > 0 && t0.elapsed().as_secs_f64() > budget { break 'o; }
            // (for trying out planted bugs) one new violation is enough
            if quick_stop && std::path::Path::new(&format!("{journal}.stop")).with_file_name("stop").exists() { break 'o; }
        }
        done = round + 1;
    }
    cx.flush();
    println!("D\t{}\t{done}", cx.distinct.len());
    let _ = std::io::stdout().flush();
}

#[derive(Clone, Debug)]
pub struct Viol { pub monitor: String, pub op: String, pub level: String, pub msg: String, pub line: String }

#[derive(Default)]
struct Merged { stats: BTreeMap<String, Stat>, counters: BTreeMap<String, u64>, samples: Vec<String>, viols: Vec<Viol>, distinct: u64, rounds: Vec<usize>, fatal: Vec<String> }

fn cpu_ticks(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

fn run_shard(exe: &str, prop: &str, tier: Tier, seed: u64, shard: usize, of: usize, budget: f64, dir: &str, only: &str, deaths: &std::sync::atomic::AtomicUsize) -> Merged {
    let mut m = Merged::default();
    let journal = format!("{dir}/j{shard}");
    let quick = std::env::var_os("YUVMON_STOP").map(|_| (crate::known::load(&std::env::var("YUVMON_ROOT").unwrap_or_else(|_| "/verif".into()), prop), crate::ops::registry()));
    let mut from = (0usize, 0usize);
    let t0 = std::time::Instant::now();
    for _attempt in 0..40 {
        let _ = std::fs::remove_file(&journal);
        let left = (budget - t0.elapsed().as_secs_f64()).max(0.0);
        let mut ch = std::process::Command::new(exe).args(["worker", prop, if tier == Tier::Quick { "quick" } else { "thorough" }, &seed.to_string(), &shard.to_string(), &of.to_string(),
            &from.0.to_string(), &from.1.to_string(), &format!("{left}"), &journal, only])
            .stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::fs::File::create(format!("{dir}/err{shard}")).map(std::process::Stdio::from).unwrap_or(std::process::Stdio::null()))
            .spawn().expect("spawn worker");
        let out = ch.stdout.take().unwrap();
        let pid = ch.id();
        // watchdog: a call that burns more than 40 s of CPU time, or waits for 200 s, without returning does not terminate for any practical purpose
        let stop = std::sync::Arc::new(std::sync::atomic::AtomicU8::new(0));
        let (st2, jp) = (stop.clone(), journal.clone());
        let wd = std::thread::spawn(move || {
            let mut last = (0u64, cpu_ticks(pid), std::time::Instant::now());
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                if st2.load(std::sync::atomic::Ordering::SeqCst) != 0 { return; }
                let cnt = std::fs::read(&jp).ok().filter(|b| b.len() >= 8).map(|b| u64::from_ne_bytes(b[..8].try_into().unwrap())).unwrap_or(0);
                let t = cpu_ticks(pid);
                if cnt != last.0 { last = (cnt, t, std::time::Instant::now()); } else if (t.saturating_sub(last.1) > 4000 || last.2.elapsed().as_secs() > 200) && cnt > 0 {
                    st2.store(2, std::sync::atomic::Ordering::SeqCst);
                    let _ = std::process::Command::new("kill").args(["-9", &pid.to_string()]).status();
                    return;
                }
            }
        });
        let mut pos = from;
        let mut unit = String::new();
        let mut finished = false;
        for l in std::io::BufReader::new(out).lines().map_while(Result::ok) {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "U" => { pos = (f[1].parse().unwrap(), f[2].parse().unwrap()); unit = f[3].into(); }
                "V" if f.len() >= 6 => { if m.viols.len() < 400 { m.viols.push(Viol { monitor: f[1].into(), op: f[2].into(), level: f[3].into(), msg: f[4].into(), line: f[5].into() }); }
                    if let Some((k, ops)) = &quick { if !m.viols.last().is_some_and(|v| k.iter().any(|k| k.matches(v, ops))) { let _ = std::fs::write(format!("{dir}/stop"), b""); } }
                },
                "S" if f.len() >= 7 => {
                    let s = Stat { n: f[2].parse().unwrap_or(0), max: f[3].parse().unwrap_or(f64::INFINITY), sum: f[4].parse().unwrap_or(0.0), sq: f[5].parse().unwrap_or(0.0), note: f[6].into(), ..Default::default() };
                    m.stats.entry(f[1].into()).or_default().merge(&s);
                }
                "C" => *m.counters.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0),
                "E" => m.samples.push(f[1].into()),
                "D" => { m.distinct += f[1].parse::<u64>().unwrap_or(0); m.rounds.push(f[2].parse().unwrap_or(0)); finished = true; }
                _ => {}
            }
        }
        let st = ch.wait().expect("wait");
        let hung = stop.swap(1, std::sync::atomic::Ordering::SeqCst) == 2;
        let _ = wd.join();
        if finished && st.success() { return m; }
        let err = std::fs::read(format!("{dir}/err{shard}")).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        let jr = std::fs::read(&journal).unwrap_or_default();
        let line = if jr.len() > 8 { let e = jr[8..].iter().position(|&b| b == 0).unwrap_or(jr.len() - 8); String::from_utf8_lossy(&jr[8..8 + e]).into_owned() } else { String::new() };
        use std::os::unix::process::ExitStatusExt;
        let sig = st.signal();
        let asan = err.contains("ERROR: AddressSanitizer") || err.contains("ERROR: LeakSanitizer") || err.contains("WARNING: ThreadSanitizer") || err.contains("WARNING: MemorySanitizer");
        let mem = matches!(sig, Some(11) | Some(6) | Some(4) | Some(7) | Some(8));
        if line.is_empty() || !(hung || asan || mem) {
            m.fatal.push(format!("worker {shard} ended with {st:?} in unit {unit}: {}", err.lines().rev().take(3).collect::<Vec<_>>().join(" | ")));
            return m;
        }
        let what = if hung { "the call did not return within 40 s of CPU time or 200 s of waiting".to_string() }
            else if asan { err.lines().find(|l| l.contains("Sanitizer")).unwrap_or("").trim().chars().take(300).collect() }
            else if let Some(p) = err.lines().find(|l| l.contains("ABORTING-PANIC")) { p.trim().chars().take(300).collect() }
            else { format!("the process was killed by signal {} inside the call", sig.unwrap_or(0)) };
        let op = line.split_whitespace().find_map(|t| t.strip_prefix("op=")).unwrap_or(&unit).to_string();
        let level = line.split_whitespace().find_map(|t| t.strip_prefix("level=")).unwrap_or("-").to_string();
        m.viols.push(Viol { monitor: if hung { "hang".into() } else { "crash".into() }, op, level, msg: what, line });
        from = (pos.0, pos.1 + 1);
        if deaths.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 12 { return m; }
    }
    m
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"'); o
}

/// Runs a property and returns the process exit code.
pub fn parent(p: &mut dyn Prop, tier: Tier, seed: u64, budget: f64, only: &str) -> i32 {
    let id = p.id().to_string();
    let t0 = std::time::Instant::now();
    let exe = std::env::current_exe().unwrap().to_str().unwrap().to_string();
    let root = std::env::var("YUVMON_ROOT").unwrap_or_else(|_| "/verif".into());
    let dir = format!("{}/yuvmon-{}-{}", std::env::temp_dir().display(), id, std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch");
    let n = std::env::var("YUVMON_JOBS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4));
    let deaths = std::sync::atomic::AtomicUsize::new(0);
    let parts: Vec<Merged> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|i| { let (exe, id, dir, deaths) = (&exe, &id, &dir, &deaths); s.spawn(move || run_shard(exe, id, tier, seed, i, n, budget, dir, only, deaths)) }).collect();
        hs.into_iter().map(|h| h.join().expect("shard")).collect()
    });
    let _ = std::fs::remove_dir_all(&dir);
    let mut m = Merged::default();
    for q in parts {
        for (k, s) in q.stats { m.stats.entry(k).or_default().merge(&s); }
        for (k, v) in q.counters { *m.counters.entry(k).or_default() += v; }
        m.samples.extend(q.samples); m.viols.extend(q.viols); m.distinct += q.distinct; m.rounds.extend(q.rounds); m.fatal.extend(q.fatal);
    }
    for (monitor, op, level, msg) in p.judge(&m.stats) { let line = format!("statistic op={op} level={level} tier={} seed={seed}", if tier == Tier::Quick { "quick" } else { "thorough" }); m.viols.push(Viol { monitor, op, level, msg, line }); }
    if std::env::var_os("YUVMON_DUMP").is_some() { for (k, s) in &m.stats { println!("STAT {k} n={} max={:.6} mean={:+.7} rms={:.7} {}", s.n, s.max, s.mean(), s.rms(), s.note); } }
    // known findings
    let known = crate::known::load(&root, &id);
    let mut cx = Cx::new(&id, tier, seed);
    let mut fresh = vec![];
    let mut suppressed: BTreeMap<String, u64> = BTreeMap::new();
    for v in m.viols.drain(..) {
        match known.iter().find(|k| k.matches(&v, &cx.ops)) { Some(k) => *suppressed.entry(k.id.clone()).or_default() += 1, None => fresh.push(v) }
    }
    for k in &known {
        let ok = suppressed.contains_key(&k.id) || k.reproduces(p, &mut cx, &exe);
        if ok { println!("KNOWN-FINDING: property={id} {} {}", k.id, k.text); } else { println!("note: known finding {} did not reproduce in this run", k.id); }
    }
    let calls = m.counters.get("calls").copied().unwrap_or(0);
    let wall = t0.elapsed().as_secs_f64();
    let mut rc = 0;
    if !fresh.is_empty() {
        let rdir = format!("{root}/evidence/replay");
        let _ = std::fs::create_dir_all(&rdir);
        for (i, v) in fresh.iter().take(8).enumerate() {
            let path = format!("{rdir}/{id}-{}{i}.txt", std::env::var("YUVMON_TAG").unwrap_or_default());
            let _ = std::fs::write(&path, format!("property={id} monitor={} op={} level={}\nmessage={}\ncase={}\n", v.monitor, v.op, v.level, v.msg, v.line));
            println!("VIOLATION property={id} replay={path}");
            println!("  {} {} [{}] {}", v.monitor, v.op, v.level, v.msg);
            println!("  {}", v.line);
        }
        println!("{} violations in total", fresh.len());
        if std::env::var_os("YUVMON_ALL").is_some() { for v in &fresh { println!("  ALL {} {} [{}] {} :: {}", v.monitor, v.op, v.level, v.msg, v.line); } }
        rc = 1;
    } else if !m.fatal.is_empty() || calls == 0 || m.distinct == 0 {
        for f in &m.fatal { println!("INCONCLUSIVE property={id} {f}"); }
        if calls == 0 { println!("INCONCLUSIVE property={id} nothing was observed"); }
        rc = 2;
    }
    m.samples.truncate(8);
    let mut cs = String::new();
    for (k, v) in &m.counters { cs.push_str(&format!(", {}: {}", esc(k), v)); }
    let levels: Vec<String> = cx.levels.iter().map(|l| esc(l.name)).collect();
    let js = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {calls}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"cpu_levels_run\": [{}], \"rounds_completed_min\": {}, \"statistics_judged\": {}, \"known_finding_hits\": {}{} }}, \"wall_s\": {:.2}, \"violations\": {} }}\n",
        esc(&id), if tier == Tier::Quick { "\"quick\"" } else { "\"thorough\"" }, m.distinct, esc(&p.rule()), m.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "), levels.join(", "),
        m.rounds.iter().min().copied().unwrap_or(0), m.stats.len(), suppressed.values().sum::<u64>(), cs, wall, fresh.len());
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(std::env::var("YUVMON_EVIDENCE").unwrap_or(format!("{root}/evidence/{id}.json")), js).expect("evidence");
    println!("{id}: {} calls, {} distinct judged configurations, {} violations, {:.1} s", calls, m.distinct, fresh.len(), wall);
    rc
}

pub fn replay(p: &mut dyn Prop, line: &str) -> i32 {
    let mut cx = Cx::new(p.id(), Tier::Quick, 1);
    cx.verbose = true;
    if p.replay_line(&mut cx, line) { cx.flush(); return if cx.nviol > 0 { 1 } else { 0 }; }
    let Some((c, level)) = Case::parse(line, &cx.ops) else { println!("cannot parse case"); return 2 };
    let op = cx.ops[c.op];
    p.check_case(&mut cx, &op, &c, if level.is_empty() { None } else { Some(&level) });
    cx.flush();
    if cx.nviol > 0 { 1 } else { 0 }
}
