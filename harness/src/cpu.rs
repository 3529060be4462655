//! Lets one process run the library at every x86 dispatch level, by overriding the standard
//! library's CPU-feature cache (`std_detect::detect::cache::CACHE`), which is located through this
//! executable's own symbol table.  Which bit means which feature is learnt by experiment.
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::OnceLock;

pub const FEATS: [&str; 7] = ["sse4.1", "avx2", "f16c", "avxvnni", "avx512bw", "avx512vbmi", "avx512vnni"];

#[cfg(target_arch = "x86_64")]
fn detect() -> [bool; 7] {
    use std::arch::is_x86_feature_detected as d;
    [d!("sse4.1"), d!("avx2"), d!("f16c"), d!("avxvnni"), d!("avx512bw"), d!("avx512vbmi"), d!("avx512vnni")]
}
#[cfg(not(target_arch = "x86_64"))]
fn detect() -> [bool; 7] { [false; 7] }

#[derive(Clone, Debug)]
pub struct Level { pub name: &'static str, pub words: Option<[usize; 3]> }

struct Cache { p: *const [AtomicUsize; 3], bits: [usize; 7], native: [usize; 3], have: [bool; 7] }
unsafe impl Sync for Cache {}
unsafe impl Send for Cache {}
static CACHE: OnceLock<Option<Cache>> = OnceLock::new();

fn find_symbol() -> Option<usize> {
    if cfg!(miri) { return None; }
    let exe = std::fs::read("/proc/self/exe").ok()?;
    let u16_ = |o: usize| u16::from_le_bytes(exe[o..o + 2].try_into().unwrap()) as usize;
    let u32_ = |o: usize| u32::from_le_bytes(exe[o..o + 4].try_into().unwrap()) as usize;
    let u64_ = |o: usize| u64::from_le_bytes(exe[o..o + 8].try_into().unwrap()) as usize;
    if exe.len() < 64 || &exe[0..4] != b"\x7fELF" { return None; }
    let (shoff, shentsize, shnum) = (u64_(0x28), u16_(0x3A), u16_(0x3C));
    let et_dyn = u16_(0x10) == 3;
    let mut found = vec![];
    for i in 0..shnum {
        let s = shoff + i * shentsize;
        if u32_(s + 4) != 2 { continue; } // SHT_SYMTAB
        let (off, size, link) = (u64_(s + 0x18), u64_(s + 0x20), u32_(s + 0x28));
        let stroff = u64_(shoff + link * shentsize + 0x18);
        for k in 0..size / 24 {
            let e = off + k * 24;
            let n = stroff + u32_(e);
            let end = exe[n..].iter().position(|&c| c == 0)? + n;
            let name = &exe[n..end];
            let has = |t: &[u8]| name.windows(t.len()).any(|w| w == t);
            if has(b"std_detect") && has(b"cache") && has(b"CACHE") && (exe[e + 4] & 0xf) == 1 { found.push((u64_(e + 8), u64_(e + 16))); }
        }
    }
    found.sort(); found.dedup();
    if found.len() != 1 || found[0].1 != 24 { return None; }
    let base = if et_dyn {
        // load bias = runtime address of a known symbol is not needed: the first mapping of the executable is its base
        let maps = std::fs::read_to_string("/proc/self/maps").ok()?;
        let exe_path = std::fs::read_link("/proc/self/exe").ok()?;
        let line = maps.lines().find(|l| l.ends_with(exe_path.to_str().unwrap_or("?")))?;
        usize::from_str_radix(line.split('-').next()?, 16).ok()?
    } else { 0 };
    Some(base + found[0].0)
}

fn cache() -> &'static Option<Cache> {
    CACHE.get_or_init(|| {
        if !cfg!(target_arch = "x86_64") || cfg!(miri) { return None; }
        let have = detect();
        let p = find_symbol()? as *const [AtomicUsize; 3];
        let c = unsafe { &*p };
        let native = [c[0].load(SeqCst), c[1].load(SeqCst), c[2].load(SeqCst)];
        // the top bit of every word marks it initialised
        let top = 1usize << (usize::BITS - 1);
        if native.iter().any(|w| w & top == 0) { return None; }
        let mut bits = [usize::MAX; 7];
        for b in 0..3 * 63 {
            for (i, w) in c.iter().enumerate() { w.store(top | if b / 63 == i { 1 << (b % 63) } else { 0 }, SeqCst); }
            let d = detect();
            for f in 0..7 { if d[f] { if bits[f] != usize::MAX { return None; } bits[f] = b; } }
        }
        for (i, w) in c.iter().enumerate() { w.store(native[i], SeqCst); }
        if bits.iter().any(|&b| b == usize::MAX) { return None; }
        Some(Cache { p, bits, native, have })
    })
}

/// All dispatch levels that this machine can run, weakest first.
pub fn levels() -> Vec<Level> {
    let Some(c) = cache() else { return vec![Level { name: "native", words: None }]; };
    let sets: [(&'static str, &[usize]); 8] = [
        ("scalar", &[]), ("sse41", &[0]), ("avx2", &[0, 1]), ("avx2+f16c", &[0, 1, 2]), ("avx2+vnni", &[0, 1, 2, 3]),
        ("avx512", &[0, 1, 2, 4]), ("avx512+vbmi", &[0, 1, 2, 4, 5]), ("avx512+vbmi+vnni", &[0, 1, 2, 3, 4, 5, 6]),
    ];
    let mut v = vec![];
    for (name, s) in sets {
        if s.iter().any(|&f| !c.have[f]) { continue; }
        let mut w = c.native;
        for f in 0..7 { w[c.bits[f] / 63] &= !(1 << (c.bits[f] % 63)); }
        for &f in s { w[c.bits[f] / 63] |= 1 << (c.bits[f] % 63); }
        v.push(Level { name, words: Some(w) });
    }
    v
}
pub fn set(l: &Level) {
    if let (Some(c), Some(w)) = (cache(), l.words) {
        let p = unsafe { &*c.p };
        for i in 0..3 { p[i].store(w[i], SeqCst); }
    }
}
