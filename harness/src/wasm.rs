//! The WebAssembly side of C23: a request line in, an answer line out.  No guard pages here, only canaries; linear memory
//! traps on accesses outside of it.
#![allow(dangerous_implicit_autorefs, unknown_lints)]
use crate::case::*; use crate::exec::*; use crate::ops;
use std::alloc::Layout;

pub unsafe fn mmap(_: *mut u8, l: usize, _: i32, _: i32, _: i32, _: i64) -> *mut u8 { std::alloc::alloc_zeroed(Layout::from_size_align(l, 4096).unwrap()) }
pub unsafe fn munmap(a: *mut u8, l: usize) -> i32 { std::alloc::dealloc(a, Layout::from_size_align(l, 4096).unwrap()); 0 }
pub unsafe fn mprotect(_: *mut u8, _: usize, _: i32) -> i32 { 0 }

static mut IN: Vec<u8> = Vec::new();
static mut OUT: String = String::new();
static mut BENCH: Option<Bench> = None;
static mut OPS: Vec<crate::fmt::Op> = Vec::new();

#[no_mangle] pub extern "C" fn wm_in(n: usize) -> *mut u8 { unsafe { let v = &mut *(&raw mut IN); v.clear(); v.resize(n, 0); v.as_mut_ptr() } }
#[no_mangle] pub extern "C" fn wm_out() -> *const u8 { unsafe { (*(&raw const OUT)).as_ptr() } }
#[no_mangle] pub extern "C" fn wm_out_len() -> usize { unsafe { (*(&raw const OUT)).len() } }
/// After a trap: the message of the panic that caused it, or "" when the trap was not a panic.
#[no_mangle] pub extern "C" fn wm_panic() { unsafe { *(&raw mut OUT) = last_panic(); } }
#[no_mangle] pub extern "C" fn wm_serve() {
    unsafe {
        let ops = &mut *(&raw mut OPS);
        if ops.is_empty() { install_panic_hook(); *ops = ops::registry(); }
        let l = String::from_utf8_lossy(&*(&raw const IN)).to_string();
        let (verb, l) = match l.split_once(' ') { Some((v, r)) if !v.contains('=') => (v.to_string(), r.to_string()), _ => (String::new(), l) };
        let b = (*(&raw mut BENCH)).get_or_insert_with(Bench::new);
        let Some((c, _)) = Case::parse(&l, ops) else { *(&raw mut OUT) = "unparsable".to_string(); return };
        let op = ops[c.op];
        let lv = &crate::cpu::levels()[0];
        *(&raw mut OUT) = match verb.as_str() {
            // the samples themselves
            "img" => { execute(b, &op, &c, lv); b.read_dst(&op, &c).c.iter().flat_map(|p| p.d.iter()).map(|v| format!("{v}")).collect::<Vec<_>>().join(" ") }
            // a call with impossible arguments: outcome, and what was modified all the same
            "bad" => {
                let img = crate::oracle::gen_src(&op, &c);
                b.layout(&op, &c); b.put_src(&op, &c, &img, 1); b.fill_dst(&op, &c, 0xA5);
                let nd = b.ndst(&op, &c);
                let keep: Vec<(usize, usize, usize)> = b.dst[..nd].iter().map(|b| (b.off, b.bytes, b.stride)).collect();
                let (m, _) = corrupt_args(b, &op, &c);
                let o = call_corrupted(b, &op, &c, &m, lv);
                let mut t = String::new();
                for i in 0..nd { let d = &mut b.dst[i]; (d.off, d.bytes, d.stride) = keep[i]; if d.zone_bytes().iter().any(|&x| x != 0xA5) { t = format!(" plane {i} was modified"); } }
                format!("{o:?}{t}")
            }
            _ => {
                let (o, h) = execute(b, &op, &c, lv);
                let n = b.ndst(&op, &c);
                let mut bad = String::new();
                for (i, d) in b.dst[..n].iter().enumerate() { if let Some(s) = d.stray(0xA5) { bad = format!(" stray write, plane {i}: {s}"); } }
                let v = b.visible_dst(&op, &c);
                b.put_src(&op, &c, &crate::oracle::gen_src(&op, &c), 2); b.fill_dst(&op, &c, 0x3C);
                b.call(&op, &c, lv);
                if o == Outcome::Ok && b.visible_dst(&op, &c) != v { bad = " the image depends on padding or on earlier contents of the destination".into(); }
                format!("{h:016x} {o:?}{bad}")
            }
        };
    }
}

// This toolchain's compiler-builtins lack the half-precision conversions for wasm32; round to nearest even, as the ABI says.
fn trunc(bits: u64, ebits: u32, mbits: u32) -> u16 {
    let sign = ((bits >> (ebits + mbits)) as u16 & 1) << 15;
    let e = ((bits >> mbits) & ((1 << ebits) - 1)) as i64;
    let m = bits & ((1u64 << mbits) - 1);
    let bias = (1i64 << (ebits - 1)) - 1;
    if e == (1 << ebits) - 1 { return sign | 0x7C00 | if m != 0 { 0x200 } else { 0 }; }
    if e == 0 { return sign; }
    let e = e - bias;
    if e > 15 { return sign | 0x7C00; }
    let full = m | (1u64 << mbits);
    let drop = (mbits as i64 - 10) + if e < -14 { -14 - e } else { 0 };
    if drop > mbits as i64 + 1 { return sign; }
    let mut q = full >> drop;
    let rem = full & ((1u64 << drop) - 1);
    let half = 1u64 << (drop - 1);
    if rem > half || (rem == half && q & 1 == 1) { q += 1; }
    let base = if e < -14 { 0 } else { ((e + 14) as u64) << 10 };
    sign | (base + q).min(0x7C00) as u16
}
#[no_mangle] extern "C" fn __truncsfhf2(v: f32) -> u16 { trunc(v.to_bits() as u64, 8, 23) }
#[no_mangle] extern "C" fn __truncdfhf2(v: f64) -> u16 { trunc(v.to_bits(), 11, 52) }
#[no_mangle] extern "C" fn __extendhfsf2(v: u16) -> f32 {
    let (s, e, m) = ((v as u32 >> 15) << 31, (v >> 10) as u32 & 31, v as u32 & 0x3FF);
    f32::from_bits(s | match e {
        0 => { let f = m as f32 / 16777216.0; f.to_bits() }
        31 => 0x7F80_0000 | m << 13,
        _ => (e + 112) << 23 | m << 13,
    })
}
