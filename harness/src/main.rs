#![feature(avx512_target_feature)]
#![feature(f16)]
#![allow(dead_code)]
#![recursion_limit = "256"]
mod case; mod cpu; mod exec; mod fmt; mod gen; mod ops; mod oracle;
#[cfg(not(target_arch = "wasm32"))] mod calib;
#[cfg(not(target_arch = "wasm32"))] mod engine;
#[cfg(not(target_arch = "wasm32"))] mod known;
#[cfg(not(target_arch = "wasm32"))] mod mem;
#[cfg(not(target_arch = "wasm32"))] mod props4;
#[cfg(not(target_arch = "wasm32"))] mod props;
#[cfg(not(target_arch = "wasm32"))] mod props2;
#[cfg(not(target_arch = "wasm32"))] mod props3;
#[cfg(not(target_arch = "wasm32"))] mod rotmap;
#[cfg(not(target_arch = "wasm32"))] mod tol;
#[cfg(not(target_arch = "wasm32"))] use engine::*;
#[cfg(not(target_arch = "wasm32"))]
#[global_allocator]
static HEAP: mem::Counting = mem::Counting;

/// The WebAssembly build only answers requests (see tools/wasm_serve.js).
#[cfg(any(target_arch = "wasm32", miri))] mod wasm;
#[cfg(target_arch = "wasm32")]
fn main() {}

#[cfg(not(target_arch = "wasm32"))]
fn main() {
    exec::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let rc = match arg(1) {
        "calib" => { calib::run(arg(2)); 0 }
        "worker" => {
            let mut p = props::make(arg(2)).expect("property");
            let mut cx = Cx::new(arg(2), tier(arg(3)), arg(4).parse().unwrap());
            worker(&mut *p, &mut cx, arg(5).parse().unwrap(), arg(6).parse().unwrap(), (arg(7).parse().unwrap(), arg(8).parse().unwrap()), arg(9).parse().unwrap(), arg(10), arg(11));
            0
        }
        "run" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
            let t = tier(&std::env::var("VERIF_TIER").unwrap_or_default());
            let t = if arg(3).is_empty() { t } else { tier(arg(3)) };
            let budget = std::env::var("YUVMON_BUDGET").ok().and_then(|v| v.parse().ok()).unwrap_or(if t == Tier::Quick { 25.0 } else { 600.0 });
            match props::make(arg(2)) { Some(mut p) => parent(&mut *p, t, seed, budget, &std::env::var("YUVMON_ONLY").unwrap_or_default()), None => { println!("unknown property"); 2 } }
        }
        "case" => match props::make(arg(2)) { Some(mut p) => replay(&mut *p, arg(3)), None => 2 },
        "replay" => {
            let s = std::fs::read_to_string(arg(2)).expect("replay file");
            let id = s.split_whitespace().find_map(|t| t.strip_prefix("property=")).unwrap_or("").to_string();
            let line = s.lines().find_map(|l| l.strip_prefix("case=")).unwrap_or("").to_string();
            match props::make(&id) { Some(mut p) => replay(&mut *p, &line), None => 2 }
        }
        "miri" => { props3::miri(arg(2).parse().unwrap_or(1), arg(3)); 0 }
        "serve" => { props3::serve(1); 0 }
        "rotmap" => { rotmap::run(); 0 }
        "levels" => { for l in cpu::levels() { println!("{}", l.name); } 0 }
        _ => { println!("usage: yuvmon run Cxx | replay FILE | case Cxx LINE | levels"); 2 }
    };
    std::process::exit(rc);
}
