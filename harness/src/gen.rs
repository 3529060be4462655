//! Case generation shared by the monitors.
use crate::case::*; use crate::fmt::*; use crate::ops::Call;

#[derive(Clone, Copy, Debug)]
pub struct Cfg { pub mode: u8, pub range: u8, pub matrix: u8, pub premul: bool, pub gamma: u8, pub geo: u8, pub network: bool, pub depth: u32 }

pub fn uses_mode(op: &Op) -> bool { use Call::*; matches!(op.call, C0(_) | C2(_) | C3(_) | C5(_)) }
pub fn uses_matrix(op: &Op) -> bool { matches!(op.model, Model::Yuv | Model::Sharp) }
pub fn uses_range(op: &Op) -> bool { matches!(op.model, Model::Yuv | Model::Sharp | Model::YCgCo | Model::Gbr) }
pub fn uses_premul(op: &Op) -> bool { matches!(op.call, Call::C7(_) | Call::C51(_)) }
pub fn uses_depth(op: &Op) -> bool { use Call::*; matches!(op.call, C23(_) | C35(_) | C37(_)) }
pub fn uses_network(op: &Op) -> bool { use Call::*; matches!(op.call, C34(_) | C43(_) | C44(_) | C46(_) | C47(_)) }

/// Every configuration of an operation (matrix 6 = custom coefficients).
pub fn configs(op: &Op) -> Vec<Cfg> {
    let modes: &[u8] = if uses_mode(op) { &[1, 0, 2] } else { &[1] };
    let ranges: &[u8] = if uses_range(op) { &[0, 1] } else { &[0] };
    let mats: &[u8] = if uses_matrix(op) { &[0, 1, 2, 6, 3, 4, 5] } else { &[0] };
    let prem: &[bool] = if uses_premul(op) { &[false, true] } else { &[false] };
    let gammas: &[u8] = if op.model == Model::Sharp { &[0, 1, 2, 3] } else { &[0] };
    let geos: &[u8] = match op.model { Model::Rotate => &[0, 1, 2], Model::Mirror => &[0, 1], _ => &[0] };
    let nets: &[bool] = if uses_network(op) { &[false, true] } else { &[false] };
    let depths: &[u32] = if uses_depth(op) { &[10, 12, 14, 16] } else { &[10] };
    let mut v = vec![];
    for &matrix in mats { for &mode in modes { for &range in ranges { for &premul in prem { for &gamma in gammas { for &geo in geos { for &network in nets { for &depth in depths {
        v.push(Cfg { mode, range, matrix, premul, gamma, geo, network, depth });
    } } } } } } } }
    v
}
pub fn apply(c: &mut Case, g: &Cfg, rng: &mut Rng) {
    c.mode = g.mode; c.range = g.range; c.matrix = g.matrix; c.premul = g.premul; c.gamma = g.gamma; c.geo = g.geo; c.network = g.network; c.depth = g.depth;
    if c.matrix == 6 { c.kr = 0.19 + 0.13 * rng.unit() as f32; c.kb = 0.055 + 0.07 * rng.unit() as f32; }
}
pub fn pick_width(rng: &mut Rng, big: bool) -> usize {
    match rng.below(20) {
        0..=6 => rng.range(1, 72),
        7..=10 => { let m = rng.pick(&[8usize, 16, 32, 64, 128, 192, 256]); (m + rng.below(5)).saturating_sub(2).max(1) }
        11..=16 => rng.range(73, 330),
        17 | 18 => rng.range(331, 1100),
        _ => if big { rng.range(1101, 5200) } else { rng.range(200, 600) },
    }
}
pub fn pick_height(rng: &mut Rng, w: usize) -> usize {
    if w > 1100 { return rng.range(1, 3); }
    match rng.below(12) { 0..=7 => rng.range(1, 5), 8..=10 => rng.range(2, 9), _ => if w < 200 { rng.range(10, 70) } else { rng.range(1, 20) } }
}
pub fn pick_pat(rng: &mut Rng) -> Pat { rng.pick(&[Pat::Random, Pat::Random, Pat::Random, Pat::Legal, Pat::Legal, Pat::Extremes, Pat::Gray, Pat::Smooth, Pat::Flat, Pat::Sweep]) }

/// A random case of the operation; `k` walks through the configurations.
pub fn any_case(op: &Op, k: usize, rng: &mut Rng, big: bool) -> Case {
    let cf = configs(op);
    let mut w = pick_width(rng, big);
    let mut h = pick_height(rng, w);
    if big {
        // sizes past 2^16 in either direction, and tall pictures
        match rng.below(2500) {
            0 => { w = 65536 + rng.below(140) - 70; h = rng.range(1, 2); }
            1 => { w = rng.range(1, 3); h = 65536 + rng.below(40) - 20; }
            2..=11 => { w = rng.range(1, 40); h = rng.range(100, 700); }
            _ => {}
        }
    }
    let mut c = Case::new(op.id, w, h);
    apply(&mut c, &cf[k % cf.len()], rng);
    c.pat = pick_pat(rng);
    c.seed = rng.next() >> 20;
    c
}
/// May this plane be given a stride larger than its row?  (4:2:2 packed frames and interleaved chroma must be contiguous.)
pub fn may_pad(f: &Fmt, plane: usize) -> bool { !(f.kind == Kind::Packed422 || (f.kind == Kind::Bip && plane == 1)) }
pub fn pick_place(rng: &mut Rng) -> Place { match rng.below(3) { 0 => Place::End, 1 => Place::Start, _ => Place::Mid(rng.below(64) as u8) } }
pub fn pick_layout(op: &Op, c: &mut Case, rng: &mut Rng) {
    for i in 0..4 {
        for (f, l) in [(&op.src, &mut c.src[i]), (&op.dst, &mut c.dst[i])] {
            *l = TIGHT;
            if may_pad(f, i) && rng.chance(3, 4) { l.pad = match rng.below(3) { 0 => rng.range(1, 4), 1 => rng.range(1, 70), _ => rng.pick(&[16usize, 32, 64, 128, 300]) }; }
            l.place = pick_place(rng);
        }
    }
}
