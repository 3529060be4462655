//! A test case: everything that is needed to replay one call.
use crate::fmt::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tail { Exact, Trim, Extra }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place { End, Start, Mid(u8) }
/// Memory layout of one plane.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct PL { pub pad: usize, pub tail: Tail, pub extra: usize, pub place: Place }
pub const TIGHT: PL = PL { pad: 0, tail: Tail::Exact, extra: 0, place: Place::End };

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pat { Random, Extremes, Gray, Flat, Smooth, Hostile, Legal, Sweep }
pub const PATS: [Pat; 8] = [Pat::Random, Pat::Extremes, Pat::Gray, Pat::Flat, Pat::Smooth, Pat::Hostile, Pat::Legal, Pat::Sweep];

#[derive(Clone, Debug)]
pub struct Case {
    pub op: usize, pub w: usize, pub h: usize,
    /// 0 limited, 1 full
    pub range: u8,
    /// 0..=5 standard, 6 = custom(kr, kb)
    pub matrix: u8, pub kr: f32, pub kb: f32,
    /// 0 fast 1 balanced 2 professional
    pub mode: u8,
    pub network: bool, pub premul: bool, pub gamma: u8, pub geo: u8, pub depth: u32,
    pub pat: Pat, pub seed: u64, pub fill: u8,
    /// deliberate argument corruption (0 = none): see `contract`
    pub mutn: u32,
    pub src: [PL; 4], pub dst: [PL; 4],
}
impl Case {
    pub fn new(op: usize, w: usize, h: usize) -> Case {
        Case { op, w, h, range: 0, matrix: 0, kr: 0.299, kb: 0.114, mode: 1, network: false, premul: false, gamma: 0, geo: 0, depth: 10,
            pat: Pat::Random, seed: 1, fill: 0xA5, mutn: 0, src: [TIGHT; 4], dst: [TIGHT; 4] }
    }
    pub fn kr_kb(&self) -> (f64, f64) {
        let (a, b) = match self.matrix {
            0 => (0.299f32, 0.114f32), 1 => (0.2126, 0.0722), 2 => (0.2627, 0.0593), 3 => (0.087, 0.212), 4 => (0.2220, 0.0713), 5 => (0.30, 0.11),
            _ => (self.kr, self.kb),
        };
        (a as f64, b as f64)
    }
    pub fn dst_dims(&self, op: &Op) -> (usize, usize) {
        if op.model == Model::Rotate && self.geo != 1 { (self.h, self.w) } else { (self.w, self.h) }
    }
    pub fn to_line(&self, op: &Op, level: &str) -> String {
        let pl = |p: &PL| format!("{}:{}:{}:{}", p.pad, match p.tail { Tail::Exact => 'e', Tail::Trim => 't', Tail::Extra => 'x' }, p.extra,
            match p.place { Place::End => "e".into(), Place::Start => "s".into(), Place::Mid(k) => format!("m{k}") });
        let l = |a: &[PL; 4]| a.iter().map(pl).collect::<Vec<_>>().join(",");
        format!("op={} level={} w={} h={} range={} matrix={} kr={} kb={} mode={} network={} premul={} gamma={} geo={} depth={} pat={} seed={} fill={} mut={} src={} dst={}",
            op.name, level, self.w, self.h, self.range, self.matrix, self.kr, self.kb, self.mode, self.network as u8, self.premul as u8, self.gamma, self.geo, self.depth,
            PATS.iter().position(|p| *p == self.pat).unwrap(), self.seed, self.fill, self.mutn, l(&self.src), l(&self.dst))
    }
    pub fn parse(s: &str, ops: &[Op]) -> Option<(Case, String)> {
        let mut c = Case::new(0, 1, 1);
        let mut level = String::new();
        let pl = |t: &str| -> Option<[PL; 4]> {
            let mut a = [TIGHT; 4];
            for (i, x) in t.split(',').enumerate() {
                let f: Vec<&str> = x.split(':').collect();
                a[i] = PL { pad: f[0].parse().ok()?, tail: match f[1] { "e" => Tail::Exact, "t" => Tail::Trim, _ => Tail::Extra }, extra: f[2].parse().ok()?,
                    place: match f[3] { "e" => Place::End, "s" => Place::Start, m => Place::Mid(m[1..].parse().ok()?) } };
            }
            Some(a)
        };
        for kv in s.split_whitespace() {
            let Some((k, v)) = kv.split_once('=') else { continue };
            match k {
                "op" => c.op = ops.iter().find(|o| o.name == v)?.id,
                "level" => level = v.into(),
                "w" => c.w = v.parse().ok()?, "h" => c.h = v.parse().ok()?,
                "range" => c.range = v.parse().ok()?, "matrix" => c.matrix = v.parse().ok()?,
                "kr" => c.kr = v.parse().ok()?, "kb" => c.kb = v.parse().ok()?, "mode" => c.mode = v.parse().ok()?,
                "network" => c.network = v == "1", "premul" => c.premul = v == "1", "gamma" => c.gamma = v.parse().ok()?,
                "geo" => c.geo = v.parse().ok()?, "depth" => c.depth = v.parse().ok()?,
                "pat" => c.pat = PATS[v.parse::<usize>().ok()?], "seed" => c.seed = v.parse().ok()?, "fill" => c.fill = v.parse().ok()?,
                "mut" => c.mutn = v.parse().ok()?,
                "src" => c.src = pl(v)?, "dst" => c.dst = pl(v)?,
                _ => {}
            }
        }
        Some((c, level))
    }
}

/// SplitMix64: every random choice derives from VERIF_SEED through this.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15); r.next(); r }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline] pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    #[inline] pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    #[inline] pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    #[inline] pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T { s[self.below(s.len())] }
}
