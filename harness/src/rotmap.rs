use crate::case::*; use crate::engine::*; use crate::exec::*; use crate::oracle::*;
pub fn run() {
    let mut cx = Cx::new("x", Tier::Quick, 1);
    for op in cx.ops.clone().iter().filter(|o| o.name.starts_with("rotate_")) {
        for geo in 0..3u8 {
            let levels = cx.levels.clone();
            for l in [&levels[0], levels.last().unwrap()] {
            let mut bad = vec![];
            let mut err = 0;
            for h in 1..70usize { for w in 1..70usize {
                let mut c = Case::new(op.id, w, h); c.geo = geo;
                cx.b.layout(op, &c); let img = gen_src(op, &c); cx.b.put_src(op, &c, &img, 1);
                let want = expect(op, &c, &img);
                cx.b.fill_dst(op, &c, 0xA5);
                match cx.b.call(op, &c, l) { Outcome::Ok => { let g = cx.b.read_dst(op, &c); if compare_want(&g, &want).iter().any(|s| s.max > 0.0) { bad.push((w, h)); } } _ => err += 1 }
            } }
            let ws: std::collections::BTreeSet<_> = bad.iter().map(|b| b.0).collect(); let hs: std::collections::BTreeSet<_> = bad.iter().map(|b| b.1).collect();
            println!("{} geo{geo} {} bad {} err {err} prod {} ws {:?} hs {:?}", op.name, l.name, bad.len(), ws.len() * hs.len(), ws.iter().take(40).collect::<Vec<_>>(), hs.iter().take(40).collect::<Vec<_>>());
            }
        }
    }
}
