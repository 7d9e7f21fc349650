//! The checks that are random histories judged by the reference graph, each with its own emphasis.
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::report::Report;

fn base(prop: &'static str, kind: Kind) -> Cfg {
    let w = Weights::default();
    Cfg { prop, kind, w, len: if kind == Kind::Rocks { 250 } else { 160 }, audit_every: 8, pools: (9, 5, 4, 8), full_index: true, warm: 20, resurrect: false }
}
fn each(cx: &Ctx, rep: &Report, cfgs: Vec<(u64, Cfg)>) {
    let total: u64 = cfgs.iter().map(|c| c.0).sum();
    let prop = cfgs[0].1.prop;
    let mut kinds: Vec<Kind> = Vec::new();
    let relay = prop == "C02" || prop == "C03";
    for (share, cfg) in cfgs {
        if !kinds.contains(&cfg.kind) {
            kinds.push(cfg.kind);
        }
        campaign(&cfg, cx.seed, usize::MAX, cx.dur((if relay { 62 } else { 75 }) * share / total), cx.threads, rep);
    }
    #[cfg(feature = "full")]
    super::scale::campaign(cx, prop, &kinds, 25, rep);
    #[cfg(feature = "full")]
    if relay {
        super::relay::campaign(cx, prop, &kinds, prop == "C03", 13, rep);
    }
    #[cfg(not(feature = "full"))]
    let _ = prop;
}
pub fn c01(cx: &Ctx, rep: &Report) {
    let small = Cfg { pools: (3, 2, 2, 4), len: 90, ..base("C01", Kind::Mem) };
    each(cx, rep, vec![(3, base("C01", Kind::Mem)), (1, small)]);
}
pub fn c02(cx: &Ctx, rep: &Report) {
    let small = Cfg { pools: (3, 2, 2, 4), len: 150, w: Weights { reopen: 4, sync: 3, index: 4, ..Weights::default() }, ..base("C02", Kind::Rocks) };
    each(cx, rep, vec![(2, base("C02", Kind::Rocks)), (1, small)]);
}
pub fn c03(cx: &Ctx, rep: &Report) {
    let w = Weights { create_v: 8, create_vt: 1, create_e: 10, bulk: 8, set: 26, del_elems: 6, del_props: 10, index: 4, get: 12, sync: 1, reopen: 2, wild: 1, depth: 2 };
    let mk = |kind, len| Cfg { w: w.clone(), pools: (4, 2, 3, 7), len, audit_every: 2, warm: 12, ..base("C03", kind) };
    each(cx, rep, vec![(3, mk(Kind::Rocks, 200)), (2, mk(Kind::Mem, 120)), (1, mk(Kind::MemImg, 120))]);
}
pub fn c04(cx: &Ctx, rep: &Report) {
    let w = Weights { create_v: 12, create_vt: 1, create_e: 26, bulk: 3, set: 18, del_elems: 14, del_props: 6, index: 2, get: 3, sync: 1, reopen: 1, wild: 1, depth: 2 };
    let mk = |kind, len| Cfg { w: w.clone(), pools: (6, 3, 3, 5), len, audit_every: 1, full_index: false, warm: 40, resurrect: true, ..base("C04", kind) };
    each(cx, rep, vec![(3, mk(Kind::Rocks, 160)), (2, mk(Kind::Mem, 120)), (1, mk(Kind::MemImg, 100))]);
}
pub fn c05(cx: &Ctx, rep: &Report) {
    let w = Weights { create_v: 4, create_vt: 0, create_e: 6, bulk: 2, set: 8, del_elems: 1, del_props: 1, index: 2, get: 70, sync: 0, reopen: 0, wild: 12, depth: 6 };
    let mk = |kind, pools, len| Cfg { w: w.clone(), pools, len, audit_every: 60, warm: 60, full_index: false, ..base("C05", kind) };
    each(cx, rep, vec![(2, mk(Kind::Mem, (7, 3, 3, 4), 300)), (1, mk(Kind::Mem, (4, 2, 2, 3), 250)), (2, mk(Kind::Rocks, (7, 3, 3, 4), 400))]);
}
