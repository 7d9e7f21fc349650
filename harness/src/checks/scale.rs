//! Histories over large graphs (hubs with hundreds of edges of several types, thousands of vertices, vertices with
//! hundreds of properties, many indexes), judged by the reference graph like the small ones: what only goes wrong
//! beyond some size, at a chunk boundary or for the last of many.
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::time::Instant;

pub const EDGE_SIZES: [usize; 15] = [0, 1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257];
/// A size close to a power of two or a round number, up to `max`.
pub fn boundary(r: &mut Rng, max: usize) -> usize {
    let base = if r.chance(1, 3) { [10, 50, 100, 200, 500, 1000, 2000, 5000][r.below(8)] } else { 1usize << r.range(3, 12) };
    (base + r.below(3)).saturating_sub(1).min(max)
}
struct World {
    ids: Vec<Id>,
    hubs: Vec<Id>,
    types: Vec<String>,
    names: Vec<String>,
    vals: Vec<Value>,
}
fn ids(r: &mut Rng, n: usize) -> Vec<Id> {
    let mut s = BTreeSet::new();
    let base: u128 = match r.below(4) {
        0 => 0,
        1 => (r.u128() >> 20) << 20 | 0xff_ff00,
        2 => u128::MAX - n as u128 - r.below(3) as u128,
        _ => r.u128() >> 1,
    };
    let style = r.below(4);
    let mut k = 0u128;
    while s.len() < n {
        s.insert(match style {
            0 => base.wrapping_add(k),
            1 => r.u128(),
            // shared low bytes: ids differ only in the first bytes
            2 => (k << 112) | base >> 16,
            _ => {
                if k % 2 == 0 {
                    base.wrapping_add(k)
                } else {
                    r.u128()
                }
            }
        });
        k += 1;
    }
    let mut v: Vec<Id> = s.into_iter().collect();
    if r.chance(1, 2) {
        r.shuffle(&mut v);
    }
    v
}
fn world(r: &mut Rng, big: usize) -> (World, Vec<Item>) {
    let p = Pools::new(r, 4, 4, 4, 8);
    let n = boundary(r, big).max(20);
    let ids = ids(r, n);
    let mut hubs = Vec::new();
    for _ in 0..r.range(1, 2) {
        let mut sorted = ids.clone();
        sorted.sort();
        hubs.push(match r.below(3) {
            0 => sorted[0],
            1 => *sorted.last().unwrap(),
            _ => *r.pick(&ids),
        });
    }
    let w = World { ids, hubs, types: p.types.clone(), names: p.names.clone(), vals: p.values.clone() };
    let mut items = Vec::new();
    let rare = r.chance(1, 2);
    for (k, id) in w.ids.iter().enumerate() {
        // often one type is only found among the last
        let t = if rare { if k + 3 >= n { &w.types[1] } else { &w.types[0] } } else { r.pick(&w.types) };
        items.push(Item::V(*id, t.clone()));
    }
    let mut es: BTreeSet<EK> = BTreeSet::new();
    let mut edges = Vec::new();
    for h in &w.hubs {
        for d in [Dir::Out, Dir::In] {
            if r.chance(1, 3) {
                continue;
            }
            for t in &w.types {
                let c = if r.chance(1, 3) { boundary(r, n) } else { EDGE_SIZES[r.below(EDGE_SIZES.len())].min(n) };
                let at = r.below(n);
                for k in 0..c.min(1100) {
                    let other = w.ids[(at + k) % n];
                    let e = if d == Dir::Out { EK { o: *h, t: t.clone(), i: other } } else { EK { o: other, t: t.clone(), i: *h } };
                    if es.insert(e.clone()) {
                        edges.push(e);
                    }
                }
            }
        }
    }
    for _ in 0..r.below(n) {
        let e = EK { o: *r.pick(&w.ids), t: r.pick(&w.types).clone(), i: *r.pick(&w.ids) };
        if es.insert(e.clone()) {
            edges.push(e);
        }
    }
    if r.chance(1, 2) {
        r.shuffle(&mut edges);
    }
    for e in &edges {
        items.push(Item::E(e.clone()));
    }
    // a property everything has, one that few have, one whose values are all different
    let style = r.below(4);
    for id in &w.ids {
        if style != 3 {
            items.push(Item::VP(*id, w.names[0].clone(), if style == 0 { w.vals[0].clone() } else { r.pick(&w.vals).clone() }));
        }
        if r.chance(1, 7) {
            items.push(Item::VP(*id, w.names[1].clone(), json!(r.next())));
        }
    }
    for e in &edges {
        if style != 2 && r.chance(2, 3) {
            items.push(Item::EP(e.clone(), w.names[0].clone(), if style == 0 { w.vals[0].clone() } else { r.pick(&w.vals).clone() }));
        }
        if r.chance(1, 9) {
            items.push(Item::EP(e.clone(), w.names[2].clone(), json!(r.next())));
        }
    }
    // one owner with very many properties
    if r.chance(1, 2) {
        let c = boundary(r, 700);
        let v = *r.pick(&w.ids);
        let e = edges.get(r.below(edges.len().max(1))).cloned();
        for k in 0..c {
            match &e {
                Some(e) if k % 2 == 1 => items.push(Item::EP(e.clone(), format!("p{k}"), json!(k))),
                _ => items.push(Item::VP(v, format!("p{k}"), json!(k))),
            }
        }
    }
    (w, items)
}
fn lim(r: &mut Rng, n: usize) -> u32 {
    match r.below(5) {
        0 => u32::MAX,
        1 => (n + r.below(3)).saturating_sub(1) as u32,
        2 => r.below(n + 2) as u32,
        _ => boundary(r, 6000) as u32,
    }
}
fn some_t(r: &mut Rng, w: &World) -> Option<String> {
    r.chance(1, 2).then(|| r.pick(&w.types).clone())
}
/// A selection of elements; `v`: vertices.
fn sel(r: &mut Rng, w: &World, m: &Model, v: bool, depth: usize) -> Q {
    let hub = |r: &mut Rng| Q::SpecV(vec![*r.pick(&w.hubs)]);
    let dir = |r: &mut Rng| if r.chance(1, 2) { Dir::Out } else { Dir::In };
    let sorted: Vec<Id> = m.v.keys().cloned().collect();
    if v {
        match r.below(if depth > 0 { 7 } else { 4 }) {
            0 => Q::AllV,
            1 => {
                let start = if sorted.is_empty() || r.chance(1, 4) { None } else { Some(r.pick(&sorted).wrapping_add(r.below(2) as u128)) };
                Q::RangeV { limit: lim(r, sorted.len()), t: some_t(r, w), start }
            }
            2 => {
                // many, with repetitions and missing ones
                let n = boundary(r, 3000);
                Q::SpecV((0..n).map(|_| if r.chance(1, 20) { r.u128() } else { *r.pick(&w.ids) }).collect())
            }
            3 => hub(r),
            4 => {
                let inner = sel(r, w, m, false, depth - 1);
                Q::Pipe { inner: Box::new(inner), dir: dir(r), limit: lim(r, m.e.len()), t: some_t(r, w) }
            }
            _ if m.ix.is_empty() => hub(r),
            k => {
                let name = r.pick(&w.names).clone();
                let name = if m.ix.contains(&name) { name } else { m.ix.iter().next().unwrap().clone() };
                if k == 5 {
                    Q::Has { inner: Box::new(sel(r, w, m, true, depth - 1)), name, exists: r.chance(1, 2) }
                } else {
                    Q::Val { inner: Box::new(sel(r, w, m, true, depth - 1)), name, value: r.pick(&w.vals).clone(), equal: r.chance(1, 2) }
                }
            }
        }
    } else {
        match r.below(if depth > 0 { 6 } else { 3 }) {
            0 => Q::AllE,
            1 => {
                let all: Vec<&EK> = m.e.iter().collect();
                let n = boundary(r, 2000);
                if all.is_empty() {
                    return Q::AllE;
                }
                Q::SpecE((0..n).map(|_| (*r.pick(&all)).clone()).collect())
            }
            2 => Q::Pipe { inner: Box::new(hub(r)), dir: dir(r), limit: lim(r, m.e.len()), t: some_t(r, w) },
            3 => Q::Pipe { inner: Box::new(sel(r, w, m, true, depth - 1)), dir: dir(r), limit: lim(r, m.e.len()), t: some_t(r, w) },
            _ if m.ix.is_empty() => Q::AllE,
            k => {
                let name = r.pick(&w.names).clone();
                let name = if m.ix.contains(&name) { name } else { m.ix.iter().next().unwrap().clone() };
                if k == 4 {
                    Q::Has { inner: Box::new(sel(r, w, m, false, depth - 1)), name, exists: r.chance(1, 2) }
                } else {
                    Q::Val { inner: Box::new(sel(r, w, m, false, depth - 1)), name, value: r.pick(&w.vals).clone(), equal: r.chance(1, 2) }
                }
            }
        }
    }
}
fn op(r: &mut Rng, w: &World, m: &Model) -> Op {
    let v = r.chance(1, 2);
    match r.below(20) {
        0 => Op::Delete(Q::SpecV(vec![*r.pick(&w.hubs)])),
        1 => {
            let dir = if r.chance(1, 2) { Dir::Out } else { Dir::In };
            Op::Delete(Q::Pipe { inner: Box::new(Q::SpecV(vec![*r.pick(&w.hubs)])), dir, limit: lim(r, 600), t: some_t(r, w) })
        }
        2 => Op::Delete(Q::RangeV { limit: boundary(r, 300) as u32, t: some_t(r, w), start: None }),
        3 | 4 => Op::Set(sel(r, w, m, v, 1), r.pick(&w.names).clone(), r.pick(&w.vals).clone()),
        5 | 6 => Op::Index(r.pick(&w.names).clone()),
        7 => Op::Delete(Q::Props { inner: Box::new(sel(r, w, m, v, 1)), name: r.chance(2, 3).then(|| r.pick(&w.names).clone()) }),
        8 => Op::Reopen(r.below(20) as u8),
        9 => Op::Sync,
        10 => Op::Get(Q::Props { inner: Box::new(sel(r, w, m, v, 1)), name: r.chance(1, 2).then(|| r.pick(&w.names).clone()) }),
        11 => Op::Get(Q::Count(Box::new(sel(r, w, m, v, 2)))),
        12 => {
            let inner = Q::Incl(Box::new(sel(r, w, m, true, 1)));
            Op::Get(Q::Pipe { inner: Box::new(inner), dir: if r.chance(1, 2) { Dir::Out } else { Dir::In }, limit: lim(r, m.e.len()), t: some_t(r, w) })
        }
        13 => {
            // put the hub's surroundings back
            let items = w.hubs.iter().chain(w.ids.iter().take(40)).map(|i| Item::V(*i, w.types[0].clone())).collect();
            Op::Bulk(items)
        }
        _ => Op::Get(sel(r, w, m, v, 3)),
    }
}
pub fn one(prop: &'static str, kind: Kind, seed: u64, big: usize, rep: &Report) {
    crate::progress::doing(&format!("{prop} {} large history seed {seed}", kind.name()));
    let mut r = Rng::new(seed);
    let (w, items) = world(&mut r, big);
    let mut l = match Local::new(kind) {
        Ok(l) => l,
        Err(e) => return rep.violation(&format!("{prop}:{}:open", kind.name()), format!("{e:?}"), format!("seed {seed}")),
    };
    let mut m = Model::new(kind.order());
    let mut ops: Vec<Op> = Vec::new();
    if r.chance(1, 2) {
        ops.push(Op::Index(w.names[0].clone()));
    }
    let chunk = match r.below(3) {
        0 => items.len(),
        _ => boundary(&mut r, 2000).max(50),
    };
    ops.extend(items.chunks(chunk).map(|c| Op::Bulk(c.to_vec())));
    if r.chance(1, 3) {
        // very many indexes
        for k in 0..boundary(&mut r, 130) {
            ops.push(Op::Index(format!("p{k}{}", "x".repeat(r.below(250)))));
        }
        ops.push(Op::Reopen(r.below(20) as u8));
    }
    let n = r.range(6, 16);
    let mut log: Vec<String> = Vec::new();
    let populate = ops.len();
    let mut k = 0;
    loop {
        let op = match ops.get(k) {
            Some(o) => o.clone(),
            None if k < populate + n => op(&mut r, &w, &m),
            None => break,
        };
        k += 1;
        log.push(short(&op));
        let fail = |what: String| {
            rep.violation(
                &format!("{prop}:{}:large:{}", kind.name(), opname(&op).split([':', '[']).next().unwrap_or("")),
                format!("[{}] large graph ({} vertices, {} edges), {}: {what}", kind.name(), w.ids.len(), items.iter().filter(|i| matches!(i, Item::E(_))).count(), short(&op)),
                format!("property {prop} large history seed {seed} big {big}\n{what}\n--- history ---\n{}", log.iter().enumerate().map(|(i, o)| format!("{i:4} {o}\n")).collect::<String>()),
            )
        };
        match step(&mut l, &mut m, &op, rep, r.chance(1, 2)) {
            Ok(true) => {
                rep.eval(1);
                rep.count("large_steps", 1);
                if k > populate {
                    rep.distinct(&("large", opname(&op), bucket2(m.v.len()), bucket2(m.e.len())));
                }
            }
            Ok(false) => {
                rep.count("skipped_out_of_domain", 1);
                continue;
            }
            Err(s) => return fail(s),
        }
        let changed = !matches!(op, Op::Get(_) | Op::Sync);
        if k >= populate && (changed && (k == populate || r.chance(2, 3)) || k == populate + n) {
            rep.count("large_audits", 1);
            // every value's index query only where there are few values
            if let Err(s) = audit(l.d(), &m, m.vp.len() + m.ep.len() < 300) {
                return fail(format!("afterwards: {s}"));
            }
        }
    }
    rep.count("large_histories", 1);
    rep.count(&format!("large_vertices_{}", bucket2(w.ids.len())), 1);
    rep.distinct(&("large-state", m.v.len(), m.e.len(), m.vp.len(), m.ep.len()));
}
fn bucket2(n: usize) -> usize {
    match n {
        0..=99 => 0,
        100..=255 => 100,
        256..=511 => 256,
        512..=1023 => 512,
        1024..=2047 => 1024,
        _ => 2048,
    }
}
/// Large histories on the given stores for a share of the budget.
pub fn campaign(cx: &Ctx, prop: &'static str, kinds: &[Kind], percent: u64, rep: &Report) {
    let t0 = Instant::now();
    let budget = cx.dur(percent);
    let big = if cx.thorough { 5000 } else { 2100 };
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..cx.threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if t0.elapsed() > budget || rep.nviol() >= 6 {
                        break;
                    }
                    let kind = kinds[k % kinds.len()];
                    if k < kinds.len() && !cfg!(debug_assertions) && prop != "C06" {
                        vast(prop, kind, cx.seed ^ h64(prop), rep);
                    }
                    let hs = cx.seed.wrapping_mul(0x51ca_1e01).wrapping_add(k as u64).wrapping_mul(0x9E37_79B9) ^ h64(prop) ^ 0x1a59e;
                    // most are not that large
                    one(prop, kind, hs, if k % 3 == 0 { big } else { 600 }, rep);
                })
                .unwrap();
        }
    });
}

/// More of everything than sixteen bits count: vertices, edges at one vertex in both directions, owners of one indexed
/// value, items of one insertion. All answers are known in closed form.
pub fn vast(prop: &'static str, kind: Kind, seed: u64, rep: &Report) {
    crate::progress::doing(&format!("{prop} {} vast graph seed {seed}", kind.name()));
    let mut r = Rng::new(seed);
    if let Err(what) = vast_checked(kind, &mut r, rep) {
        rep.violation(&format!("{prop}:{}:vast", kind.name()), format!("[{}] graph with more than 65536 of everything: {what}", kind.name()), format!("property {prop} vast graph seed {seed}\n{what}"));
    }
}
fn vast_checked(kind: Kind, r: &mut Rng, rep: &Report) -> Result<(), String> {
    let n = [65_537usize, 66_000, 70_001, 65_536 + r.below(9000)][r.below(4)];
    let base = [0u128, r.u128() >> 1, u128::MAX - n as u128][r.below(3)];
    let id = |k: usize| base + k as u128;
    let hub = r.below(n);
    let vt = |k: usize| if k + 3 >= n || k == 0 { "last" } else { "most" };
    let vt = &vt;
    // edges out of the hub to all, and into it from all but itself
    let out = |k: usize| EK::new(id(hub), if k + 2 >= n { "z" } else { "e" }, id(k));
    let inn = |k: usize| EK::new(id(k), "e", id(hub));
    let few = |k: usize| k % 1000 == 7;
    let val = |k: usize| if few(k) { json!("few") } else { json!("many") };
    let mut items: Vec<Item> = (0..n).map(|k| Item::V(id(k), vt(k).into())).collect();
    for k in 0..n {
        items.push(Item::E(out(k)));
        if k != hub {
            items.push(Item::E(inn(k)));
        }
    }
    for k in 0..n {
        items.push(Item::VP(id(k), "p".into(), val(k)));
        items.push(Item::EP(out(k), "p".into(), val(k)));
    }
    let mut l = Local::new(kind).map_err(|e| format!("{e:?}"))?;
    let early = r.chance(1, 2);
    if early {
        l.d().index("p").map_err(|e| format!("{e:?}"))?;
    }
    l.d().bulk(&items).map_err(|e| format!("inserting {} items: {e:?}", items.len()))?;
    drop(items);
    if !early {
        l.d().index("p").map_err(|e| format!("{e:?}"))?;
    }
    let edges = 2 * n - 1;
    let nfew = (0..n).filter(|k| few(*k)).count();
    fn ask(l: &Local, rep: &Report, q: Q) -> Result<Out, String> {
        rep.eval(1);
        rep.count("vast_queries", 1);
        let mut o = l.d().get(q.raw()).map_err(|e| format!("{} failed: {e:?}", short(&q)))?;
        o.pop().ok_or_else(|| format!("{} gave no output", short(&q)))
    }
    let count = |l: &Local, q: Q, want: usize| match ask(l, rep, Q::Count(Box::new(q.clone())))? {
        Out::C(c) if c == want as u64 => Ok(()),
        x => Err(format!("count of {}: {} instead of {want}", short(&q), short(&x))),
    };
    let vids = |l: &Local, q: Q, want: &mut dyn Iterator<Item = usize>, sorted: bool| {
        let Out::V(mut v) = ask(l, rep, q.clone())? else { return Err(format!("{}: type of output", short(&q))) };
        if sorted {
            v.sort();
        }
        let want: Vec<usize> = want.collect();
        if v.len() != want.len() || v.iter().zip(&want).any(|(x, k)| x.0 != id(*k) || x.1 != vt(*k)) {
            return Err(format!("{}: {} vertices instead of {}, or others", short(&q), v.len(), want.len()));
        }
        Ok(())
    };
    let nedges = |l: &Local, q: Q, want: usize| match ask(l, rep, q.clone())? {
        Out::E(e) => {
            let s: BTreeSet<&EK> = e.iter().collect();
            if e.len() == want && s.len() == want {
                Ok(())
            } else {
                Err(format!("{}: {} edges ({} different) instead of {want}", short(&q), e.len(), s.len()))
            }
        }
        x => Err(format!("{}: {}", short(&q), short(&x))),
    };
    let pipe = |q: Q, dir: Dir, t: Option<&str>, limit: u32| Q::Pipe { inner: Box::new(q), dir, limit, t: t.map(|t| t.to_string()) };
    let h = || Q::SpecV(vec![id(hub)]);
    // those from all others and the loop
    let into = n;
    let all = |l: &Local, hub_edges: bool| -> Result<(), String> {
        count(l, Q::AllV, n)?;
        count(l, Q::AllE, if hub_edges { edges } else { 0 })?;
        vids(l, Q::AllV, &mut (0..n), true)?;
        vids(l, Q::RangeV { limit: u32::MAX, t: None, start: Some(id(1)) }, &mut (1..n), false)?;
        vids(l, Q::RangeV { limit: 65_537, t: None, start: None }, &mut (0..65_537), false)?;
        vids(l, Q::RangeV { limit: 4, t: Some("last".into()), start: None }, &mut [0, n - 3, n - 2, n - 1].into_iter(), false)?;
        vids(l, Q::VVal("p".into(), json!("few")), &mut (0..n).filter(|k| few(*k)), true)?;
        vids(l, Q::VVal("p".into(), json!("many")), &mut (0..n).filter(|k| !few(*k)), true)?;
        vids(l, Q::VHas("p".into()), &mut (0..n), true)?;
        count(l, Q::VHas("p".into()), n)?;
        if hub_edges {
            nedges(l, Q::AllE, edges)?;
            nedges(l, pipe(h(), Dir::Out, None, u32::MAX), n)?;
            nedges(l, pipe(h(), Dir::Out, None, 65_536), 65_536)?;
            nedges(l, pipe(h(), Dir::Out, Some("z"), u32::MAX), 2)?;
            nedges(l, pipe(h(), Dir::Out, Some("e"), 65_530), 65_530.min(n - 2))?;
            nedges(l, pipe(h(), Dir::In, None, u32::MAX), into)?;
            vids(l, pipe(pipe(h(), Dir::Out, None, u32::MAX), Dir::In, Some("last"), u32::MAX), &mut [0, n - 3, n - 2, n - 1].into_iter(), true)?;
            count(l, pipe(pipe(h(), Dir::Out, None, u32::MAX), Dir::In, None, u32::MAX), n)?;
            nedges(l, Q::EVal("p".into(), json!("many")), n - nfew)?;
            nedges(l, Q::EHas("p".into()), n)?;
            nedges(l, Q::Val { inner: Box::new(pipe(h(), Dir::Out, None, u32::MAX)), name: "p".into(), value: json!("many"), equal: false }, nfew)?;
            match ask(l, rep, Q::Props { inner: Box::new(pipe(h(), Dir::Out, None, u32::MAX)), name: Some("p".into()) })? {
                Out::EP(x) if x.len() == n && x.iter().all(|e| e.1.len() == 1) => {}
                x => return Err(format!("properties of the hub's edges: {} instead of {n}", x.len())),
            }
        }
        match ask(l, rep, Q::Props { inner: Box::new(Q::AllV), name: None })? {
            Out::VP(x) if x.len() == n && x.iter().all(|e| e.1.iter().any(|p| p.0 == "p")) => Ok(()),
            x => Err(format!("properties of all vertices: {} instead of {n}", x.len())),
        }
    };
    all(&l, true)?;
    l.reopen(r.below(20) as u8).map_err(|e| format!("reopening: {e:?}"))?;
    all(&l, true).map_err(|e| format!("after reopening: {e}"))?;
    // all at once
    l.d().set(Q::AllV.raw(), "r", &json!(5)).map_err(|e| format!("setting a property of all vertices: {e:?}"))?;
    l.d().index("r").map_err(|e| format!("indexing: {e:?}"))?;
    vids(&l, Q::VVal("r".into(), json!(5)), &mut (0..n), true)?;
    l.d().delete(Q::Props { inner: Box::new(Q::AllV), name: Some("r".into()) }.raw()).map_err(|e| format!("deleting a property of all vertices: {e:?}"))?;
    count(&l, Q::VHas("r".into()), 0)?;
    all(&l, true).map_err(|e| format!("after setting and deleting another property: {e}"))?;
    // (RocksDB is slow to look for what is not there behind many deletions, so those without properties go first)
    l.d().delete(pipe(h(), Dir::In, None, u32::MAX).raw()).map_err(|e| format!("deleting the hub's edges: {e:?}"))?;
    l.d().delete(Q::AllE.raw()).map_err(|e| format!("deleting all edges: {e:?}"))?;
    all(&l, false).map_err(|e| format!("after deleting the edges: {e}"))?;
    count(&l, Q::EHas("p".into()), 0)?;
    nedges(&l, Q::EVal("p".into(), json!("many")), 0)?;
    l.reopen(r.below(20) as u8).map_err(|e| format!("reopening: {e:?}"))?;
    all(&l, false).map_err(|e| format!("after deleting the edges and reopening: {e}"))?;
    rep.distinct(&("vast", kind.name(), n, hub, early));
    rep.count("vast_graphs", 1);
    Ok(())
}
