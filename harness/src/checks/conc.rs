//! Concurrency: recorded histories judged for linearizability (C12, and C21 through gRPC), invariant stress on the
//! in-memory store, and concurrent writers on RocksDB judged after quiescence (C13).
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::lin::{self, Ev, Verdict, LR};
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// The graph a database currently shows through its queries, as a model (with `ix` as the indexed names).
pub fn dump(d: &dyn Db, order: EdgeOrder, ix: &[String]) -> Result<Model, String> {
    let get1 = |q: Q| -> Result<Out, String> {
        let mut o = d.get(q.raw()).map_err(|e| format!("{:?} failed: {:?}", q, e))?;
        o.pop().ok_or_else(|| format!("{:?} gave no output", q))
    };
    let mut m = Model::new(order);
    let Out::V(vs) = get1(Q::AllV)? else { return Err("AllV output type".into()) };
    for (id, t) in vs {
        if m.v.insert(id, t).is_some() {
            return Err(format!("vertex {id:032x} listed twice"));
        }
    }
    let Out::E(es) = get1(Q::AllE)? else { return Err("AllE output type".into()) };
    for e in es {
        if !m.v.contains_key(&e.o) || !m.v.contains_key(&e.i) {
            return Err(format!("edge {e:?} lacks an endpoint"));
        }
        if !m.e.insert(e.clone()) {
            return Err(format!("edge {e:?} listed twice"));
        }
    }
    let p = |q: Q| Q::Props { inner: Box::new(q), name: None };
    let Out::VP(vp) = get1(p(Q::AllV))? else { return Err("vertex properties output type".into()) };
    for ((id, _), ps) in vp {
        for (n, v) in ps {
            m.vp.insert((id, n), v);
        }
    }
    let Out::EP(ep) = get1(p(Q::AllE))? else { return Err("edge properties output type".into()) };
    for (e, ps) in ep {
        for (n, v) in ps {
            m.ep.insert((e.clone(), n), v);
        }
    }
    m.ix = ix.iter().cloned().collect();
    Ok(m)
}
/// The database agrees with itself: see `dump` and `audit`.
pub fn self_consistent(d: &dyn Db, order: EdgeOrder, ix: &[String]) -> Result<Model, String> {
    let m = dump(d, order, ix)?;
    audit(d, &m, true)?;
    Ok(m)
}
fn spin(r: &mut Rng) {
    let n = match r.below(6) {
        0 => 0,
        1 => r.below(20),
        2 => r.below(2000),
        _ => r.below(200),
    };
    for _ in 0..n {
        std::hint::spin_loop();
    }
    if r.chance(1, 30) {
        std::thread::yield_now();
    }
}
/// Runs the given per-thread operations concurrently and records call and return times.
pub fn record(handles: &[Arc<dyn Db>], ops: &[Vec<Op>], seed: u64) -> Vec<Ev> {
    let n = ops.len();
    let ready = AtomicUsize::new(0);
    let out = Mutex::new(Vec::new());
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for (t, mine) in ops.iter().enumerate() {
            let (ready, out, t0) = (&ready, &out, &t0);
            let d = handles[t % handles.len()].clone();
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (t as u64 + 1).wrapping_mul(0xABCD_EF12_3457));
                let mut evs = Vec::with_capacity(mine.len());
                ready.fetch_add(1, SeqCst);
                let w = Instant::now();
                while ready.load(SeqCst) < n && w.elapsed() < Duration::from_secs(5) {
                    std::hint::spin_loop();
                }
                for op in mine {
                    spin(&mut r);
                    let call = lin::nanos(t0);
                    let res = lin::observe(&*d, op);
                    let ret = lin::nanos(t0);
                    evs.push(Ev { thread: t, op: op.clone(), call, ret: Some((ret, res)) });
                }
                out.lock().unwrap().extend(evs);
            });
        }
    });
    out.into_inner().unwrap()
}
pub fn overlaps(evs: &[Ev]) -> u64 {
    let end = |e: &Ev| e.ret.as_ref().map(|r| r.0).unwrap_or(u64::MAX);
    let mut n = 0;
    for (i, a) in evs.iter().enumerate() {
        for b in &evs[i + 1..] {
            if a.thread != b.thread && a.call < end(b) && b.call < end(a) {
                n += 1;
            }
        }
    }
    n
}
/// The order of calls and returns, as an interleaving signature.
fn interleaving(evs: &[Ev]) -> u64 {
    let mut x: Vec<(u64, usize, bool)> = Vec::new();
    for e in evs {
        x.push((e.call, e.thread, true));
        if let Some(r) = &e.ret {
            x.push((r.0, e.thread, false));
        }
    }
    x.sort();
    h64(&(x.iter().map(|y| (y.1, y.2)).collect::<Vec<_>>(), evs.iter().map(|e| opname(&e.op)).collect::<Vec<_>>()))
}
/// Sequential queries that expose the final state, appended to the recorded history.
pub fn final_audit(d: &dyn Db, evs: &mut Vec<Ev>, m: &Model, names: &[String]) {
    let mut t = evs.iter().map(|e| e.ret.as_ref().map(|r| r.0).unwrap_or(e.call)).max().unwrap_or(0) + 10;
    let p = |q: Q| Q::Props { inner: Box::new(q), name: None };
    let mut qs = vec![Q::AllV, Q::AllE, p(Q::AllV), p(Q::AllE)];
    for n in names {
        if m.ix.contains(n) {
            qs.push(Q::VHas(n.clone()));
            qs.push(Q::EHas(n.clone()));
        }
    }
    for q in qs {
        let op = Op::Get(q);
        let res = lin::observe(d, &op);
        evs.push(Ev { thread: 99, op, call: t, ret: Some((t + 1, res)) });
        t += 10;
    }
}
pub fn conc_weights(k: usize) -> Weights {
    match k % 4 {
        0 => Weights { create_v: 8, create_vt: 1, create_e: 10, bulk: 6, set: 14, del_elems: 10, del_props: 5, index: 2, get: 30, sync: 1, reopen: 0, wild: 1, depth: 2 },
        1 => Weights { create_v: 10, create_vt: 0, create_e: 14, bulk: 10, set: 2, del_elems: 14, del_props: 0, index: 0, get: 30, sync: 0, reopen: 0, wild: 0, depth: 2 },
        2 => Weights { create_v: 2, create_vt: 0, create_e: 2, bulk: 4, set: 24, del_elems: 4, del_props: 10, index: 4, get: 30, sync: 0, reopen: 0, wild: 0, depth: 2 },
        _ => Weights { create_v: 20, create_vt: 1, create_e: 20, bulk: 4, set: 4, del_elems: 20, del_props: 2, index: 1, get: 10, sync: 0, reopen: 0, wild: 0, depth: 1 },
    }
}
pub fn op_determinate(op: &Op) -> bool {
    match op {
        Op::Delete(q) | Op::Set(q, ..) => lin::determinate(q),
        Op::Reopen(_) => false,
        _ => true,
    }
}
pub struct Plan {
    pub pools: Pools,
    pub init: Model,
    pub ops: Vec<Vec<Op>>,
}
/// A common start state (applied to `d`) and operations for each thread.
pub fn plan(d: &dyn Db, r: &mut Rng, threads: usize, per: usize, warm: usize, rep: &Report) -> Result<Plan, String> {
    let pools = Pools::new(r, if warm > 25 { 12 } else { 3 }, 2, 2, 3);
    let mut m = Model::new(EdgeOrder::Plain);
    let ww = Weights { create_v: 10, create_vt: 0, create_e: 16, bulk: 0, set: 12, del_elems: 0, del_props: 0, index: 2, get: 0, sync: 0, reopen: 0, wild: 0, depth: 1 };
    for _ in 0..warm {
        let op = gen_op(&pools, r, &m, &ww);
        step_db(d, &mut m, &op, rep, false).map_err(|e| format!("warm-up {}: {e}", short(&op)))?;
    }
    let w = conc_weights(r.below(8));
    let mut ops = Vec::new();
    for _ in 0..threads {
        let mut v = Vec::new();
        let mut tries = 0;
        // operations are generated against a private prediction of the state, so that they make sense in sequence
        let mut pm = m.clone();
        while v.len() < per && tries < per * 20 {
            tries += 1;
            let op = gen_op(&pools, r, &pm, &w);
            // bulk inserts of dangling edges are outside the specified domain, also after concurrent deletions
            let ok = match &op {
                Op::Bulk(items) => items.iter().all(|i| match i {
                    Item::E(_) | Item::EP(..) | Item::VP(..) => false,
                    Item::V(..) => true,
                }) || self_contained(items),
                _ => op_determinate(&op),
            };
            if !ok {
                continue;
            }
            if let Some(n) = lin::judge(&pm, &op, None) {
                pm = n;
            }
            v.push(op);
        }
        ops.push(v);
    }
    Ok(Plan { pools, init: m, ops })
}
/// Every edge and property of the list belongs to vertices and edges created by the list itself.
pub fn self_contained(items: &[Item]) -> bool {
    let mut m = Model::new(EdgeOrder::Plain);
    for i in items {
        match i {
            Item::V(..) => {}
            Item::E(e) if m.v.contains_key(&e.o) && m.v.contains_key(&e.i) => {}
            Item::VP(id, ..) if m.v.contains_key(id) => {}
            Item::EP(e, ..) if m.e.contains(e) => {}
            _ => return false,
        }
        m.bulk(std::slice::from_ref(i));
    }
    true
}
pub fn judge_round(prop: &str, label: &str, seed: u64, init: &Model, evs: &[Ev], rep: &Report) {
    rep.count("overlapping_pairs", overlaps(evs));
    rep.count("rounds", 1);
    rep.count(&format!("rounds_threads_{}", evs.iter().map(|e| e.thread).filter(|t| *t < 90).max().unwrap_or(0) + 1), 1);
    match lin::check(init, evs, 40_000) {
        Verdict::Ok(order) => {
            rep.eval(evs.len() as u64);
            rep.distinct(&("interleaving", interleaving(evs)));
            let mut by_call: Vec<usize> = (0..evs.len()).collect();
            by_call.sort_by_key(|i| evs[*i].call);
            if order.iter().zip(by_call.iter()).any(|(a, b)| a != b) {
                rep.count("rounds_not_explained_in_call_order", 1);
            }
            if seed % 997 == 0 {
                rep.sample(json!({"round": seed, "order": order, "ops": evs.iter().map(|e| format!("t{} {}", e.thread, opname(&e.op))).collect::<Vec<_>>()}));
            }
        }
        Verdict::Unknown => rep.inconclusive(format!("round {seed}: search exceeded its node budget")),
        Verdict::Bad(n, next) => rep.violation(
            &format!("{prop}:{label}:not-linearizable"),
            format!("no sequential order explains this concurrent history of {} operations ({} explained)", evs.len(), n),
            format!("round seed {seed}\n{}", lin::describe(init, evs, n, &next)),
        ),
    }
}
pub fn c12(cx: &Ctx, rep: &Report) {
    let t0 = Instant::now();
    let dur = cx.dur(60);
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..(cx.threads / 3).max(1) {
            s.spawn(|| {
                while t0.elapsed() < dur && rep.nviol() < 4 {
                    let k = next.fetch_add(1, Relaxed);
                    let seed = h64(&(cx.seed, "c12", k));
                    crate::progress::doing(&format!("C12 round seed {seed}"));
                    let mut r = Rng::new(seed);
                    let level = [0, 0, 2, 5][(seed >> 20) as usize % 4];
                    rep.count(if level > 0 { "rounds_with_hesitating_datastore" } else { "rounds_without_delays" }, 1);
                    let d: Arc<dyn Db> = Arc::from(Local::noisy(Kind::Mem, level).unwrap().db.unwrap());
                    let (th, per, warm) = match r.below(5) {
                        0 => (2, 8, 12),
                        1 => (6, 4, 15),
                        2 => (4, 6, 60),
                        3 => (3, 7, 40),
                        _ => (4, 6, 12),
                    };
                    let p = match plan(&*d, &mut r, th, per, warm, rep) {
                        Ok(p) => p,
                        Err(e) => {
                            rep.violation("C12:memory:sequential", e, format!("seed {seed}"));
                            break;
                        }
                    };
                    let mut evs = record(&[d.clone()], &p.ops, seed);
                    let names: Vec<String> = p.init.ix.iter().cloned().collect();
                    final_audit(&*d, &mut evs, &p.init, &names);
                    judge_round("C12", "memory", seed, &p.init, &evs, rep);
                }
            });
        }
    });
    rep.note("lin_rounds", json!(next.load(Relaxed)));
    let t1 = Instant::now();
    let mut k = 0;
    while t1.elapsed() < cx.dur(40) && rep.nviol() < 4 {
        k += 1;
        let d: Arc<dyn Db> = Arc::from(Local::noisy(Kind::Mem, [0, 3][k as usize % 2]).unwrap().db.unwrap());
        let slice = Duration::from_millis(if cx.thorough { 4000 } else { 1500 });
        stress("C12", "memory", d.clone(), h64(&(cx.seed, "stress", k)), slice, cx.threads, true, rep);
        stress_final("C12", "memory", &*d, k, rep);
    }
}
pub const GK: usize = 48;
fn group_items(g: usize, base: Id) -> Vec<Item> {
    let t = format!("g{g}");
    let vid = |i: usize| base + ((g as u128) << 32) + i as u128;
    let mut v = Vec::new();
    for i in 0..GK {
        v.push(Item::V(vid(i), t.clone()));
    }
    for i in 0..GK {
        v.push(Item::E(EK::new(vid(i), &t, vid((i * 7 + 1) % GK))));
        v.push(Item::VP(vid(i), "mark".into(), json!(0)));
    }
    v
}
/// Groups of GK vertices that are inserted, marked and deleted only as a whole, watched by readers.
/// `snapshots`: each query sees one state (in-memory); otherwise only single scans are judged.
pub fn stress(prop: &str, label: &str, d: Arc<dyn Db>, seed: u64, dur: Duration, threads: usize, snapshots: bool, rep: &Report) {
    crate::progress::doing(&format!("{prop} stress seed {seed}"));
    let groups = 5usize;
    let base: Id = 0x7700_0000_0000_0000_0000_0000_0000_0000;
    let stop = AtomicBool::new(false);
    let seq = AtomicU64::new(1);
    let fail = |what: String| {
        stop.store(true, SeqCst);
        rep.violation(&format!("{prop}:{label}:torn"), what.clone(), format!("stress seed {seed}: {what}"));
    };
    if let Err(e) = d.index("mark") {
        fail(format!("index failed {e:?}"));
        return;
    }
    let seen = [const { AtomicU64::new(0) }; 4];
    let writers = (threads / 2).max(2);
    let t0 = Instant::now();
    let byt = |g: usize| Q::RangeV { limit: u32::MAX, t: Some(format!("g{g}")), start: None };
    let allin = |g: usize| Q::RangeV { limit: u32::MAX, t: Some(format!("g{g}")), start: Some(0) };
    std::thread::scope(|s| {
        for w in 0..writers {
            let (d, stop, fail, seq, seen) = (d.clone(), &stop, &fail, &seq, &seen);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (w as u64 + 77));
                while !stop.load(Relaxed) && t0.elapsed() < dur {
                    let g = r.below(groups);
                    let op = match r.below(10) {
                        0..=3 => Op::Bulk(group_items(g, base)),
                        4..=5 => Op::Delete(byt(g)),
                        6 => Op::Delete(Q::Pipe { inner: Box::new(allin(g)), dir: Dir::Out, limit: u32::MAX, t: None }),
                        7 => Op::Delete(Q::Props { inner: Box::new(byt(g)), name: Some("mark".into()) }),
                        _ => Op::Set(byt(g), "mark".into(), json!(seq.fetch_add(1, SeqCst))),
                    };
                    if !snapshots && matches!(op, Op::Delete(Q::Pipe { .. })) {
                        continue;
                    }
                    if !snapshots {
                        // one group is only handled by one writer on stores without snapshots
                        if g % writers != w && !matches!(op, Op::Bulk(_)) {
                            continue;
                        }
                    }
                    let res = lin::observe(&*d, &op);
                    if res != LR::Unit {
                        fail(format!("{} answered {}", opname(&op), short(&res)));
                        return;
                    }
                    seen[0].fetch_add(1, Relaxed);
                    rep.eval(1);
                }
            });
        }
        for w in 0..threads.saturating_sub(writers).max(2) {
            let (d, stop, fail, seen) = (d.clone(), &stop, &fail, &seen);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (w as u64 + 7777));
                let mut local = 0u64;
                while !stop.load(Relaxed) && t0.elapsed() < dur {
                    let g = r.below(groups);
                    let kind = if snapshots { r.below(6) } else { r.below(2) };
                    let q = match kind {
                        0 => Q::AllV,
                        1 => Q::AllE,
                        2 => Q::Count(Box::new(byt(g))),
                        3 => Q::Props { inner: Box::new(byt(g)), name: Some("mark".into()) },
                        4 => Q::Count(Box::new(Q::Incl(Box::new(Q::Pipe { inner: Box::new(Q::Incl(Box::new(byt(g)))), dir: Dir::Out, limit: u32::MAX, t: None })))),
                        _ => Q::Count(Box::new(Q::Incl(Box::new(Q::VHas("mark".into()))))),
                    };
                    let outs = match d.get(q.raw()) {
                        Ok(o) => o,
                        Err(e) => {
                            fail(format!("query {} failed: {:?}", q.shape(), e));
                            return;
                        }
                    };
                    local += 1;
                    let tally = |it: &mut dyn Iterator<Item = &String>| {
                        let mut c: BTreeMap<String, usize> = BTreeMap::new();
                        for t in it {
                            *c.entry(t.clone()).or_default() += 1;
                        }
                        c
                    };
                    let bad = match (kind, &outs[..]) {
                        (0, [Out::V(v)]) => {
                            let c = tally(&mut v.iter().map(|x| &x.1));
                            if c.len() > 1 {
                                rep.distinct(&("groups-present", c.keys().cloned().collect::<Vec<_>>()));
                            }
                            c.iter().find(|x| x.1 % GK != 0).map(|x| format!("{} of {} vertices of a group visible: {:?}", x.1, GK, c))
                        }
                        (1, [Out::E(v)]) => {
                            let c = tally(&mut v.iter().map(|x| &x.t));
                            c.iter().find(|x| x.1 % GK != 0).map(|x| format!("{} of {} edges of a group visible: {:?}", x.1, GK, c))
                        }
                        (2, [Out::C(n)]) => (*n as usize % GK != 0).then(|| format!("counted {n} of {GK} vertices of a group")),
                        (3, [Out::VP(p)]) => {
                            let vals: std::collections::BTreeSet<String> = p.iter().flat_map(|x| x.1.iter().map(|y| y.1.to_string())).collect();
                            rep.distinct(&("marks", vals.len(), p.len()));
                            (vals.len() > 1 || p.len() % GK != 0).then(|| format!("{} of {} vertices of a group carry the mark, with values {:?}", p.len(), GK, vals))
                        }
                        (4, [Out::V(v), Out::E(e), Out::C(n)]) => {
                            (v.len() % GK != 0 || e.len() % GK != 0 || *n as usize != e.len() || (v.is_empty() && !e.is_empty()))
                                .then(|| format!("{} vertices, {} edges, count {} in one answer", v.len(), e.len(), n))
                        }
                        (5, [Out::V(v), Out::C(n)]) => (v.len() % GK != 0 || v.len() != *n as usize).then(|| format!("{} vertices with the mark, count {}", v.len(), n)),
                        _ => Some(format!("unexpected outputs {}", short(&outs))),
                    };
                    rep.eval(1);
                    if let Some(b) = bad {
                        fail(b);
                        return;
                    }
                }
                seen[1].fetch_add(local, Relaxed);
            });
        }
    });
    rep.count("stress_writes", seen[0].load(Relaxed));
    rep.count("stress_reads", seen[1].load(Relaxed));
    rep.count("stress_runs", 1);
}
pub fn stress_final(prop: &str, label: &str, d: &dyn Db, seed: u64, rep: &Report) {
    if rep.nviol() == 0 {
        if let Err(e) = self_consistent(d, if label == "rocksdb" { EdgeOrder::LenPrefixed } else { EdgeOrder::Plain }, &["mark".to_string()]) {
            rep.violation(&format!("{prop}:{label}:torn"), format!("after quiescence: {e}"), format!("stress seed {seed}"));
        }
    }
}

// ---------------------------------------------------------------- C13
pub fn c13(cx: &Ctx, rep: &Report) {
    let t0 = Instant::now();
    let mut k = 0u64;
    while t0.elapsed() < cx.dur(100) && rep.nviol() < 4 {
        k += 1;
        let seed = h64(&(cx.seed, "c13", k));
        match k % 8 {
            0 | 4 => {
                let mut l = Local::noisy(Kind::Rocks, [0, 2][(k / 4) as usize % 2]).unwrap();
                let _dir = l.keep();
                let d: Arc<dyn Db> = Arc::from(l.db.unwrap());
                stress("C13", "rocksdb", d.clone(), seed, Duration::from_millis(900), cx.threads, false, rep);
                stress_final("C13", "rocksdb", &*d, seed, rep);
            }
            3 => indexing_races(h64(&(seed, "ix")), Duration::from_millis(1500), cx.threads.clamp(3, 6), rep),
            1 | 5 => std::thread::scope(|s| {
                for arena in 0..(cx.threads / 3).max(1) {
                    s.spawn(move || duels(h64(&(seed, arena)), Duration::from_millis(1500), rep));
                }
            }),
            _ => writers_round(seed, cx, rep),
        }
    }
    rep.note("rounds_total", json!(k));
}
/// Whether a write is two steps on a store without snapshots: selecting its single target, and writing to what was
/// selected.
fn selects(op: &Op) -> Option<&Q> {
    match op {
        Op::Delete(q) | Op::Set(q, _, _) => Some(q),
        _ => None,
    }
}
/// All states that some interleaving of the operations' steps leaves, given the observed results; true if one is `end`.
fn duel_explained(init: &Model, plan: &[Vec<(Op, LR)>], end: u64, seen: &mut std::collections::HashSet<u64>, m: &Model, at: &mut Vec<(usize, Option<bool>)>) -> bool {
    if !seen.insert(h64(&(model_hash(m), &*at))) {
        return false;
    }
    let mut done = true;
    for t in 0..plan.len() {
        let (k, captured) = at[t];
        let Some((op, res)) = plan[t].get(k) else { continue };
        done = false;
        let found = match (selects(op), captured) {
            (Some(q), None) => {
                let Ok(v) = m.eval(q, None) else { continue };
                at[t] = (k, Some(v.last().is_some_and(|x| x.out.len() > 0)));
                duel_explained(init, plan, end, seen, m, at)
            }
            (Some(_), Some(false)) => {
                at[t] = (k + 1, None);
                *res == LR::Unit && duel_explained(init, plan, end, seen, m, at)
            }
            _ => match lin::judge(m, op, Some(res)) {
                Some(m2) => {
                    at[t] = (k + 1, None);
                    duel_explained(init, plan, end, seen, &m2, at)
                }
                None => false,
            },
        };
        at[t] = (k, captured);
        if found {
            return true;
        }
    }
    done && model_hash(m) == end
}
/// A property becomes indexed while several threads write it, each to elements of its own: afterwards the index must say
/// exactly what the elements say.
fn indexing_races(seed: u64, dur: Duration, writers: usize, rep: &Report) {
    let t0 = Instant::now();
    let mut k = 0u64;
    while t0.elapsed() < dur && rep.nviol() < 4 {
        k += 1;
        let seed = h64(&(seed, k));
        crate::progress::doing(&format!("C13 indexing seed {seed}"));
        let mut r = Rng::new(seed);
        let mut l = Local::noisy(Kind::Rocks, [0, 0, 3][seed as usize % 3]).unwrap();
        let _dir = l.keep();
        let d: Arc<dyn Db> = Arc::from(l.db.unwrap());
        const OWN: u128 = 3;
        let id = |t: usize, j: u128| (t as u128) << 64 | j;
        let edge = |t: usize, j: u128, k: u128| EK::new(id(t, j), "e", id(t, k));
        let mut items = vec![];
        for t in 0..writers {
            for j in 0..OWN {
                items.push(Item::V(id(t, j), "t".into()));
            }
            for j in 0..OWN {
                items.push(Item::E(edge(t, j, 0)));
            }
        }
        // more to scan for the one that starts the index
        for j in 0..r.below(60) as u128 {
            items.push(Item::V(1 << 100 | j, "t".into()));
        }
        if let Err(e) = d.bulk(&items) {
            return rep.violation("C13:error", format!("bulk insertion answered {e:?}"), format!("seed {seed}"));
        }
        for round in 0..40 {
            let name = format!("n{round}");
            let start = std::sync::Barrier::new(writers + 1);
            let plans: Vec<Vec<Op>> = (0..writers)
                .map(|t| {
                    (0..r.range(3, 8))
                        .map(|_| {
                            let (j, v) = (r.below(OWN as usize) as u128, json!(r.below(3)));
                            let e = edge(t, j, 0);
                            match r.below(12) {
                                0..=2 => Op::Set(Q::SpecV(vec![id(t, j)]), name.clone(), v),
                                3..=5 => Op::Set(Q::SpecE(vec![e]), name.clone(), v),
                                6 => Op::Delete(Q::Props { inner: Box::new(Q::SpecV(vec![id(t, j)])), name: Some(name.clone()) }),
                                7 => Op::Delete(Q::Props { inner: Box::new(Q::SpecE(vec![e])), name: Some(name.clone()) }),
                                8 => Op::Delete(Q::SpecE(vec![e])),
                                9 => Op::Delete(Q::SpecV(vec![id(t, j)])),
                                _ => Op::Bulk(vec![Item::V(id(t, j), "t".into()), Item::V(id(t, 0), "t".into()), Item::E(e.clone()), Item::VP(id(t, j), name.clone(), v.clone()), Item::EP(e, name.clone(), v)]),
                            }
                        })
                        .collect()
                })
                .collect();
            let delay = r.below(3000) * r.below(3);
            let failed: Mutex<Option<String>> = Mutex::new(None);
            std::thread::scope(|s| {
                for plan in &plans {
                    let (d, start, failed) = (d.clone(), &start, &failed);
                    s.spawn(move || {
                        start.wait();
                        for op in plan {
                            let x = lin::observe(&*d, op);
                            if x != LR::Unit {
                                failed.lock().unwrap().get_or_insert(format!("{} answered {}", short(op), short(&x)));
                            }
                        }
                    });
                }
                start.wait();
                for _ in 0..delay {
                    std::hint::spin_loop();
                }
                if let Err(e) = d.index(&name) {
                    failed.lock().unwrap().get_or_insert(format!("indexing {name} answered {e:?}"));
                }
            });
            rep.eval(1);
            rep.count("indexing_races", 1);
            let bad = failed.into_inner().unwrap().or_else(|| index_agrees(&*d, &name).err());
            if let Some(what) = bad {
                return rep.violation("C13:indexing", format!("{name} became indexed while {writers} threads wrote it: {what}"), format!("seed {seed} round {round}\n{what}\n{plans:#?}"));
            }
            rep.distinct(&("indexing", seed, round));
        }
    }
}
/// What index queries for a property answer, against the properties of all elements.
fn index_agrees(d: &dyn Db, name: &str) -> Result<(), String> {
    let get = |q: Q| d.get(q.raw()).map_err(|e| format!("{q:?} failed: {e:?}")).map(|mut o| o.pop());
    let props = |q: Q| get(Q::Props { inner: Box::new(q), name: Some(name.to_string()) });
    let Some(Out::VP(vp)) = props(Q::AllV)? else { return Err("no vertex properties".into()) };
    let Some(Out::EP(ep)) = props(Q::AllE)? else { return Err("no edge properties".into()) };
    let mut vs: Vec<(String, String)> = vp.iter().flat_map(|x| x.1.iter().map(move |p| (format!("{:x}", x.0 .0), p.1.to_string()))).collect();
    let mut es: Vec<(String, String)> = ep.iter().flat_map(|x| x.1.iter().map(move |p| (format!("{:?}", x.0), p.1.to_string()))).collect();
    vs.sort();
    es.sort();
    let ids = |o: Option<Out>| -> Vec<String> {
        let mut v: Vec<String> = match o {
            Some(Out::V(v)) => v.iter().map(|x| format!("{:x}", x.0)).collect(),
            Some(Out::E(e)) => e.iter().map(|e| format!("{e:?}")).collect(),
            _ => vec!["?".into()],
        };
        v.sort();
        v
    };
    let mut asked = vec![(None, ids(get(Q::VHas(name.into()))?), ids(get(Q::EHas(name.into()))?))];
    for k in 0..3 {
        let v = json!(k);
        asked.push((Some(v.to_string()), ids(get(Q::VVal(name.into(), v.clone()))?), ids(get(Q::EVal(name.into(), v))?)));
    }
    for (v, gv, ge) in asked {
        for (what, all, got) in [("vertices", &vs, gv), ("edges", &es, ge)] {
            let want: Vec<String> = all.iter().filter(|x| v.as_ref().is_none_or(|v| *v == x.1)).map(|x| x.0.clone()).collect();
            if want != got {
                return Err(format!("the index lists the {what} {got:?} for value {v:?}, but these have it: {want:?}"));
            }
        }
    }
    Ok(())
}
/// Many tiny races of two or three writers on the same two vertices, each judged exactly.
fn duels(seed: u64, dur: Duration, rep: &Report) {
    crate::progress::doing(&format!("C13 duels seed {seed}"));
    let mut r = Rng::new(seed);
    let level = [0, 0, 2, 5][(seed >> 20) as usize % 4];
    let mut l = Local::noisy(Kind::Rocks, level).unwrap();
    let _dir = l.keep();
    let d: Arc<dyn Db> = Arc::from(l.db.unwrap());
    let names: Vec<String> = vec!["p".into(), "pp".into()];
    let mut ix = Vec::new();
    if r.chance(7, 8) {
        d.index("p").unwrap();
        ix.push("p".to_string());
    }
    let ids: Vec<Id> = vec![r.u128(), r.u128()];
    let edges = [EK::new(ids[0], "t", ids[1]), EK::new(ids[1], "t", ids[0]), EK::new(ids[0], "t", ids[0])];
    const N: usize = 3;
    let jobs: Mutex<Vec<Vec<(Op, usize)>>> = Mutex::new(vec![vec![]; N]);
    let answers: Mutex<Vec<Vec<LR>>> = Mutex::new(vec![vec![]; N]);
    let (go, ready, done, quit) = (AtomicU64::new(0), AtomicUsize::new(0), AtomicUsize::new(0), AtomicBool::new(false));
    let wait = |c: &dyn Fn() -> bool| {
        let mut n = 0u32;
        while !c() {
            n += 1;
            if n % 2000 == 0 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    };
    let run = |t: usize, d: &dyn Db| {
        let mine = std::mem::take(&mut jobs.lock().unwrap()[t]);
        ready.fetch_add(1, SeqCst);
        wait(&|| ready.load(SeqCst) >= N);
        let mut res = Vec::with_capacity(mine.len());
        for (op, delay) in &mine {
            for _ in 0..*delay {
                std::hint::spin_loop();
            }
            res.push(lin::observe(d, op));
        }
        answers.lock().unwrap()[t] = res;
        done.fetch_add(1, SeqCst);
    };
    std::thread::scope(|s| {
        for t in 1..N {
            let (d, go, quit, run, wait) = (d.clone(), &go, &quit, &run, &wait);
            s.spawn(move || {
                let mut round = 0;
                loop {
                    wait(&|| go.load(SeqCst) > round || quit.load(SeqCst));
                    if quit.load(SeqCst) {
                        return;
                    }
                    round += 1;
                    run(t, &*d);
                }
            });
        }
        let t0 = Instant::now();
        let mut n = 0u64;
        let mut indexed_pp = false;
        while t0.elapsed() < dur && rep.nviol() < 4 {
            n += 1;
            let val = |r: &mut Rng| json!(r.below(3));
            let name = |r: &mut Rng| if r.chance(1, 5) { "pp".to_string() } else { "p".to_string() };
            // what earlier duels left must go completely
            let mut bad = None;
            let mut init = Model::new(EdgeOrder::LenPrefixed);
            init.ix = ix.iter().cloned().collect();
            let mut prep = vec![Op::Delete(Q::AllV)];
            let full = vec![
                Item::V(ids[0], "t".into()),
                Item::V(ids[1], "t".into()),
                Item::E(edges[0].clone()),
                Item::E(edges[1].clone()),
                Item::E(edges[2].clone()),
            ];
            prep.push(Op::Bulk(full));
            for op in &prep {
                let res = lin::observe(&*d, op);
                match lin::judge(&init, op, Some(&res)) {
                    Some(m) => init = m,
                    None => bad = Some(("error", format!("{} answered {}", short(op), short(&res)))),
                }
            }
            if let (None, Err(e)) = (&bad, audit(&*d, &init, true)) {
                bad = Some(("orphans", format!("after deleting and re-creating what earlier writers left: {e}")));
            }
            let focus_e = r.chance(1, 2);
            let (fid, fe) = (r.below(2), r.below(3));
            let mut prep = Vec::new();
            for _ in 0..r.below(3) {
                let nm = name(&mut r);
                let v = val(&mut r);
                prep.push(if focus_e { Op::Set(Q::SpecE(vec![edges[fe].clone()]), nm, v) } else { Op::Set(Q::SpecV(vec![ids[fid]]), nm, v) });
            }
            match r.below(8) {
                0 => prep.push(Op::Delete(Q::SpecE(vec![edges[fe].clone()]))),
                1 => prep.push(Op::Delete(Q::SpecV(vec![ids[fid]]))),
                2 => prep.push(Op::Delete(Q::AllE)),
                _ => {}
            }
            for op in &prep {
                let res = lin::observe(&*d, op);
                match lin::judge(&init, op, Some(&res)) {
                    Some(m) => init = m,
                    None => bad = Some(("error", format!("{} answered {}", short(op), short(&res)))),
                }
            }
            let writers = if r.chance(1, 3) { 3 } else { 2 };
            let mut plan: Vec<Vec<(Op, usize)>> = vec![vec![]; N];
            for p in plan.iter_mut().take(writers) {
                for _ in 0..1 + r.below(5) / 4 {
                    let id = ids[if r.chance(3, 4) { fid } else { r.below(2) }];
                    let e = edges[if r.chance(3, 4) { fe } else { r.below(3) }].clone();
                    let nm = name(&mut r);
                    let v = val(&mut r);
                    let tgt = if focus_e { Q::SpecE(vec![e.clone()]) } else { Q::SpecV(vec![id]) };
                    let op = match r.below(13) {
                        0..=2 => Op::Set(tgt, nm, v),
                        3..=5 => Op::Delete(Q::Props { inner: Box::new(tgt), name: Some(nm) }),
                        6 => Op::Delete(tgt),
                        7 => Op::Delete(Q::SpecV(vec![id])),
                        8 => Op::CreateE(e),
                        9 => Op::CreateV(id, if r.chance(1, 2) { "t" } else { "u" }.into()),
                        10 | 11 => {
                            let mut items = Vec::new();
                            for x in [e.o, e.i, id] {
                                items.push(Item::V(x, "w".into()));
                            }
                            if focus_e {
                                items.push(Item::E(e.clone()));
                                items.push(Item::EP(e, nm, v));
                            } else {
                                items.push(Item::VP(id, nm, v));
                            }
                            Op::Bulk(items)
                        }
                        _ => {
                            if r.chance(1, 40) && !indexed_pp {
                                indexed_pp = true;
                                Op::Index("pp".into())
                            } else {
                                Op::Set(tgt, nm, v)
                            }
                        }
                    };
                    p.push((op, if r.chance(1, 2) { 0 } else { r.below(1500) }));
                }
            }
            let ops: Vec<Vec<Op>> = plan.iter().map(|p| p.iter().map(|x| x.0.clone()).collect()).collect();
            *jobs.lock().unwrap() = plan;
            ready.store(0, SeqCst);
            done.store(0, SeqCst);
            go.fetch_add(1, SeqCst);
            run(0, &*d);
            wait(&|| done.load(SeqCst) >= N);
            let res = std::mem::take(&mut *answers.lock().unwrap());
            *answers.lock().unwrap() = vec![vec![]; N];
            let plan: Vec<Vec<(Op, LR)>> = ops.into_iter().zip(res).map(|(a, b)| a.into_iter().zip(b).collect()).collect();
            if indexed_pp && !ix.contains(&"pp".to_string()) {
                ix.push("pp".to_string());
            }
            rep.eval(plan.iter().map(|p| p.len() as u64).sum());
            let kinds: Vec<String> = plan.iter().flatten().map(|x| opname(&x.0)).collect();
            rep.distinct(&("duel", &kinds, focus_e));
            for (op, res) in plan.iter().flatten() {
                if let LR::Err(e) = res {
                    bad.get_or_insert(("error", format!("{} failed: {e:?}", short(op))));
                }
            }
            if bad.is_none() {
                match self_consistent(&*d, EdgeOrder::LenPrefixed, &ix) {
                    Err(e) => bad = Some(("inconsistent", format!("after quiescence: {e}"))),
                    Ok(end) => {
                        let mut at = vec![(0, None); N];
                        let want = model_hash(&end);
                        rep.distinct(&("duel-end", want));
                        if !duel_explained(&init, &plan, want, &mut Default::default(), &init, &mut at) {
                            bad = Some(("outcome", format!("no order of the writes explains their results and the final state {}", short(&end))));
                        }
                    }
                }
            }
            if let Some((sig, e)) = bad {
                let what = format!("{e}; concurrent writers did {plan:?} in state {init:?}");
                rep.violation(&format!("C13:rocksdb:{sig}"), format!("{}", short(&what)), format!("duel arena seed {seed}, duel {n}\n{what}\nnames {names:?}"));
                break;
            }
        }
        rep.count("duels", n);
        quit.store(true, SeqCst);
    });
}
fn writers_round(seed: u64, cx: &Ctx, rep: &Report) {
    crate::progress::doing(&format!("C13 writers seed {seed}"));
    let mut r = Rng::new(seed);
    let mut l = Local::noisy(Kind::Rocks, [0, 0, 2, 5][(seed >> 20) as usize % 4]).unwrap();
    let path_keep = l.keep();
    let d: Arc<dyn Db> = Arc::from(l.db.unwrap());
    let shared = Pools::new(&mut r, 2 + (seed % 3) as usize, 2, 2, 4);
    let names = shared.names.clone();
    let mut indexed: Vec<String> = Vec::new();
    if r.chance(3, 4) {
        d.index(&names[0]).ok();
        indexed.push(names[0].clone());
    }
    let late_index = r.chance(1, 2);
    let fresh: Vec<Id> = (0..30).map(|_| r.u128()).collect();
    let wins: Vec<AtomicUsize> = fresh.iter().map(|_| AtomicUsize::new(0)).collect();
    let ready = AtomicUsize::new(0);
    let n = cx.threads.max(4);
    let failed: Mutex<Option<(String, String)>> = Mutex::new(None);
    let fail = |sig: &str, s: String| {
        failed.lock().unwrap().get_or_insert((sig.to_string(), s));
    };
    let steps = 60 + r.below(200);
    let privates: Mutex<Vec<(Model, Pools)>> = Mutex::new(Vec::new());
    let ctr = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..n {
            let (d, shared, names, fresh, wins, ready, fail, privates, ctr) = (d.clone(), &shared, &names, &fresh, &wins, &ready, &fail, &privates, &ctr);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (t as u64 + 1).wrapping_mul(0x5151_7171));
                // private part: judged exactly
                let mut pm = Model::new(EdgeOrder::LenPrefixed);
                let mut pp = Pools::new(&mut r, 3, 2, 2, 4);
                pp.ids = (0..3).map(|i| ((t as u128 + 1) << 100) + (r.u128() >> 40 << 8) + i).collect();
                pp.names = names.clone();
                ready.fetch_add(1, SeqCst);
                while ready.load(SeqCst) < n {
                    std::hint::spin_loop();
                }
                for k in 0..steps {
                    let f = k * fresh.len() / steps;
                    if r.chance(1, 6) || (k > 0 && (k - 1) * fresh.len() / steps != f) {
                        match d.create_vertex(fresh[f], "fresh") {
                            Ok(true) => {
                                wins[f].fetch_add(1, SeqCst);
                            }
                            Ok(false) => {}
                            Err(e) => fail("error", format!("create_vertex failed: {e:?}")),
                        }
                    }
                    if r.chance(1, 3) {
                        // private
                        let e = {
                            let o = *r.pick(&pp.ids);
                            let i = *r.pick(&pp.ids);
                            EK::new(o, r.pick(&pp.types), i)
                        };
                        let id = *r.pick(&pp.ids);
                        let val = pp.val(&mut r);
                        let name = pp.name(&mut r);
                        let op = match r.below(10) {
                            0..=1 => Op::CreateV(id, pp.types[0].clone()),
                            2..=3 => Op::CreateE(e),
                            4 => Op::Delete(Q::SpecV(vec![id])),
                            5 => Op::Delete(Q::SpecE(vec![e])),
                            6 => Op::Set(Q::SpecE(vec![e]), name, val),
                            7 => Op::Delete(Q::Props { inner: Box::new(Q::SpecV(vec![id])), name: Some(name) }),
                            8 => Op::Bulk(vec![Item::V(id, pp.types[0].clone()), Item::VP(id, name, val)]),
                            _ => Op::Set(Q::SpecV(pp.ids.clone()), name, val),
                        };
                        if let Err(e) = step_db(&*d, &mut pm, &op, rep, false) {
                            fail("private", format!("thread {t}: {} on data touched by no other thread: {e}", short(&op)));
                        }
                    } else {
                        let id = shared.id(&mut r);
                        let e = EK::new(shared.id(&mut r), &shared.t(&mut r), shared.id(&mut r));
                        let name = names[r.below(names.len())].clone();
                        let val = shared.val(&mut r);
                        let op = match r.below(16) {
                            0..=2 => Op::CreateV(id, shared.t(&mut r)),
                            3..=5 => Op::CreateE(e),
                            6..=7 => Op::Delete(Q::SpecV(vec![id])),
                            8 => Op::Delete(Q::SpecE(vec![e])),
                            9..=10 => Op::Set(Q::SpecV(shared.ids.clone()), name, val),
                            11..=12 => Op::Set(Q::SpecE(vec![e.clone()]), name, val),
                            13 => Op::Delete(Q::Props { inner: Box::new(Q::SpecV(vec![id])), name: Some(name) }),
                            14 => {
                                let o = shared.id(&mut r);
                                let e2 = EK::new(id, &shared.types[0], o);
                                Op::Bulk(vec![
                                    Item::V(id, shared.types[0].clone()),
                                    Item::V(o, shared.types[1].clone()),
                                    Item::E(e2.clone()),
                                    Item::VP(id, name.clone(), val.clone()),
                                    Item::EP(e2, name, val),
                                ])
                            }
                            _ => {
                                if late_index && r.chance(1, 20) {
                                    Op::Index(names[1].clone())
                                } else {
                                    Op::Set(Q::Pipe { inner: Box::new(Q::SpecV(vec![id])), dir: Dir::Out, limit: u32::MAX, t: None }, name, val)
                                }
                            }
                        };
                        match lin::observe(&*d, &op) {
                            LR::Err(e) => fail("error", format!("thread {t}: {} failed: {e:?}", short(&op))),
                            _ => {}
                        }
                        ctr.fetch_add(1, Relaxed);
                        rep.eval(1);
                        rep.distinct(&("op", opname(&op), t));
                    }
                }
                privates.lock().unwrap().push((pm, pp));
            });
        }
    });
    rep.count("writer_rounds", 1);
    rep.count("contended_ops", ctr.load(Relaxed));
    if late_index {
        d.index(&names[1]).ok();
        indexed.push(names[1].clone());
    }
    for (i, w) in wins.iter().enumerate() {
        let w = w.load(SeqCst);
        if w != 1 {
            fail("create-once", format!("{w} of several concurrent creations of vertex {:032x} reported success", fresh[i]));
        }
    }
    let verdict = |d: &dyn Db, stage: &str| -> Result<(), (String, String)> {
        let m = self_consistent(d, EdgeOrder::LenPrefixed, &indexed).map_err(|e| ("inconsistent".to_string(), format!("{stage}: {e}")))?;
        for (pm, _) in privates.lock().unwrap().iter() {
            for (id, t) in &pm.v {
                if m.v.get(id) != Some(t) {
                    return Err(("lost".into(), format!("{stage}: acknowledged vertex {id:032x} is missing")));
                }
            }
            for e in &pm.e {
                if !m.e.contains(e) {
                    return Err(("lost".into(), format!("{stage}: acknowledged edge {e:?} is missing")));
                }
            }
            for (k, v) in &pm.vp {
                if !m.vp.get(k).is_some_and(|x| same(x, v)) {
                    return Err(("lost".into(), format!("{stage}: acknowledged property {k:?} is missing or different: {:?}", m.vp.get(k))));
                }
            }
            for (k, v) in &pm.ep {
                if !m.ep.get(k).is_some_and(|x| same(x, v)) {
                    return Err(("lost".into(), format!("{stage}: acknowledged property {k:?} is missing or different: {:?}", m.ep.get(k))));
                }
            }
            for id in m.v.keys() {
                if id >> 100 == pm.v.keys().next().map(|x| x >> 100).unwrap_or(0) && id >> 100 != 0 && !pm.v.contains_key(id) {
                    return Err(("revived".into(), format!("{stage}: deleted vertex {id:032x} is present")));
                }
            }
        }
        rep.distinct(&("final", model_hash(&m)));
        rep.count(&format!("final_edges_{}", bucket(m.e.len())), 1);
        rep.count(&format!("final_props_{}", bucket(m.vp.len() + m.ep.len())), 1);
        Ok(())
    };
    if failed.lock().unwrap().is_none() {
        if let Err((s, e)) = verdict(&*d, "after quiescence") {
            fail(&s, e);
        }
    }
    // properties and index entries of owners that are gone become visible when the owners are created again
    if failed.lock().unwrap().is_none() {
        let mut m = dump(&*d, EdgeOrder::LenPrefixed, &indexed).unwrap();
        let mut all = vec![(Model::new(EdgeOrder::LenPrefixed), Pools { ids: shared.ids.clone(), types: shared.types.clone(), names: names.clone(), values: vec![] })];
        all.append(&mut privates.lock().unwrap());
        for (_, p) in &all {
            for op in resurrection(p, &m) {
                if let Err(e) = step_db(&*d, &mut m, &op, rep, false) {
                    fail("resurrect", format!("re-creating deleted elements: {} {e}", short(&op)));
                    break;
                }
            }
        }
        if let Err(e) = audit(&*d, &m, true) {
            fail("orphans", format!("after re-creating what was deleted: {e}"));
        }
    }
    if let Some((sig, s)) = failed.into_inner().unwrap() {
        rep.violation(&format!("C13:rocksdb:{sig}"), s.clone(), format!("round seed {seed}, {n} threads, {steps} steps each, indexed {indexed:?}, late index {late_index}\n{s}"));
    }
    drop(d);
    drop(path_keep);
}
