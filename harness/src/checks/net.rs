//! The gRPC client and server: transparency (C19), concurrent clients (C21), identifiers in requests (C10).
use super::conc;
use super::pure::valid_ident;
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::grpc::*;
use crate::lin::{self, Ev, LR};
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use indradb::Datastore;
use indradb_proto as pb;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Calls of every kind, all at once, on elements of their own, to a server whose datastore needs seconds for each: no
/// call may be given up, answered before it is done, or done twice.
pub fn sluggish(prop: &str, seed: u64, rep: &Report) {
    crate::progress::doing(&format!("{prop} slow datastore seed {seed}"));
    let mut r = Rng::new(seed);
    let db = indradb::Database::new(crate::noisy::Sluggish { inner: indradb::MemoryDatastore::new_db().datastore, millis: AtomicU64::new(0) });
    let srv = Srv::start_with(db, None, true);
    let mut m = Model::new(EdgeOrder::Plain);
    let id = |n: usize| ((n as u128 + 1) << 72) + 5;
    let v = |n: usize| Q::SpecV(vec![id(n)]);
    let e = |n: usize| EK::new(id(n), "e", id(n + 1));
    let props = |q: Q| Q::Props { inner: Box::new(q), name: None };
    const N: usize = 40;
    let mut items = vec![];
    for n in 0..N {
        items.push(Item::V(id(n), "t".into()));
        items.push(Item::VP(id(n), "p".into(), json!([n, "v"])));
    }
    for n in (0..N).step_by(2) {
        items.push(Item::E(e(n)));
        items.push(Item::EP(e(n), "p".into(), json!({"e": n})));
    }
    for op in [Op::Bulk(items), Op::Index("ix".into())] {
        if let Err(s) = step_db(&*srv.db, &mut m, &op, rep, false) {
            return rep.violation(&format!("{prop}:slow:prepare"), s, format!("seed {seed}"));
        }
    }
    let fresh = |n: usize| (0xfu128 << 120) + n as u128;
    let ops = vec![
        Op::CreateV(fresh(1), "new".into()),
        Op::CreateV(id(0), "other".into()),
        Op::CreateVT("made".into()),
        Op::CreateE(EK::new(id(1), "made", id(3))),
        Op::CreateE(EK::new(id(1), "made", fresh(9))),
        Op::Get(props(v(2))),
        Op::Get(Q::SpecE(vec![e(2)])),
        Op::Get(props(Q::SpecE(vec![e(4)]))),
        Op::Get(Q::Count(Box::new(v(4)))),
        Op::Get(props(Q::Incl(Box::new(v(6))))),
        Op::Get(v(77)),
        Op::Get(Q::VHas("never".into())),
        Op::Set(v(8), "p".into(), json!("changed")),
        Op::Set(Q::SpecE(vec![e(10)]), "p".into(), json!("changed")),
        Op::Set(v(12), "ix".into(), json!(1)),
        Op::Delete(v(14)),
        Op::Delete(Q::SpecE(vec![e(16)])),
        Op::Delete(props(v(18))),
        Op::Bulk(vec![Item::V(fresh(2), "b".into()), Item::VP(fresh(2), "p".into(), json!(2)), Item::V(fresh(3), "b".into()), Item::E(EK::new(fresh(2), "b", fresh(3)))]),
        Op::Bulk(vec![]),
        Op::Index("late".into()),
        Op::Sync,
    ];
    let clients: Vec<Grpc> = (0..3).map(|_| srv.client()).collect();
    let wait = r.range(700, 2600) as u64;
    srv.db.datastore.millis.store(wait, SeqCst);
    let answers: Vec<Mutex<Option<(LR, Duration)>>> = ops.iter().map(|_| Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for (k, op) in ops.iter().enumerate() {
            let (c, a) = (&clients[k % 3], &answers[k]);
            s.spawn(move || {
                let t = Instant::now();
                let res = lin::observe(c, op);
                *a.lock().unwrap() = Some((res, t.elapsed()));
            });
        }
    });
    srv.db.datastore.millis.store(0, SeqCst);
    rep.count("calls_to_a_slow_datastore", ops.len() as u64);
    for (op, a) in ops.iter().zip(&answers) {
        rep.eval(1);
        let (res, took) = a.lock().unwrap().take().map(|x| (Some(x.0), x.1)).unwrap_or_default();
        let writes = !matches!(op, Op::Get(_)) && *op != Op::Bulk(vec![]);
        if writes && took < Duration::from_millis(wait) {
            return rep.violation(
                &format!("{prop}:slow:early"),
                format!("with a datastore that takes {wait} ms per transaction, {} was answered {} after {took:?}, before it can have been done", short(op), short(&res)),
                format!("seed {seed}"),
            );
        }
        match res.as_ref().and_then(|x| lin::judge(&m, op, Some(x))) {
            Some(n) => m = n,
            None => {
                return rep.violation(
                    &format!("{prop}:slow"),
                    format!("with a datastore that takes {wait} ms per transaction, {} answered {}", short(op), short(&res)),
                    format!("seed {seed}"),
                )
            }
        }
        rep.distinct(&("slow", opname(op)));
    }
    if let Err(s) = audit(&*srv.db, &m, true) {
        rep.violation(&format!("{prop}:slow:state"), format!("after calls to a datastore that takes {wait} ms per transaction: {s}"), format!("seed {seed}"));
    }
}
/// One direction of a `Link`.
#[derive(Clone)]
struct Way {
    chunk: usize,
    /// one in so many chunks is late
    late: usize,
    /// after so many bytes nothing gets through for so many milliseconds
    stalls: Vec<(usize, u64)>,
    /// nothing beyond so many bytes gets through until this is raised
    upto: Arc<AtomicU64>,
    seen: Arc<AtomicU64>,
}
impl Way {
    fn new(chunk: usize, late: usize, stalls: Vec<(usize, u64)>) -> Way {
        Way { chunk, late, stalls, upto: Arc::new(AtomicU64::new(u64::MAX)), seen: Arc::default() }
    }
    async fn carry(mut self, mut from: tokio::net::tcp::OwnedReadHalf, mut to: tokio::net::tcp::OwnedWriteHalf, seed: u64) {
        use tokio::io::{AsyncReadExt, AsyncWriteExt};
        let mut r = Rng::new(seed);
        let mut buf = vec![0u8; self.chunk];
        let mut seen = 0usize;
        loop {
            while seen as u64 >= self.upto.load(SeqCst) {
                tokio::time::sleep(Duration::from_millis(3)).await;
            }
            let k = r.range(1, self.chunk).min((self.upto.load(SeqCst) - seen as u64).min(1 << 30) as usize);
            match from.read(&mut buf[..k]).await {
                Ok(0) | Err(_) => return,
                Ok(n) => {
                    seen += n;
                    while self.stalls.first().is_some_and(|x| x.0 <= seen) {
                        tokio::time::sleep(Duration::from_millis(self.stalls.remove(0).1)).await;
                    }
                    if self.late > 0 && r.chance(1, self.late) {
                        tokio::time::sleep(Duration::from_micros(r.below(4000) as u64)).await;
                    }
                    if to.write_all(&buf[..n]).await.is_err() {
                        return;
                    }
                    self.seen.store(seen as u64, SeqCst);
                }
            }
        }
    }
}
/// A network between a client and the server that is slow, stops for a while, and splits what it carries anywhere.
struct Link {
    addr: std::net::SocketAddr,
    task: tokio::task::JoinHandle<()>,
}
impl Drop for Link {
    fn drop(&mut self) {
        self.task.abort();
    }
}
fn link(server: std::net::SocketAddr, up: Way, down: Way, seed: u64) -> Link {
    let l = rt().block_on(tokio::net::TcpListener::bind("127.0.0.1:0")).expect("bind");
    let addr = l.local_addr().unwrap();
    let task = rt().spawn(async move {
        while let Ok((c, _)) = l.accept().await {
            let Ok(s) = tokio::net::TcpStream::connect(server).await else { return };
            let _ = (c.set_nodelay(true), s.set_nodelay(true));
            let ((cr, cw), (sr, sw)) = (c.into_split(), s.into_split());
            tokio::spawn(up.clone().carry(cr, sw, seed));
            tokio::spawn(down.clone().carry(sr, cw, seed ^ 1));
        }
    });
    Link { addr, task }
}
/// Large and small calls over links that are slow and at times stop for seconds, several clients at once: each call
/// has its usual result. And while one client's link carries nothing at all, in the middle of what it sends or
/// of what it is sent, the others are served; once it moves again, that client gets its usual result too.
pub fn slow_links(prop: &str, seed: u64, rep: &Report) {
    crate::progress::doing(&format!("{prop} slow links seed {seed}"));
    let mut r = Rng::new(seed);
    let srv = plain_mem_srv();
    let bad = |k: &str, what: String| rep.violation(&format!("{prop}:link:{k}"), what.clone(), format!("seed {seed}: {what}"));
    // (more than the windows and buffers on the way can hold, so that a stop is felt at both ends)
    let batch = |c: usize, at: usize, n: usize| -> Vec<Item> {
        let wide = if n > 1000 { 20 } else { 1 };
        (0..n)
            .map(|i| {
                let id = |k: usize| ((c as u128 + 1) << 100) + (at + k) as u128;
                match i % 4 {
                    0 | 1 => Item::V(id(i), format!("c{c}")),
                    2 => Item::E(EK::new(id(i - 1), &format!("c{c}"), id(i - 2))),
                    _ => Item::VP(id(i - 2), format!("p{c}"), json!({"i": i, "s": "v".repeat(i % 90 * wide)})),
                }
            })
            .collect()
    };
    let all = |c: usize| Q::RangeV { limit: u32::MAX, t: Some(format!("c{c}")), start: None };
    let props = |q: Q| Q::Props { inner: Box::new(q), name: None };
    // each client has elements of its own
    let plan = |c: usize, r: &mut Rng| -> Vec<Op> {
        let n = r.range(1500, 5000);
        vec![
            Op::Bulk(batch(c, 0, n)),
            Op::CreateVT(format!("made{c}")),
            Op::Get(Q::Count(Box::new(all(c)))),
            Op::Get(props(all(c))),
            Op::Bulk(batch(c, 10_000, 300)),
            Op::Set(Q::SpecV(vec![((c as u128 + 1) << 100) + 1]), "big".into(), json!("w".repeat(r.range(1000, 400_000)))),
            Op::Get(props(Q::SpecV(vec![((c as u128 + 1) << 100) + 1]))),
            Op::Delete(Q::RangeV { limit: 20, t: Some(format!("c{c}")), start: None }),
            Op::Get(Q::Incl(Box::new(Q::Pipe { inner: Box::new(all(c)), dir: Dir::Out, limit: u32::MAX, t: None }))),
        ]
    };
    const CLIENTS: usize = 3;
    let results: Vec<Mutex<Vec<(Op, LR)>>> = (0..CLIENTS).map(|_| Mutex::default()).collect();
    std::thread::scope(|s| {
        for (c, res) in results.iter().enumerate() {
            let mut r = r.fork(c as u64);
            let way = |r: &mut Rng| {
                let mut st: Vec<(usize, u64)> = (0..r.range(1, 3)).map(|_| (r.below(400_000), r.range(250, 1400) as u64)).collect();
                st.sort();
                Way::new([64, 700, 5000, 60_000][r.below(4)].max(if c == 0 { 0 } else { 512 }), [0, 50, 200][r.below(3)], st)
            };
            let (up, down) = (way(&mut r), way(&mut r));
            let ops = plan(c, &mut r);
            let l = link(srv.addr, up, down, seed ^ c as u64);
            s.spawn(move || {
                let g = Grpc::connect(l.addr);
                for op in ops {
                    let x = lin::observe(&g, &op);
                    res.lock().unwrap().push((op, x));
                }
                drop(l);
            });
        }
    });
    let mut m = Model::new(EdgeOrder::Plain);
    for (c, res) in results.into_iter().enumerate() {
        for (op, x) in res.into_inner().unwrap() {
            rep.eval(1);
            match lin::judge(&m, &op, Some(&x)) {
                Some(n) => m = n,
                None => return bad("result", format!("over a slow link, client {c}: {} answered {}", short(&op), short(&x))),
            }
            rep.distinct(&("slow-link", c, opname(&op)));
            rep.count("calls_over_slow_links", 1);
        }
    }
    // a link that stops
    let other = Grpc::connect(srv.addr);
    for (k, dir) in ["what it sends", "what it is sent"].iter().enumerate() {
        let (up, down) = (Way::new(4096, 0, vec![]), Way::new(4096, 0, vec![]));
        let way = if k == 0 { up.clone() } else { down.clone() };
        let l = link(srv.addr, up, down, seed);
        let g = Grpc::connect(l.addr);
        let c = 20 + k;
        if k == 1 {
            let op = Op::Bulk(batch(c, 0, 12_000));
            match lin::judge(&m, &op, Some(&lin::observe(&other, &op))) {
                Some(n) => m = n,
                None => return bad("prepare", format!("{} failed", short(&op))),
            }
        }
        let op = if k == 0 { Op::Bulk(batch(c, 0, 12_000)) } else { Op::Get(props(all(c))) };
        let at = way.seen.load(SeqCst) + r.range(500, 150_000) as u64;
        way.upto.store(at, SeqCst);
        let mut served: Result<(), String> = Ok(());
        let got = std::thread::scope(|s| {
            let h = s.spawn(|| lin::observe(&g, &op));
            let t0 = Instant::now();
            while way.seen.load(SeqCst) < at && t0.elapsed() < Duration::from_secs(20) && !h.is_finished() {
                std::thread::sleep(Duration::from_millis(2));
            }
            let stopped = way.seen.load(SeqCst) >= at && !h.is_finished();
            std::thread::sleep(Duration::from_millis(r.range(700, 2200) as u64));
            let ops = [
                Op::CreateV(((c as u128 + 9) << 90) + 1, "while".into()),
                Op::Get(Q::Count(Box::new(Q::AllV))),
                Op::Index(format!("while{c}")),
                Op::Bulk(vec![Item::V(((c as u128 + 9) << 90) + 2, "while".into())]),
                Op::Get(Q::SpecV(vec![((c as u128 + 9) << 90) + 2])),
                Op::Set(Q::SpecV(vec![((c as u128 + 9) << 90) + 1]), "q".into(), json!(1)),
                Op::Delete(Q::SpecV(vec![((c as u128 + 9) << 90) + 2])),
            ];
            let t1 = Instant::now();
            for o in &ops {
                let x = lin::observe(&other, o);
                rep.eval(1);
                match lin::judge(&m, o, Some(&x)) {
                    Some(n) => m = n,
                    None => {
                        served = Err(format!("while the link of another client was stopped in the middle of {dir}, {} answered {} after {:?}", short(o), short(&x), t1.elapsed()));
                        break;
                    }
                }
            }
            if stopped {
                rep.count(["calls_while_a_request_is_stopped", "calls_while_an_answer_is_stopped"][k], ops.len() as u64);
            }
            way.upto.store(u64::MAX, SeqCst);
            h.join().unwrap()
        });
        if let Err(e) = served {
            return bad("others", e);
        }
        rep.eval(1);
        match lin::judge(&m, &op, Some(&got)) {
            Some(n) => m = n,
            None => return bad("stopped", format!("over a link that stopped in the middle of {dir}: {} answered {}", short(&op), short(&got))),
        }
    }
    if let Err(s) = audit(&*srv.db, &m, true) {
        bad("state", format!("after calls over slow links: {}", s.chars().take(2000).collect::<String>()));
    }
    if !srv.alive() {
        bad("died", "the server stopped".into());
    }
}
// ---------------------------------------------------------------- C19
fn grpc_history<D: Datastore + Send + Sync + 'static>(s: &Srv<D>, order: EdgeOrder, label: &str, seed: u64, rep: &Report) {
    crate::progress::doing(&format!("C19 {label} history seed {seed}"));
    let mut r = Rng::new(seed);
    let p = Pools::new(&mut r, 7, 4, 3, 6);
    let w = Weights { create_v: 10, create_vt: 3, create_e: 14, bulk: 8, set: 12, del_elems: 6, del_props: 4, index: 3, get: 40, sync: 1, reopen: 0, wild: 6, depth: 5 };
    let g = s.client();
    let mut m = Model::new(order);
    let mut log: Vec<Op> = Vec::new();
    let fail = |log: &[Op], what: String| {
        let last = log.last().map(|o| opname(o)).unwrap_or_default();
        let k = last.split(':').next().unwrap_or("").split('[').next().unwrap_or("").to_string();
        rep.violation(
            &format!("C19:{label}:{k}"),
            format!("[{label}] step {} {}: {what}", log.len(), log.last().map(short).unwrap_or_default()),
            format!("seed {seed}\n{what}\n{}", log.iter().enumerate().map(|(i, o)| format!("{i:4} {}\n", short(o))).collect::<String>()),
        );
    };
    let len = 140;
    for k in 0..len {
        let op = gen_op(&p, &mut r, &m, &w);
        log.push(op.clone());
        // the same query asked directly and through the client
        if let Op::Get(q) = &op {
            let a = (*s.db).get(q.raw()).map(|o| o.iter().map(conv).collect::<Vec<_>>());
            let b = g.get(q.raw());
            match (&a, &b) {
                (Ok(x), Ok(y)) if outs_same(x, y) => rep.count("identical_answers", 1),
                // the order of index queries is not specified; these are compared with the model below
                (Ok(x), Ok(y)) if uses_index(&op) && x.len() == y.len() => {}
                (Err(x), Err(E::Other(t))) if t.contains(&x.to_string()) => rep.count("errors_passed_through", 1),
                (Err(_), Err(E::Other(_))) => rep.count("errors_reworded", 1),
                _ => return fail(&log, format!("direct answer {} but client answer {}", short(&a.map_err(|e| e.to_string())), short(&b))),
            }
            rep.eval(1);
        }
        let via_client = r.chance(4, 5);
        let d: &dyn Db = if via_client { &g } else { &*s.db };
        match step_db(d, &mut m, &op, rep, r.chance(1, 3)) {
            Ok(true) => {
                rep.eval(1);
                rep.distinct(&(opname(&op), m.v.len().min(3), m.e.len().min(4), m.ix.len().min(2)));
            }
            Ok(false) => {
                log.pop();
            }
            Err(e) => return fail(&log, e),
        }
        if k % 20 == 19 || k + 1 == len {
            for (n, d) in [("client", &g as &dyn Db), ("direct", &*s.db as &dyn Db)] {
                if let Err(e) = audit(d, &m, true) {
                    return fail(&log, format!("{n} view: {e}"));
                }
            }
            rep.count("full_audits", 2);
        }
    }
    rep.count("histories", 1);
    rep.distinct(&("state", model_hash(&m)));
    if !s.alive() {
        fail(&log, "the server stopped".into());
    }
}
pub fn outs_same(a: &[Out], b: &[Out]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Out::VP(x), Out::VP(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && props_same(&p.1, &q.1)),
            (Out::EP(x), Out::EP(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && props_same(&p.1, &q.1)),
            _ => x == y,
        })
}
fn props_same(a: &[(String, serde_json::Value)], b: &[(String, serde_json::Value)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && same(&x.1, &y.1))
}
/// Bulk inserts and results of sizes around every buffer in the path.
fn sizes<D: Datastore + Send + Sync + 'static>(s: &Srv<D>, order: EdgeOrder, label: &str, big: usize, seed: u64, rep: &Report) {
    let g = s.client();
    let mut r = Rng::new(seed);
    let mut m = Model::new(order);
    let fail = |what: String| rep.violation(&format!("C19:{label}:sizes"), what.clone(), format!("seed {seed}: {what}"));
    let mut base: Id = 1 << 90;
    for n in [0usize, 1, 2, 99, 100, 101, 199, 200, 201, 255, 256, 1000, 1023, 1024, 1025, 4096, big] {
        crate::progress::doing(&format!("C19 {label} bulk of {n}"));
        let t = format!("n{n}");
        let items: Vec<Item> = (0..n)
            .map(|i| match i % 4 {
                0 | 1 => Item::V(base + i as u128, t.clone()),
                2 => Item::E(EK::new(base + (i - 1) as u128, &t, base + (i - 2) as u128)),
                _ => Item::VP(base + (i - 2) as u128, "p".into(), json!({"i": i, "s": "v".repeat(i % 50)})),
            })
            .collect();
        base += n as u128 + 5;
        if let Err(e) = g.bulk(&items) {
            return fail(format!("bulk insert of {n} items failed: {e:?}"));
        }
        assert!(m.bulk(&items));
        rep.eval(n as u64);
        rep.distinct(&("bulk", n));
        let want = m.v.values().filter(|x| **x == t).count();
        match g.get(Q::Count(Box::new(Q::RangeV { limit: u32::MAX, t: Some(t.clone()), start: None })).raw()) {
            Ok(o) if o == vec![Out::C(want as u64)] => {}
            o => return fail(format!("after a bulk insert of {n} items: {} vertices expected, got {}", want, short(&o))),
        }
    }
    for (n, d) in [("client", &g as &dyn Db), ("direct", &*s.db as &dyn Db)] {
        crate::progress::doing(&format!("C19 {label} {n} audit of {} vertices", m.v.len()));
        if let Err(e) = audit(d, &m, false) {
            return fail(format!("{n} view after the bulk inserts: {}", e.chars().take(2000).collect::<String>()));
        }
    }
    // chunked specific queries with many ids, in a random order, with duplicates and missing ones
    let mut ids: Vec<Id> = m.v.keys().cloned().collect();
    r.shuffle(&mut ids);
    ids.truncate(2000);
    ids.push(ids[0]);
    ids.push(7);
    let q = Q::SpecV(ids);
    match (g.get(q.raw()), (*s.db).get(q.raw())) {
        (Ok(a), Ok(b)) if outs_same(&a, &b.iter().map(conv).collect::<Vec<_>>()) => {}
        (a, _) => fail(format!("specific query with 2000 ids: {}", short(&a))),
    }
    // many included outputs in one answer
    let mut q = Q::RangeV { limit: 3, t: None, start: None };
    for _ in 0..20 {
        q = Q::Incl(Box::new(q));
        q = Q::Pipe { inner: Box::new(q), dir: Dir::Out, limit: 50, t: None };
    }
    match (g.get(q.raw()), (*s.db).get(q.raw())) {
        (Ok(a), Ok(b)) if outs_same(&a, &b.iter().map(conv).collect::<Vec<_>>()) && a.len() == 21 => rep.eval(21),
        (a, b) => fail(format!("20 included outputs: {} vs {}", short(&a), b.map(|b| b.len()).unwrap_or(0))),
    }
}
/// Results above the transport's default message size.
fn large_results(rep: &Report, n: usize) {
    let s = plain_mem_srv();
    let g = s.client();
    let fail = |what: String| rep.violation("C19:memory:large-result", what.clone(), what);
    crate::progress::doing("C19 large results");
    let vs: Vec<indradb::BulkInsertItem> = (0..n).map(|i| item(&Item::V((1 << 70) + i as u128, "some_vertex_type".into()))).collect();
    (*s.db).bulk_insert(vs).unwrap();
    for q in [Q::AllV, Q::RangeV { limit: u32::MAX, t: None, start: None }] {
        let b = (*s.db).get(q.raw()).map(|o| o.iter().map(conv).collect::<Vec<_>>()).unwrap();
        match g.get(q.raw()) {
            Ok(a) if a == b => rep.eval(n as u64),
            a => return fail(format!("the direct call returns {} vertices, the client: {}", n, short(&a.map(|o| o.iter().map(|x| x.len()).collect::<Vec<_>>())))),
        }
    }
    rep.distinct(&("large", n));
    let v = json!("x".repeat(3_000_000));
    let e = g.set(Q::RangeV { limit: 3, t: None, start: None }.raw(), "big", &v);
    if e != Ok(()) {
        return fail(format!("setting a 3 MB property: {}", short(&e)));
    }
    let q = Q::Props { inner: Box::new(Q::RangeV { limit: 3, t: None, start: None }), name: None };
    let b = (*s.db).get(q.raw()).map(|o| o.iter().map(conv).collect::<Vec<_>>()).unwrap();
    match g.get(q.raw()) {
        Ok(a) if outs_same(&a, &b) => rep.eval(1),
        a => fail(format!("three 3 MB properties: {}", short(&a.map(|o| o.len())))),
    }
    rep.count("large_results", 3);
}
/// Conversions between the library's types and their wire form, without a server.
fn conversions(seed: u64, dur: Duration, rep: &Report) {
    let mut r = Rng::new(seed);
    let t0 = Instant::now();
    let mut n = 0u64;
    while t0.elapsed() < dur && rep.nviol() < 4 {
        let p = Pools::new(&mut r, 5, 3, 3, 5);
        let mut m = Model::new(EdgeOrder::Plain);
        for _ in 0..15 {
            let op = gen_op(&p, &mut r, &m, &Weights { get: 0, del_elems: 0, reopen: 0, sync: 0, ..Weights::default() });
            if let Some(x) = lin::judge(&m, &op, None) {
                m = x;
            }
        }
        for _ in 0..40 {
            n += 1;
            let q = if r.chance(1, 2) { p.q_any(&mut r, &m, 6) } else { p.q_wild(&mut r, &m, 6) };
            let iq = q.raw();
            let w: pb::Query = iq.clone().into();
            let bytes = prost::Message::encode_to_vec(&w);
            let w2 = <pb::Query as prost::Message>::decode(&bytes[..]);
            let back: Result<indradb::Query, _> = match w2 {
                Ok(w2) => w2.try_into().map_err(|e: pb::ConversionError| e.to_string()),
                Err(e) => Err(e.to_string()),
            };
            if back.as_ref() != Ok(&iq) {
                rep.violation("C19:convert:query", format!("{:?} became {}", q, short(&back)), format!("seed {seed}"));
            }
            rep.distinct(&q.shape());
            for it in p.bulk(&mut r, &m, 3) {
                let x = item(&it);
                let w: pb::BulkInsertItem = x.clone().into();
                let back: Result<indradb::BulkInsertItem, pb::ConversionError> = w.try_into();
                if !matches!(&back, Ok(b) if format!("{b:?}") == format!("{x:?}")) {
                    rep.violation("C19:convert:item", format!("{:?} became {:?}", it, back.map(|b| format!("{b:?}")).map_err(|e| e.to_string())), format!("seed {seed}"));
                }
                n += 1;
            }
            if let Ok(res) = m.eval(&q, None) {
                let _ = res;
            }
            let out = match r.below(5) {
                0 => indradb::QueryOutputValue::Vertices(m.v.iter().map(|(i, t)| vertex(*i, t)).collect()),
                1 => indradb::QueryOutputValue::Edges(m.e.iter().map(edge).collect()),
                2 => indradb::QueryOutputValue::Count([0, 1, u64::MAX, r.next()][r.below(4)]),
                3 => indradb::QueryOutputValue::VertexProperties(
                    m.v.iter()
                        .map(|(i, t)| indradb::VertexProperties::new(vertex(*i, t), m.vprops(*i).iter().map(|(n, v)| indradb::NamedProperty::new(ident(n), js(v))).collect()))
                        .collect(),
                ),
                _ => indradb::QueryOutputValue::EdgeProperties(
                    m.e.iter().map(|e| indradb::EdgeProperties::new(edge(e), m.eprops(e).iter().map(|(n, v)| indradb::NamedProperty::new(ident(n), js(v))).collect())).collect(),
                ),
            };
            let w: pb::QueryOutputValue = out.clone().into();
            let back: Result<indradb::QueryOutputValue, pb::ConversionError> = w.try_into();
            match back {
                Ok(b) if outs_same(&[conv(&b)], &[conv(&out)]) => {}
                b => rep.violation("C19:convert:output", format!("{} became {}", short(&out), short(&b.map_err(|e| e.to_string()))), format!("seed {seed}")),
            }
            n += 1;
        }
    }
    rep.count("conversions", n);
    rep.eval(n);
}
pub fn c19(cx: &Ctx, rep: &Report) {
    conversions(cx.seed, cx.dur(8), rep);
    sluggish("C19", h64(&(cx.seed, "slow")), rep);
    slow_links("C19", h64(&(cx.seed, "links")), rep);
    large_results(rep, 150_000);
    sizes(&plain_mem_srv(), EdgeOrder::Plain, "memory", if cx.thorough { 60_000 } else { 20_000 }, cx.seed, rep);
    sizes(&rocks_srv(), EdgeOrder::LenPrefixed, "rocksdb", if cx.thorough { 30_000 } else { 6_000 }, cx.seed, rep);
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..4 {
            s.spawn(|| {
                while t0.elapsed() < cx.dur(70) && rep.nviol() < 4 {
                    let k = next.fetch_add(1, Relaxed);
                    let seed = h64(&(cx.seed, "c19", k));
                    if k % 3 == 2 {
                        grpc_history(&rocks_srv(), EdgeOrder::LenPrefixed, "rocksdb", seed, rep);
                    } else {
                        grpc_history(&mem_srv(), EdgeOrder::Plain, "memory", seed, rep);
                    }
                }
            });
        }
    });
}

// ---------------------------------------------------------------- C21
/// As `conc::record`, but some calls are abandoned by their client after a random time.
fn record_net(clients: &[Grpc], ops: &[Vec<Op>], cancel: bool, seed: u64, rep: &Report) -> Vec<Ev> {
    let t0 = Instant::now();
    let out = Mutex::new(Vec::new());
    let barrier = std::sync::Barrier::new(ops.len());
    std::thread::scope(|s| {
        for (t, mine) in ops.iter().enumerate() {
            let (out, t0, barrier) = (&out, &t0, &barrier);
            let g = Grpc { c: clients[t % clients.len()].c.clone() };
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (t as u64 + 1).wrapping_mul(0xABCD_EF12_3457));
                let mut evs = Vec::new();
                barrier.wait();
                for op in mine {
                    let abandon = cancel && matches!(op, Op::Bulk(_) | Op::Set(..) | Op::Delete(_) | Op::CreateE(_) | Op::CreateV(..)) && r.chance(1, 4);
                    let call = lin::nanos(t0);
                    if abandon {
                        let us = [0, 0, 10, 40, 100, 250][r.below(6)] + r.below(40) as u64;
                        let done = abandoned_call(&g, op, Duration::from_micros(us));
                        rep.count(if done.is_some() { "abandoned_too_late" } else { "abandoned_calls" }, 1);
                        let ret = lin::nanos(t0);
                        evs.push(Ev { thread: t, op: op.clone(), call, ret: done.map(|d| (ret, d)) });
                    } else {
                        let res = lin::observe(&g, op);
                        let ret = lin::nanos(t0);
                        evs.push(Ev { thread: t, op: op.clone(), call, ret: Some((ret, res)) });
                    }
                }
                out.lock().unwrap().extend(evs);
            });
        }
    });
    out.into_inner().unwrap()
}
fn abandoned_call(g: &Grpc, op: &Op, after: Duration) -> Option<LR> {
    let mut c = g.c.clone();
    let op = op.clone();
    let fut = async move {
        let u = |r: Result<(), pb::ClientError>| r.map(|_| LR::Unit).unwrap_or_else(|e| LR::Err(E::Other(e.to_string())));
        match &op {
            Op::CreateV(id, t) => c.create_vertex(&vertex(*id, t)).await.map(LR::Bool).unwrap_or_else(|e| LR::Err(E::Other(e.to_string()))),
            Op::CreateE(e) => c.create_edge(&edge(e)).await.map(LR::Bool).unwrap_or_else(|e| LR::Err(E::Other(e.to_string()))),
            Op::Bulk(items) => u(c.bulk_insert(items.iter().map(item).collect()).await),
            Op::Set(q, n, v) => u(c.set_properties(q.raw(), ident(n), &js(v)).await),
            Op::Delete(q) => u(c.delete(q.raw()).await),
            _ => unreachable!(),
        }
    };
    rt().block_on(async move { tokio::time::timeout(after, fut).await.ok() })
}
pub fn c21(cx: &Ctx, rep: &Report) {
    sluggish("C21", h64(&(cx.seed, "slow")), rep);
    slow_links("C21", h64(&(cx.seed, "links")), rep);
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..3 {
            s.spawn(|| {
                while t0.elapsed() < cx.dur(53) && rep.nviol() < 4 {
                    let k = next.fetch_add(1, Relaxed);
                    let seed = h64(&(cx.seed, "c21", k));
                    crate::progress::doing(&format!("C21 round seed {seed}"));
                    let mut r = Rng::new(seed);
                    let srv = noisy_srv([0, 0, 2, 5][(seed >> 20) as usize % 4]);
                    let clients: Vec<Grpc> = (0..4).map(|_| srv.client()).collect();
                    let (th, per) = [(2, 6), (3, 5), (4, 5), (6, 4)][r.below(4)];
                    let p = match conc::plan(&*srv.db, &mut r, th, per, 10, rep) {
                        Ok(p) => p,
                        Err(e) => {
                            rep.violation("C21:memory:sequential", e, format!("seed {seed}"));
                            break;
                        }
                    };
                    let cancel = r.chance(1, 2);
                    let mut evs = record_net(&clients, &p.ops, cancel, seed, rep);
                    let lost: Vec<usize> = (0..evs.len()).filter(|i| evs[*i].ret.is_none()).collect();
                    if !lost.is_empty() {
                        // abandoned calls may still be running; wait until the state stops changing
                        settle(&*srv.db);
                    }
                    let names: Vec<String> = p.init.ix.iter().cloned().collect();
                    conc::final_audit(&clients[0], &mut evs, &p.init, &names);
                    if !lost.is_empty() {
                        rep.count("rounds_with_abandoned_calls", 1);
                    }
                    conc::judge_round("C21", "memory", seed, &p.init, &evs, rep);
                    if !srv.alive() {
                        rep.violation("C21:memory:server-died", "the server stopped".into(), format!("seed {seed}"));
                    }
                }
            });
        }
    });
    rep.note("lin_rounds", json!(next.load(Relaxed)));
    std::thread::scope(|s| {
        s.spawn(|| acked(&mem_srv(), "memory", h64(&(cx.seed, "acked", 1)), cx.dur(12), rep));
        s.spawn(|| acked(&rocks_srv(), "rocksdb", h64(&(cx.seed, "acked", 2)), cx.dur(12), rep));
    });
    let t1 = Instant::now();
    let mut k = 0;
    while t1.elapsed() < cx.dur(35) && rep.nviol() < 4 {
        k += 1;
        let srv = mem_srv();
        let seed = h64(&(cx.seed, "c21s", k));
        // abandoned bulk inserts while others work
        let stop = std::sync::atomic::AtomicBool::new(false);
        let slice = Duration::from_millis(if cx.thorough { 5000 } else { 2500 });
        std::thread::scope(|s| {
            let g = srv.client();
            let stop = &stop;
            s.spawn(move || {
                let mut r = Rng::new(seed);
                let base: Id = 0x7800 << 112;
                let mut n = 0u64;
                while !stop.load(SeqCst) {
                    let items: Vec<Item> = (0..AB).map(|i| Item::V(base + ((n as u128) << 20) + i as u128, format!("a{n}"))).collect();
                    let us = [r.below(200), r.below(600), r.below(2000)][r.below(3)] as u64;
                    if abandoned_call(&g, &Op::Bulk(items), Duration::from_micros(us)).is_none() {
                        rep.count("abandoned_bulk_inserts", 1);
                    }
                    n += 1;
                    if n > 400 {
                        std::thread::sleep(Duration::from_millis(5));
                    }
                }
            });
            conc::stress("C21", "memory", Arc::new(srv.client()), seed, slice, 6, true, rep);
            stop.store(true, SeqCst);
        });
        settle(&*srv.db);
        conc::stress_final("C21", "memory", &*srv.db, seed, rep);
        if rep.nviol() == 0 {
            // each abandoned insert took effect completely or not at all
            let vs = match (*srv.db).get(Q::AllV.raw()).map(|o| conv(&o[0])) {
                Ok(Out::V(v)) => v,
                o => {
                    rep.violation("C21:memory:blocked", format!("{:?}", o.map_err(|e| e.to_string())), format!("stress seed {seed}"));
                    return;
                }
            };
            let mut c = std::collections::BTreeMap::new();
            for (_, t) in vs {
                if t.starts_with('a') {
                    *c.entry(t).or_insert(0usize) += 1;
                }
            }
            rep.count("abandoned_bulk_inserts_applied", c.len() as u64);
            if let Some((t, n)) = c.iter().find(|x| *x.1 != AB) {
                rep.violation("C21:memory:partial-bulk", format!("{n} of {} items of abandoned bulk insert {t} were applied", AB), format!("stress seed {seed}"));
            }
        }
    }
}
/// What has been answered has happened: however much a call changes, whoever asks next, over whichever connection,
/// sees all of it.
fn acked<D: Datastore + Send + Sync + 'static>(s: &Srv<D>, label: &str, seed: u64, dur: Duration, rep: &Report) {
    let t0 = Instant::now();
    let mut r = Rng::new(seed);
    let clients: Vec<Grpc> = (0..3).map(|_| s.client()).collect();
    let mut k = 0u64;
    let _ = clients[0].index("q");
    while t0.elapsed() < dur && rep.nviol() < 4 {
        k += 1;
        let n = [1, 2, 33, 65, 100, 129, 257, 400, 1025, 2500][r.below(10)] + r.below(5);
        let t = format!("k{k}");
        let base: Id = (0x5100u128 << 112) + ((k as u128) << 32);
        let (a, b) = (r.below(3), r.below(3));
        let (a, b) = (&clients[a], &clients[b]);
        crate::progress::doing(&format!("C21 acknowledged {label} {n}"));
        let ids: Vec<Id> = (0..n as u128).map(|i| base + i).collect();
        let many = |inner: Q| -> Result<u64, String> {
            match b.get(Q::Count(Box::new(inner)).raw()).as_deref() {
                Ok([.., Out::C(c)]) => Ok(*c),
                o => Err(short(&o)),
            }
        };
        let look = |what: &str, done: Result<(), E>, inner: Q, want: u64| -> bool {
            let got = many(inner);
            rep.eval(1);
            rep.count("acknowledged_then_read", 1);
            rep.distinct(&("acked", label, what.to_string(), bucket(n)));
            match (&done, &got) {
                (Ok(()), Ok(c)) if *c == want => true,
                _ => {
                    let w = format!("[{label}] {what} of {n} elements was answered with {:?}; the next question is answered with {got:?} instead of {want}", done);
                    rep.violation(&format!("C21:{label}:unread-write"), w.clone(), format!("seed {seed} round {k}\n{w}"));
                    false
                }
            }
        };
        let spec = || Q::SpecV(ids.clone());
        let ring: Vec<EK> = (0..n).map(|i| EK { o: ids[i], t: t.clone(), i: ids[(i + 1) % n] }).collect();
        let mut items: Vec<Item> = ids.iter().map(|i| Item::V(*i, t.clone())).collect();
        let by_type = Q::RangeV { limit: u32::MAX, t: Some(t.clone()), start: Some(base) };
        if !look("bulk insert of vertices", a.bulk(&items), by_type.clone(), n as u64) {
            break;
        }
        items = ring.iter().cloned().map(Item::E).chain(ids.iter().map(|i| Item::VP(*i, format!("p{}", k % 7), json!(k)))).collect();
        if !look("bulk insert of edges and properties", a.bulk(&items), Q::SpecE(ring.clone()), n as u64) {
            break;
        }
        let name = format!("p{}", k % 7);
        if k < 8 && !look("indexing", a.index(&name), Q::VVal(name.clone(), json!(k)), n as u64) {
            break;
        }
        let has = Q::Has { inner: Box::new(spec()), name: "q".into(), exists: true };
        if !look("setting", a.set(spec().raw(), "q", &json!([k])), has.clone(), n as u64) {
            break;
        }
        let props = Q::Props { inner: Box::new(spec()), name: Some("q".into()) };
        if !look("deleting properties", a.delete(props.raw()), has, 0) {
            break;
        }
        if !look("deleting edges", a.delete(Q::SpecE(ring.clone()).raw()), Q::SpecE(ring.clone()), 0) {
            break;
        }
        if r.chance(3, 4) && !look("deleting vertices", a.delete(spec().raw()), by_type, 0) {
            break;
        }
    }
}
/// items of each abandoned bulk insert
const AB: usize = 3 * conc::GK;
fn uses_index(o: &Op) -> bool {
    fn q(x: &Q) -> bool {
        matches!(x, Q::VHas(_) | Q::VVal(..) | Q::EHas(_) | Q::EVal(..) | Q::Has { .. } | Q::Val { .. }) || x.inner().is_some_and(q)
    }
    match o {
        Op::Index(_) => true,
        Op::Get(x) | Op::Delete(x) | Op::Set(x, ..) => q(x),
        _ => false,
    }
}
/// Waits until nothing changes any more (abandoned calls have run out).
pub fn settle(d: &dyn Db) {
    let mut last = 0;
    let mut calm = 0;
    for _ in 0..400 {
        let h = conc::dump(d, EdgeOrder::Plain, &[]).map(|m| model_hash(&m)).unwrap_or(1);
        if h == last {
            calm += 1;
            if calm >= 4 {
                return;
            }
        } else {
            calm = 0;
        }
        last = h;
        std::thread::sleep(Duration::from_millis(4));
    }
}

// ---------------------------------------------------------------- C10 over gRPC
/// Every place of a request that carries an identifier accepts exactly the valid ones.
pub fn c10_net(cx: &Ctx, rep: &Report) {
    let s = mem_srv();
    let mut c = raw_client(s.addr);
    let mut r = Rng::new(cx.seed);
    let t0 = Instant::now();
    let uu = |n: u128| Some(pb::Uuid { value: uid(n).as_bytes().to_vec() });
    let mut cands: Vec<String> = special_idents();
    for bad in [" ", "a b", "a.b", "a\0", "é!", "😀", "a/b", "\u{200d}", "\u{feff}", "a\n", "\u{301}", "%", "a:b", "=", "\"", "\\", "\u{2010}", "①", "½"] {
        cands.push(bad.into());
    }
    cands.push("x".repeat(256));
    cands.push(format!("{}é", "x".repeat(254)));
    cands.push("é".repeat(128));
    cands.push("x".repeat(70_000));
    let mut k = 0u64;
    s.db.create_vertex(&vertex(1, "v")).unwrap();
    while t0.elapsed() < cx.dur(100) && rep.nviol() < 4 {
        k += 1;
        let t = if k as usize <= cands.len() {
            cands[k as usize - 1].clone()
        } else if r.chance(1, 2) {
            rand_ident(&mut r)
        } else {
            rand_string(&mut r)
        };
        let ok = valid_ident(&t);
        let i = || Some(pb::Identifier { value: t.clone() });
        let e = || Some(pb::Edge { outbound_id: uu(1), t: i(), inbound_id: uu(1) });
        let jv = || Some(pb::Json { value: "1".into() });
        let q = |v: pb::QueryVariant| pb::Query { query: Some(v) };
        let all = || Some(Box::new(pb::Query { query: Some(pb::QueryVariant::AllVertex(())) }));
        for site in 0..16 {
            crate::progress::doing(&format!("C10 net site {site} {:?}", t.chars().take(40).collect::<String>()));
            let before = h64(&format!("{:?}", conc::dump(&*s.db, EdgeOrder::Plain, &[])));
            let res: Result<(), tonic::Status> = rt().block_on(async {
                let get = |mut c: pb::ProtoClient<tonic::transport::Channel>, q: pb::Query| async move {
                    let mut st = c.get(q).await?.into_inner();
                    while let Some(_) = st.message().await? {}
                    Ok(())
                };
                match site {
                    0 => c.create_vertex(pb::Vertex { id: uu(2), t: i() }).await.map(|_| ()),
                    1 => c.create_vertex_from_type(pb::Identifier { value: t.clone() }).await.map(|_| ()),
                    2 => c.create_edge(e().unwrap()).await.map(|_| ()),
                    3 => c.set_properties(pb::SetPropertiesRequest { q: all().map(|x| *x), name: i(), value: jv() }).await.map(|_| ()),
                    4 => c.index_property(pb::IndexPropertyRequest { name: i() }).await.map(|_| ()),
                    5 => bulk1(&mut c, pb::BulkInsertItemVariant::Vertex(pb::Vertex { id: uu(3), t: i() })).await,
                    6 => bulk1(&mut c, pb::BulkInsertItemVariant::Edge(e().unwrap())).await,
                    7 => bulk1(&mut c, pb::BulkInsertItemVariant::VertexProperty(pb::VertexPropertyBulkInsertItem { id: uu(1), name: i(), value: jv() })).await,
                    8 => bulk1(&mut c, pb::BulkInsertItemVariant::EdgeProperty(pb::EdgePropertyBulkInsertItem { edge: e(), name: Some(pb::Identifier { value: "p".into() }), value: jv() })).await,
                    9 => get(c.clone(), q(pb::QueryVariant::RangeVertex(pb::RangeVertexQuery { limit: 1, t: i(), start_id: None }))).await,
                    10 => get(c.clone(), q(pb::QueryVariant::SpecificEdge(pb::SpecificEdgeQuery { edges: vec![e().unwrap()] }))).await,
                    11 => get(c.clone(), q(pb::QueryVariant::VertexWithPropertyPresence(pb::VertexWithPropertyPresenceQuery { name: i() }))).await,
                    12 => get(c.clone(), q(pb::QueryVariant::Pipe(Box::new(pb::PipeQuery { inner: all(), direction: 0, limit: 1, t: i() })))).await,
                    13 => get(c.clone(), q(pb::QueryVariant::PipeProperty(Box::new(pb::PipePropertyQuery { inner: all(), name: i() })))).await,
                    14 => get(c.clone(), q(pb::QueryVariant::PipeWithPropertyPresence(Box::new(pb::PipeWithPropertyPresenceQuery { inner: all(), name: i(), exists: true })))).await,
                    _ => get(c.clone(), q(pb::QueryVariant::EdgeWithPropertyValue(pb::EdgeWithPropertyValueQuery { name: i(), value: jv() }))).await,
                }
            });
            rep.eval(1);
            rep.distinct(&("net", site, t.len().min(300), ok));
            rep.count(if ok { "net_valid" } else { "net_invalid" }, 1);
            // queries on a name need it indexed, which site 4 did if it is valid
            let good = match &res {
                Ok(()) => ok,
                Err(st) => !ok && st.code() == tonic::Code::InvalidArgument,
            };
            let unchanged = ok || before == h64(&format!("{:?}", conc::dump(&*s.db, EdgeOrder::Plain, &[])));
            if !good || !unchanged {
                rep.violation(
                    "C10:grpc:identifier",
                    format!("request kind {site} with identifier {:?} ({} bytes, valid: {ok}): {} (changed: {})", t.chars().take(60).collect::<String>(), t.len(), res.map_err(|e| e.to_string()).map(|_| "accepted").unwrap_or_else(|e| { let _ = &e; "rejected" }), !unchanged),
                    format!("identifier {:?}", t),
                );
                break;
            }
        }
        if k % 50 == 0 {
            let _ = s.db.delete(Q::AllV.raw());
            s.db.create_vertex(&vertex(1, "v")).unwrap();
        }
    }
}
pub async fn bulk1(c: &mut pb::ProtoClient<tonic::transport::Channel>, v: pb::BulkInsertItemVariant) -> Result<(), tonic::Status> {
    c.bulk_insert(tokio_stream::iter(vec![pb::BulkInsertItem { item: Some(v) }])).await.map(|_| ())
}
