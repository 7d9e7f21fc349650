//! C18: bulk inserts against one-by-one insertion of the same items, their all-or-nothing effect, and refusals.
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::grpc::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use indradb::Datastore;
use indradb_proto as pb;
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

const LANES: [&str; 5] = ["memory", "memory-image", "rocksdb", "grpc-memory", "grpc-rocksdb"];
enum Place {
    L(Local),
    M(Srv<indradb::MemoryDatastore>, Grpc),
    R(Srv<indradb::RocksdbDatastore>, Grpc),
}
impl Place {
    fn new(lane: &str) -> Place {
        match lane {
            "memory" => Place::L(Local::new(Kind::Mem).unwrap()),
            "memory-image" => Place::L(Local::new(Kind::MemImg).unwrap()),
            "rocksdb" => Place::L(Local::new(Kind::Rocks).unwrap()),
            "grpc-memory" => {
                let s = mem_srv();
                let g = s.client();
                Place::M(s, g)
            }
            _ => {
                let s = rocks_srv();
                let g = s.client();
                Place::R(s, g)
            }
        }
    }
    fn d(&self) -> &dyn Db {
        match self {
            Place::L(l) => l.d(),
            Place::M(_, g) => g,
            Place::R(_, g) => g,
        }
    }
    /// The database itself, not through the client.
    fn direct(&self) -> &dyn Db {
        match self {
            Place::L(l) => l.d(),
            Place::M(s, _) => &*s.db,
            Place::R(s, _) => &*s.db,
        }
    }
}
fn order(lane: &str) -> EdgeOrder {
    if lane.ends_with("rocksdb") {
        EdgeOrder::LenPrefixed
    } else {
        EdgeOrder::Plain
    }
}
fn one_by_one(d: &dyn Db, items: &[Item]) -> Result<(), String> {
    for (k, it) in items.iter().enumerate() {
        let r = match it {
            Item::V(id, t) => d.create_vertex(*id, t).map(|_| ()),
            Item::E(e) => d.create_edge(e).map(|_| ()),
            Item::VP(id, n, v) => d.set(Q::SpecV(vec![*id]).raw(), n, v),
            Item::EP(e, n, v) => d.set(Q::SpecE(vec![e.clone()]).raw(), n, v),
        };
        r.map_err(|e| format!("item {k} {}: {e:?}", short(it)))?;
    }
    Ok(())
}
/// A list with many repetitions: the same properties again with values that differ slightly, known vertices with
/// other types, edges that exist.
fn list(p: &Pools, r: &mut Rng, m: &Model, n: usize) -> Vec<Item> {
    let mut items = p.bulk(r, m, n.min(300));
    let fam = families();
    let fam = r.pick(&fam).clone();
    while items.len() < n {
        // long lists: fresh vertices in between, so that they are really long
        let k = items.len() as u128;
        let id = (0xc18u128 << 100) + k;
        items.push(Item::V(id, p.t(r)));
        if r.chance(1, 3) {
            items.push(Item::VP(id, p.name(r), p.val(r)));
        }
        if r.chance(1, 4) {
            items.push(Item::E(EK { o: id, t: p.t(r), i: id }));
        }
    }
    let mut k = 0;
    while k < items.len() {
        if r.chance(1, 6) {
            // again, right away or later
            let at = if r.chance(1, 2) { k + 1 } else { r.range(k + 1, items.len()) };
            let again = match &items[k] {
                Item::V(id, _) => Item::V(*id, p.t(r)),
                Item::E(e) => Item::E(e.clone()),
                Item::VP(id, n, _) => Item::VP(*id, n.clone(), r.pick(&fam).clone()),
                Item::EP(e, n, _) => Item::EP(e.clone(), n.clone(), r.pick(&fam).clone()),
            };
            items.insert(at.min(items.len()), again);
        }
        k += if items.len() > 400 { 1 + r.below(8) } else { 1 };
    }
    items
}
fn twin(lane: &'static str, seed: u64, big: usize, rep: &Report) {
    crate::progress::doing(&format!("C18 {lane} seed {seed}"));
    let mut r = Rng::new(seed);
    let p = Pools::new(&mut r, 7, 4, 3, 8);
    let (mut a, mut b) = (Place::new(lane), Place::new(lane));
    let mut m = Model::new(order(lane));
    let mut log: Vec<Op> = Vec::new();
    let w = Weights { create_v: 14, create_vt: 0, create_e: 14, bulk: 3, set: 14, del_elems: 3, del_props: 3, index: 4, get: 0, sync: 0, reopen: 0, wild: 0, depth: 2 };
    let fail = |log: &[Op], kind: &str, what: String| {
        rep.violation(
            &format!("C18:{lane}:{kind}"),
            format!("[{lane}] {what}"),
            format!("seed {seed}\n{what}\n{}", log.iter().enumerate().map(|(i, o)| format!("{i:4} {}\n", short(o))).collect::<String>()),
        );
    };
    let rounds = r.range(2, 4);
    let mut evals = 0u64;
    for round in 0..rounds {
        let n = [0, 6, 25][r.below(3)];
        for (op, m2) in plan_ops(&p, &mut r, &m, &w, n) {
            log.push(op.clone());
            for pl in [&a, &b] {
                if let Err(e) = step_db(pl.d(), &mut m.clone(), &op, rep, false) {
                    return fail(&log, "before", e);
                }
            }
            m = m2;
        }
        let n = match r.below(12) {
            0 => 0,
            1 => 1,
            2 => 2,
            3..=7 => r.range(3, 30),
            8..=9 => r.range(30, 150),
            10 => r.range(150, 1100),
            _ => big,
        };
        let mut items = list(&p, &mut r, &m, n);
        let mut m2 = m.clone();
        assert!(m2.bulk(&items), "generator");
        if lane.contains("memory") && r.chance(2, 3) {
            // an edge whose ends are not there (yet) is passed over, as it is when it is created on its own
            let mut ids = p.ids.clone();
            ids.extend(items.iter().filter_map(|i| if let Item::V(id, _) = i { Some(*id) } else { None }));
            for _ in 0..1 + items.len() / 8 {
                let e = EK { o: *r.pick(&ids), t: p.t(&mut r), i: *r.pick(&ids) };
                let at = if r.chance(1, 3) { 0 } else { r.below(items.len() + 1) };
                items.insert(at, Item::E(e));
            }
            m2 = m.clone();
            if !m2.bulk(&items) {
                rep.count("lists_with_edges_before_their_ends", 1);
            }
        }
        log.push(Op::Bulk(items.clone()));
        if let Err(e) = a.d().bulk(&items) {
            return fail(&log, "refused", format!("bulk insert of {} valid items failed: {e:?}", items.len()));
        }
        // the twin gets them one at a time, over the same road unless that takes too long
        let d = if items.len() > 500 { b.direct() } else { b.d() };
        if let Err(e) = one_by_one(d, &items) {
            return fail(&log, "twin", e);
        }
        m = m2;
        rep.eval(items.len() as u64 + 1);
        evals += 1;
        rep.count("items", items.len() as u64);
        rep.count(&format!("lists_of_{}", bucket(items.len())), 1);
        rep.distinct(&(lane, bucket(items.len()), m.ix.len().min(3), m.e.len().min(6), round));
        rep.distinct(&("list", h64(&format!("{items:?}"))));
        let reopen = r.chance(1, 3);
        if reopen {
            for pl in [&mut a, &mut b] {
                if let Place::L(l) = pl {
                    if let Err(e) = l.reopen(1) {
                        return fail(&log, "reopen", format!("{e:?}"));
                    }
                }
            }
        }
        for (n, d) in [("bulk-inserted", a.d()), ("one by one", b.d()), ("bulk-inserted, seen directly", a.direct())] {
            if let Err(e) = audit(d, &m, true) {
                return fail(&log, "state", format!("{n}: {e}"));
            }
            rep.count("audits", 1);
        }
    }
    // later operations must not tell the two apart either
    let w = Weights { set: 20, del_elems: 14, del_props: 10, index: 3, ..w };
    let mut after: Vec<Op> = Vec::new();
    let mut mm = m.clone();
    for (op, m2) in plan_ops(&p, &mut r, &m, &w, 12) {
        after.push(op);
        mm = m2;
    }
    after.extend(resurrection(&p, &mm));
    for (n, pl) in [("bulk-inserted", &a), ("one by one", &b)] {
        let mut mx = m.clone();
        let mut l2 = log.clone();
        for op in &after {
            l2.push(op.clone());
            if let Err(e) = step_db(pl.direct(), &mut mx, op, rep, false) {
                return fail(&l2, "later", format!("{n}, then {}: {e}", short(op)));
            }
        }
        if let Err(e) = audit(pl.direct(), &mx, true) {
            return fail(&l2, "later", format!("{n}, after further operations: {e}"));
        }
    }
    rep.count("twins", evals);
    if seed % 13 == 0 {
        rep.sample(json!({"lane": lane, "seed": seed, "bulks": evals}));
    }
}

/// Readers during bulk inserts see none or all of one list's vertices, edges and property owners.
fn watched<D: Datastore + Send + Sync + 'static>(s: &Srv<D>, label: &str, sizes: &[usize], seed: u64, rep: &Report) {
    let g = s.client();
    let mut r = Rng::new(seed);
    let _ = s.db.index_property(ident("wp"));
    for (k, n) in sizes.iter().enumerate() {
        let n = *n;
        crate::progress::doing(&format!("C18 {label} watched bulk of {n}"));
        let t = format!("w{k}-{}", r.below(1 << 30));
        let base: Id = ((seed as u128) << 64 | (k as u128) << 40) + 1;
        let mut items = Vec::new();
        for i in 0..n as u128 {
            items.push(Item::V(base + i, t.clone()));
            items.push(Item::E(EK { o: base + i, t: t.clone(), i: base + i / 2 }));
            items.push(Item::VP(base + i, "wp".into(), json!(t)));
        }
        if r.chance(1, 2) {
            // kinds apart
            items.sort_by_key(|i| match i {
                Item::V(..) => 0,
                Item::E(..) => 1,
                _ => 2,
            });
        }
        let done = AtomicBool::new(false);
        let looks = AtomicU64::new(0);
        let bad: std::sync::Mutex<Option<String>> = Default::default();
        let via = r.chance(1, 2);
        let res = std::thread::scope(|sc| {
            for who in 0..3 {
                let (db, t, done, looks, bad) = (&s.db, &t, &done, &looks, &bad);
                sc.spawn(move || {
                    let q = match who {
                        0 => Q::Count(Box::new(Q::RangeV { limit: u32::MAX, t: Some(t.clone()), start: Some(base) })),
                        // the edges of the first vertices, in
                        1 => Q::Count(Box::new(Q::Pipe { inner: Box::new(Q::SpecV(vec![base])), dir: Dir::In, limit: u32::MAX, t: Some(t.clone()) })),
                        _ => Q::Count(Box::new(Q::VVal("wp".into(), json!(t)))),
                    };
                    let want = if who == 1 { n.min(2) as u64 } else { n as u64 };
                    let mut seen_all = false;
                    loop {
                        let last = done.load(SeqCst);
                        match Db::get(&**db, q.raw()).map(|o| o.last().cloned()) {
                            Ok(Some(Out::C(c))) => {
                                looks.fetch_add(1, Relaxed);
                                if c != 0 && c != want || seen_all && c == 0 || last && c != want {
                                    bad.lock().unwrap().get_or_insert(format!("{} counted {c} of {want} while a bulk insert of {n} was {}", ["vertices", "edges", "indexed values"][who], if last { "complete" } else { "running" }));
                                }
                                seen_all |= c == want;
                            }
                            o => {
                                bad.lock().unwrap().get_or_insert(format!("reading during a bulk insert: {o:?}"));
                            }
                        }
                        if last || bad.lock().unwrap().is_some() {
                            return;
                        }
                    }
                });
            }
            std::thread::sleep(Duration::from_millis(1));
            let d: &dyn Db = if via { &g } else { &*s.db };
            let x = d.bulk(&items);
            if x.is_err() {
                bad.lock().unwrap().get_or_insert(format!("bulk insert of {} items failed: {x:?}", items.len()));
            }
            done.store(true, SeqCst);
            x
        });
        let _ = res;
        rep.eval(items.len() as u64);
        rep.count("reads_during_bulk_inserts", looks.load(Relaxed));
        rep.distinct(&("watched", label, n, via, looks.load(Relaxed).min(20)));
        if let Some(b) = bad.into_inner().unwrap() {
            return rep.violation(&format!("C18:{label}:unit"), format!("[{label}] {b}"), format!("seed {seed}: {n} vertices with an edge and a property each, {}: {b}", if via { "through the client" } else { "locally" }));
        }
    }
}

/// One item of a stream is invalid: the call fails and nothing happens.
fn refused<D: Datastore + Send + Sync + 'static>(s: &Srv<D>, order: EdgeOrder, label: &str, seed: u64, dur: Duration, rep: &Report) {
    let t0 = Instant::now();
    let mut r = Rng::new(seed);
    let p = Pools::new(&mut r, 6, 3, 3, 6);
    let mut m = Model::new(order);
    for op in plan_ops(&p, &mut r, &m, &Weights { create_v: 10, create_vt: 0, create_e: 10, bulk: 1, set: 10, del_elems: 0, del_props: 0, index: 2, get: 0, sync: 0, reopen: 0, wild: 0, depth: 1 }, 40) {
        if let Err(e) = step_db(&*s.db, &mut m, &op.0, rep, false) {
            return rep.violation(&format!("C18:{label}:before"), e, format!("seed {seed}"));
        }
    }
    let mut c = raw_client(s.addr);
    while t0.elapsed() < dur {
        let n = [1, 2, r.range(3, 40), r.range(90, 320), r.range(900, 2400)][if r.chance(1, 12) { 4 } else { r.below(4) }];
        let mut items: Vec<pb::BulkInsertItem> = list(&p, &mut r, &m, n).iter().map(|i| item(i).into()).collect();
        let at = [0, items.len() / 2, items.len().saturating_sub(1), r.below(items.len().max(1))][r.below(4)].min(items.len());
        use pb::bulk_insert_item::Item as I;
        let goodv = || pb::Vertex { id: Some(uid(77).into()), t: Some(pb::Identifier { value: "t".into() }) };
        let goode = || pb::Edge { outbound_id: Some(uid(77).into()), t: Some(pb::Identifier { value: "t".into() }), inbound_id: Some(uid(78).into()) };
        let badid = || Some(pb::Identifier { value: "not an identifier!".into() });
        let goodj = || Some(pb::Json { value: "1".into() });
        let goodi = || Some(pb::Identifier { value: "p".into() });
        let (what, bad) = match r.below(16) {
            0 => ("no item", None),
            1 => ("vertex without id", Some(I::Vertex(pb::Vertex { id: None, ..goodv() }))),
            2 => ("vertex without type", Some(I::Vertex(pb::Vertex { t: None, ..goodv() }))),
            3 => ("vertex with a short id", Some(I::Vertex(pb::Vertex { id: Some(pb::Uuid { value: vec![1; 15] }), ..goodv() }))),
            4 => ("vertex with a bad type", Some(I::Vertex(pb::Vertex { t: badid(), ..goodv() }))),
            5 => ("edge without type", Some(I::Edge(pb::Edge { t: None, ..goode() }))),
            6 => ("edge with a bad type", Some(I::Edge(pb::Edge { t: badid(), ..goode() }))),
            7 => ("edge without an end", Some(I::Edge(pb::Edge { inbound_id: None, ..goode() }))),
            8 => ("edge with a long id", Some(I::Edge(pb::Edge { outbound_id: Some(pb::Uuid { value: vec![1; 17] }), ..goode() }))),
            9 => ("vertex property with a bad name", Some(I::VertexProperty(pb::VertexPropertyBulkInsertItem { id: Some(uid(77).into()), name: badid(), value: goodj() }))),
            10 => ("vertex property without name", Some(I::VertexProperty(pb::VertexPropertyBulkInsertItem { id: Some(uid(77).into()), name: None, value: goodj() }))),
            11 => ("vertex property without value", Some(I::VertexProperty(pb::VertexPropertyBulkInsertItem { id: Some(uid(77).into()), name: goodi(), value: None }))),
            12 => ("vertex property with broken JSON", Some(I::VertexProperty(pb::VertexPropertyBulkInsertItem { id: Some(uid(77).into()), name: goodi(), value: Some(pb::Json { value: "{".into() }) }))),
            13 => ("edge property without edge", Some(I::EdgeProperty(pb::EdgePropertyBulkInsertItem { edge: None, name: goodi(), value: goodj() }))),
            14 => ("edge property with a bad name", Some(I::EdgeProperty(pb::EdgePropertyBulkInsertItem { edge: Some(goode()), name: badid(), value: goodj() }))),
            _ => ("edge property with broken JSON", Some(I::EdgeProperty(pb::EdgePropertyBulkInsertItem { edge: Some(goode()), name: goodi(), value: Some(pb::Json { value: "[1,".into() }) }))),
        };
        let bad = pb::BulkInsertItem { item: bad };
        items.insert(at, bad);
        let total = items.len();
        let slow = r.chance(1, 4);
        let res = rt().block_on(async {
            tokio::time::timeout(PATIENCE, async {
                if slow {
                    // in pieces, so that the server has time to act on what it has
                    let (tx, rx) = tokio::sync::mpsc::channel(8);
                    let f = tokio::spawn(async move {
                        for (k, i) in items.into_iter().enumerate() {
                            if tx.send(i).await.is_err() {
                                return;
                            }
                            if k % 32 == 31 {
                                tokio::time::sleep(Duration::from_millis(1)).await;
                            }
                        }
                    });
                    let x = c.bulk_insert(tokio_stream::wrappers::ReceiverStream::new(rx)).await;
                    f.abort();
                    x
                } else {
                    c.bulk_insert(tokio_stream::iter(items)).await
                }
            })
            .await
        });
        rep.eval(1);
        rep.count("lists_with_an_invalid_item", 1);
        rep.distinct(&("invalid", label, what, at.min(3), bucket(total), slow));
        let ctx = format!("{what} at position {at} of {total}");
        match res {
            Err(_) => return rep.violation(&format!("C18:{label}:hang"), format!("[{label}] no answer to a bulk insert with {ctx}"), format!("seed {seed}")),
            Ok(Ok(_)) => return rep.violation(&format!("C18:{label}:accepted"), format!("[{label}] a bulk insert with {ctx} was accepted"), format!("seed {seed}")),
            Ok(Err(_)) => {}
        }
        if let Err(e) = audit(&*s.db, &m, true) {
            return rep.violation(&format!("C18:{label}:partial"), format!("[{label}] a refused bulk insert ({ctx}) changed the database: {e}"), format!("seed {seed}"));
        }
    }
}

pub fn c18(cx: &Ctx, rep: &Report) {
    let t0 = Instant::now();
    let big = if cx.thorough { 12_000 } else { 3_000 };
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..cx.threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, Relaxed);
                    if t0.elapsed() > cx.dur(60) || rep.nviol() >= 6 {
                        return;
                    }
                    let lane = LANES[[0, 1, 2, 2, 3, 4, 0, 2][k as usize % 8]];
                    twin(lane, h64(&(cx.seed, k)), big, rep);
                })
                .unwrap();
        }
    });
    let sizes: &[usize] = if cx.thorough { &[1, 3, 40, 300, 5_000, 40_000, 120_000, 700, 60_000] } else { &[2, 50, 700, 9_000, 300, 25_000] };
    std::thread::scope(|s| {
        s.spawn(|| watched(&mem_srv(), "memory", sizes, h64(&(cx.seed, 1)), rep));
        s.spawn(|| watched(&rocks_srv(), "rocksdb", sizes, h64(&(cx.seed, 2)), rep));
        s.spawn(|| refused(&mem_srv(), EdgeOrder::Plain, "grpc-memory", h64(&(cx.seed, 3)), cx.dur(25), rep));
        s.spawn(|| refused(&rocks_srv(), EdgeOrder::LenPrefixed, "grpc-rocksdb", h64(&(cx.seed, 4)), cx.dur(25), rep));
    });
}
