//! C25: workloads for the sanitizers and the interpreter, and the monitor of what operations leave behind.
//! What is judged here is memory, threads and text; whether answers are right is the business of the other checks.
use super::conc;
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::lin;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use indradb::{self as ind, util, Database, Datastore, Transaction};
use indradb_plugin_host as plugin;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Cursor;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

const SLOW: bool = cfg!(miri);

// ---------------------------------------------------------------- single-threaded histories
fn history_of(kind: Kind, seed: u64, rep: &Report) {
    let w = Weights { reopen: if kind == Kind::Mem { 0 } else { 2 }, sync: if kind == Kind::Mem { 0 } else { 1 }, wild: 3, ..Weights::default() };
    let cfg = Cfg {
        prop: "C25",
        kind,
        w,
        len: if SLOW { 24 } else { 120 },
        audit_every: if SLOW { 23 } else { 16 },
        pools: (4, 2, 2, 4),
        full_index: true,
        warm: if SLOW { 10 } else { 20 },
        resurrect: false,
    };
    let other = Report::default();
    let n = history(&cfg, seed, &other);
    rep.eval(n as u64);
    rep.count("history_operations", n as u64);
    for d in &other.i.lock().unwrap().distinct {
        rep.distinct(d);
    }
    disagreements(&other, rep);
}
/// Operations and nested queries one after the other, nothing compared.
fn lean(seed: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    let db = ind::MemoryDatastore::new_db();
    let p = Pools::new(&mut r, 4, 2, 2, 4);
    let mut m = Model::new(EdgeOrder::Plain);
    let w = Weights { create_v: 14, create_e: 20, set: 20, get: 30, index: 4, reopen: 0, sync: 0, wild: 3, depth: 4, ..Weights::default() };
    for k in 0..if SLOW { 60 } else { 200 } {
        let op = if k < 4 { Op::CreateV(p.ids[k], p.t(&mut r)) } else { gen_op(&p, &mut r, &m, &w) };
        let ok = match &op {
            Op::CreateV(i, t) => {
                m.create_v(*i, t);
                Db::create_vertex(&db, *i, t).is_ok()
            }
            Op::CreateE(e) => {
                m.create_e(e);
                Db::create_edge(&db, e).is_ok()
            }
            Op::CreateVT(t) => db.create_vertex_t(t).is_ok(),
            Op::Bulk(v) => db.bulk(v).is_ok(),
            Op::Set(q, n, v) => db.set(q.raw(), n, v).is_ok(),
            Op::Delete(q) => Db::delete(&db, q.raw()).is_ok(),
            Op::Index(n) => db.index(n).is_ok(),
            Op::Get(q) => Db::get(&db, q.raw()).is_ok(),
            _ => true,
        };
        rep.eval(1);
        rep.distinct(&(opname(&op), ok));
        if k == 30 {
            rep.sample(serde_json::json!({"operation": format!("{op:?}"), "accepted": ok, "seed": seed}));
        }
        rep.count("plain_operations", 1);
    }
}
/// Wrong answers and panics are counted; strings that are not text are judged at the end.
fn disagreements(other: &Report, rep: &Report) {
    let n = other.nviol();
    if n > 0 {
        rep.count("answers_left_to_other_checks", n as u64);
    }
}

// ---------------------------------------------------------------- iterators of one transaction, many alive at once
fn iterators<D: Datastore>(db: &Database<D>, m: &Model, p: &Pools, r: &mut Rng, rep: &Report) {
    with_txn(&db.datastore, |t| {
        enum It<'a> {
            V(ind::DynIter<'a, ind::Vertex>),
            E(ind::DynIter<'a, ind::Edge>),
            I(ind::DynIter<'a, uuid::Uuid>),
            P(ind::DynIter<'a, (ind::Identifier, ind::Json)>),
        }
        let mut open: Vec<It> = Vec::new();
        let mut seen = 0u64;
        for _ in 0..if SLOW { 30 } else { 120 } {
            let fresh = match r.below(12) {
                0 => t.all_vertices().ok().map(It::V),
                1 => t.range_vertices(uid(p.id(r))).ok().map(It::V),
                2 => t.specific_vertices((0..r.below(4)).map(|_| uid(p.id(r))).collect()).ok().map(It::V),
                3 => t.all_edges().ok().map(It::E),
                4 => t.range_edges(edge(&p.edge(r, Some(m)))).ok().map(It::E),
                5 => t.range_reversed_edges(edge(&p.edge(r, Some(m)))).ok().map(It::E),
                6 => t.specific_edges((0..r.below(4)).map(|_| edge(&p.edge(r, Some(m)))).collect()).ok().map(It::E),
                7 => t.vertex_ids_with_property(ident(&p.name(r))).ok().flatten().map(It::I),
                8 => t.vertex_ids_with_property_value(ident(&p.name(r)), &js(&p.val(r))).ok().flatten().map(It::I),
                9 => t.edges_with_property(ident(&p.name(r))).ok().flatten().map(It::E),
                10 => t.edges_with_property_value(ident(&p.name(r)), &js(&p.val(r))).ok().flatten().map(It::E),
                _ => {
                    let v = vertex(p.id(r), &p.t(r));
                    t.all_vertex_properties_for_vertex(&v).ok().map(It::P)
                }
            };
            open.extend(fresh);
            // a few steps on any of them
            for _ in 0..r.below(4) {
                if open.is_empty() {
                    break;
                }
                let k = r.below(open.len());
                let more = match &mut open[k] {
                    It::V(i) => i.next().map(|x| x.map(|v| text(&v.t).len())),
                    It::E(i) => i.next().map(|x| x.map(|e| ek(&e).t.len())),
                    It::I(i) => i.next().map(|x| x.map(|i| did(i) as u8 as usize)),
                    It::P(i) => i.next().map(|x| x.map(|(n, v)| text(&n).len() + v.to_string().len())),
                };
                std::hint::black_box(&more);
                seen += 1;
                if more.is_none() || r.chance(1, 5) {
                    open.swap_remove(k);
                }
            }
            if r.chance(1, 10) {
                open.clear();
            }
        }
        rep.count("iterator_steps", seen);
        rep.eval(seen);
    });
}
fn populated<D: Datastore + Send + Sync>(db: &Database<D>, order: EdgeOrder, p: &Pools, r: &mut Rng) -> Model {
    let mut m = Model::new(order);
    if SLOW {
        for i in &p.ids {
            m.create_v(*i, &p.types[0]);
            let _ = Db::create_vertex(db, *i, &p.types[0]);
        }
        let _ = db.index(&p.names[0]);
        for _ in 0..5 {
            let e = EK::new(p.id(r), &p.t(r), p.id(r));
            m.create_e(&e);
            let _ = Db::create_edge(db, &e);
            let _ = db.set(Q::SpecE(vec![e]).raw(), &p.name(r), &p.val(r));
        }
        let _ = db.set(Q::AllV.raw(), &p.name(r), &p.val(r));
        return m;
    }
    let w = Weights { create_v: 10, create_vt: 0, create_e: 20, bulk: 2, set: 12, del_elems: 0, del_props: 0, index: 3, get: 0, sync: 0, reopen: 0, wild: 0, depth: 1 };
    let junk = Report::default();
    for _ in 0..if SLOW { 14 } else { 40 } {
        let op = gen_op(p, r, &m, &w);
        let _ = step_db(db, &mut m, &op, &junk, false);
    }
    m
}
fn strange_calls(d: &dyn Db, p: &Pools, r: &mut Rng, m: &Model, rep: &Report) {
    let w = Weights { wild: 40, get: 60, sync: 0, reopen: 0, create_vt: 0, depth: 6, ..Weights::default() };
    for _ in 0..if SLOW { 8 } else { 40 } {
        let ok = match r.below(3) {
            0 => {
                let c = tcall(r, p);
                rep.distinct(&("call", std::mem::discriminant(&c)));
                matches!(d.txn(&c), Ok(_))
            }
            1 => d.bulk(&hostile_items(r, p)).is_ok(),
            _ => match gen_op(p, r, m, &w) {
                Op::Get(q) => d.get(q.raw()).is_ok(),
                Op::Delete(q) => d.delete(q.raw()).is_ok(),
                Op::Set(q, n, v) => d.set(q.raw(), &n, &v).is_ok(),
                _ => true,
            },
        };
        rep.eval(1);
        rep.count(if ok { "strange_calls_accepted" } else { "strange_calls_refused" }, 1);
    }
}

// ---------------------------------------------------------------- threads
fn threads(seed: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    let d: Arc<dyn Db> = Arc::from(Local::new(Kind::Mem).unwrap().db.unwrap());
    let other = Report::default();
    let (th, per, warm) = if SLOW { (3, 3, 6) } else { (4, 8, 20) };
    let Ok(p) = conc::plan(&*d, &mut r, th, per, warm, &other) else { return };
    let evs = conc::record(&[d.clone()], &p.ops, seed);
    rep.eval(evs.len() as u64);
    rep.count("concurrent_operations", evs.len() as u64);
    rep.count("overlapping_pairs", conc::overlaps(&evs));
    if !SLOW {
        let mut evs = evs;
        let names: Vec<String> = p.init.ix.iter().cloned().collect();
        conc::final_audit(&*d, &mut evs, &p.init, &names);
        if let lin::Verdict::Bad(..) = lin::check(&p.init, &evs, 40_000) {
            rep.count("answers_left_to_other_checks", 1);
        }
    }
}
/// Readers of several kinds and writers on one store with whole-graph effects, without any recording between them.
fn contention(d: Arc<dyn Db>, seed: u64, dur: Duration, rep: &Report) {
    let n = AtomicU64::new(0);
    let t0 = Instant::now();
    let p = Pools::new(&mut Rng::new(seed), 5, 2, 2, 4);
    std::thread::scope(|s| {
        for t in 0..4u64 {
            let (d, p, n) = (d.clone(), &p, &n);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (t + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15));
                let w = Weights { sync: 1, reopen: 0, wild: 2, ..Weights::default() };
                let m = Model::new(EdgeOrder::Plain);
                while t0.elapsed() < dur {
                    let _ = match gen_op(p, &mut r, &m, &w) {
                        Op::CreateV(i, t) => d.create_vertex(i, &t).map(|_| ()),
                        Op::CreateVT(t) => d.create_vertex_t(&t).map(|_| ()),
                        Op::CreateE(e) => d.create_edge(&e).map(|_| ()),
                        Op::Bulk(v) => d.bulk(&v),
                        Op::Set(q, n, v) => d.set(q.raw(), &n, &v),
                        Op::Delete(q) => d.delete(q.raw()),
                        Op::Index(n) => d.index(&n),
                        Op::Get(q) => d.get(q.raw()).map(|_| ()),
                        Op::Sync => d.sync(),
                        Op::Reopen(_) => Ok(()),
                    };
                    n.fetch_add(1, Relaxed);
                    crate::progress::tick();
                }
            });
        }
    });
    rep.eval(n.load(Relaxed));
    rep.count("contended_operations", n.load(Relaxed));
}
struct Collect {
    seen: Mutex<BTreeMap<Id, usize>>,
    fail: Option<Id>,
    panic: Option<Id>,
    n: usize,
}
impl plugin::util::VertexMapper for Collect {
    fn num_threads(&self) -> usize {
        self.n
    }
    fn map(&self, v: ind::Vertex) -> Result<(), plugin::Error> {
        let t = text(&v.t);
        let i = did(v.id);
        if Some(i) == self.panic {
            QUIET.with(|q| q.set(true));
            panic!("mapper");
        }
        if Some(i) == self.fail {
            return Err(plugin::Error::Other("mapper".into()));
        }
        *self.seen.lock().unwrap_or_else(|e| e.into_inner()).entry(i).or_default() += t.len();
        Ok(())
    }
}
fn mapping<D: Datastore>(db: &Database<D>, m: &Model, r: &mut Rng, rep: &Report) {
    let ids: Vec<Id> = m.v.keys().cloned().collect();
    let some = |r: &mut Rng, on: bool| (on && !ids.is_empty()).then(|| *r.pick(&ids));
    let how = r.below(4);
    let c = Arc::new(Collect { seen: Mutex::default(), fail: some(r, how == 1), panic: some(r, how == 2), n: r.range(1, 4) });
    with_txn(&db.datastore, |t| {
        let _ = plugin::util::map(t, c.clone());
    });
    // nothing of the call may still be running
    let left = Arc::strong_count(&c);
    rep.eval(1);
    rep.count("maps", 1);
    rep.count("mapped_vertices", c.seen.lock().unwrap_or_else(|e| e.into_inner()).len() as u64);
    if left != 1 && how != 1 {
        rep.count("maps_with_late_workers", 1);
    }
}
fn identifiers(seed: u64, rep: &Report) {
    let n = 4;
    let go = Barrier::new(n);
    let all: Mutex<Vec<Vec<ind::Identifier>>> = Mutex::default();
    let words: Vec<String> = (0..if SLOW { 12 } else { 200 }).map(|k| format!("w{}-{}", seed % 64, k)).collect();
    std::thread::scope(|s| {
        for t in 0..n {
            let (go, all, words) = (&go, &all, &words);
            s.spawn(move || {
                go.wait();
                let mut mine = Vec::new();
                for k in 0..words.len() {
                    let w = &words[(k + t * 3) % words.len()];
                    if let Ok(i) = ind::Identifier::new(w.clone()) {
                        mine.push(i);
                    }
                    let v = ind::Vertex::new(ind::Identifier::default());
                    std::hint::black_box(v.id);
                }
                mine.sort();
                all.lock().unwrap().push(mine);
            });
        }
    });
    let all = all.into_inner().unwrap();
    for a in &all {
        for (x, y) in a.iter().zip(&all[0]) {
            std::hint::black_box((x == y, text(x) == text(y), x.cmp(y)));
        }
    }
    rep.eval((n * words.len()) as u64);
    rep.count("identifiers_made_concurrently", (n * words.len()) as u64);
}

// ---------------------------------------------------------------- keys
/// Reading keys that end where their buffer ends, whole, cut short and with a length that promises more.
fn codec(r: &mut Rng, rep: &Report) {
    let (names, values) = if SLOW { (vec!["".to_string(), "a".into(), "b\u{e9}".into(), "\u{65e5}".repeat(85)], vec![json!(1), json!({"a": ["b"]})]) } else { (special_idents(), special_values()) };
    for _ in 0..if SLOW { 20 } else { 200 } {
        let (a, b, n, k) = (uid(r.u128()), uid(r.u128()), r.pick(&names).clone(), r.pick(&names).clone());
        let (n, k) = (ident(&n), ident(&k));
        let v = js(r.pick(&values));
        let whole = util::build(&[util::Component::Uuid(a), util::Component::Identifier(n), util::Component::Json(&v), util::Component::Uuid(b), util::Component::Identifier(k), util::Component::FixedLengthString("tail")]);
        let cut = match r.below(3) {
            0 => whole.len(),
            _ => r.below(whole.len() + 1),
        };
        // an allocation of exactly this size
        let mut bytes: Box<[u8]> = whole[..cut].to_vec().into_boxed_slice();
        let lying = r.chance(1, 3) && cut > 16;
        if lying {
            // (the text of a key is trusted; its extent cannot be)
            bytes[16] = 255;
        }
        let mut c = Cursor::new(bytes);
        let mut ok = 0;
        let _ = (|| -> ind::Result<()> {
            util::read_uuid(&mut c)?;
            ok += 1;
            let x = unsafe { util::read_identifier(&mut c)? };
            if !lying {
                std::hint::black_box(text(&x));
            }
            ok += 1;
            util::read_u64(&mut c)?;
            ok += 1;
            if !lying {
                util::read_uuid(&mut c)?;
                ok += 1;
                let y = unsafe { util::read_identifier(&mut c)? };
                std::hint::black_box(text(&y));
                ok += 1;
                util::read_fixed_length_string(&mut c)?;
                ok += 1;
            }
            Ok(())
        })();
        rep.eval(1);
        rep.distinct(&("codec", ok, lying, cut == whole.len(), n.len().min(20)));
        rep.count("keys_decoded", 1);
    }
}
/// Images cut short or altered: refused or read, but never anything else.
fn images(r: &mut Rng, rep: &Report) {
    let dir = scratch();
    let path = dir.path().join("image");
    let db = ind::MemoryDatastore::create_msgpack_db(&path);
    let p = Pools::new(r, 4, 2, 2, 4);
    populated(&db, EdgeOrder::Plain, &p, r);
    if db.sync().is_err() {
        return;
    }
    let whole = std::fs::read(&path).unwrap_or_default();
    for _ in 0..if SLOW { 4 } else { 40 } {
        let mut b = whole.clone();
        match r.below(3) {
            0 => b.truncate(r.below(b.len() + 1)),
            1 => {
                for _ in 0..r.range(1, 4) {
                    let k = r.below(b.len());
                    b[k] = r.u128() as u8;
                }
            }
            _ => {}
        }
        std::fs::write(&path, &b).unwrap();
        let got = guard(|| ind::MemoryDatastore::read_msgpack_db(&path).map_err(|e| E::Other(format!("{e}"))));
        rep.eval(1);
        match got {
            Ok(d) => {
                rep.count("images_read", 1);
                // whatever it holds, it can be looked at
                for q in [Q::AllV, Q::AllE, Q::Props { inner: Box::new(Q::AllV), name: None }] {
                    let _ = Db::get(&d, q.raw());
                }
            }
            Err(_) => rep.count("images_refused", 1),
        }
    }
}

// ---------------------------------------------------------------- what stays behind
#[derive(Clone, Copy, Debug, Default)]
struct Mark {
    cycle: u64,
    heap: i64,
    stored: i64,
    fds: i64,
    threads: i64,
}
fn entries(dir: &str) -> i64 {
    std::fs::read_dir(dir).map(|d| d.count() as i64).unwrap_or(0)
}
/// One round trip from an empty graph to an empty graph, with ids and values never used before.
fn cycle(d: &dyn Db, order: EdgeOrder, names: &[String], types: &[String], seed: u64, bare: bool) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let mut p = Pools::new(&mut r, 6, 1, 1, 2);
    p.ids = (0..6).map(|_| r.u128()).collect();
    p.types = types.to_vec();
    p.names = names.to_vec();
    // (connections have buffers that come and go; what is left behind must stand out from them)
    let filler = |r: &mut Rng| format!("{:032x}{:032x}", r.u128(), r.u128()).repeat(if bare { 64 } else { 2 });
    p.values = (0..5).map(|k| if k % 2 == 0 { json!(filler(&mut r)) } else { json!({"k": [k, filler(&mut r)]}) }).collect();
    let junk = Report::default();
    let mut m = Model::new(order);
    m.ix.extend(names[..2].iter().cloned());
    let un = |q: Q| Box::new(q);
    let w = Weights { create_v: 14, create_vt: 0, create_e: 20, bulk: 5, set: 22, del_elems: 4, del_props: 5, index: 0, get: 10, sync: 0, reopen: 0, wild: 0, depth: 3 };
    let mut n = 0;
    for k in 0..if bare { 12 } else { 24 } {
        let op = match k {
            // on nothing at all, with a value nobody has
            3 => Op::Set(Q::SpecV(vec![r.u128()]), names[0].clone(), json!(filler(&mut r))),
            5 => Op::Set(Q::SpecE(vec![EK::new(r.u128(), &types[0], r.u128())]), names[0].clone(), json!(filler(&mut r))),
            7 => Op::Set(Q::Pipe { inner: un(Q::SpecV(vec![r.u128()])), dir: Dir::In, limit: 5, t: None }, names[1].clone(), json!(filler(&mut r))),
            9 => Op::Delete(Q::SpecV(vec![r.u128()])),
            10 => Op::Get(Q::VHas("never-indexed".into())),
            11 => Op::Set(Q::AllV, names[0].clone(), json!(filler(&mut r))),
            _ => gen_op(&p, &mut r, &m, &w),
        };
        // (what the answers are is not the question here)
        n += 1;
        if step_db(d, &mut m, &op, &junk, false).is_err() {
            // (the reference has lost track; what is still written might leave orphans)
            break;
        }
    }
    match seed % 3 {
        0 => {
            let _ = d.delete(Q::AllE.raw());
        }
        1 => {
            let _ = d.delete(Q::Props { inner: un(Q::AllV), name: None }.raw());
        }
        _ => {}
    }
    d.delete(Q::AllV.raw()).map_err(|e| format!("deleting everything: {e:?}"))?;
    Ok(n + 1)
}
/// Repeats `cycle` and judges how what the process and the store hold develops.
fn lane(label: &str, d: &dyn Db, order: EdgeOrder, seed: u64, dur: Duration, stored: &dyn Fn() -> i64, extra: &dyn Fn(u64), rep: &Report) {
    let names: Vec<String> = ["heap-a", "heap-b", "heap-c"].iter().map(|s| s.to_string()).collect();
    let types: Vec<String> = ["heap-t", "heap-u"].iter().map(|s| s.to_string()).collect();
    for n in &names[..2] {
        let _ = d.index(n);
    }
    let t0 = Instant::now();
    let mut marks: Vec<Mark> = Vec::with_capacity(64);
    let (mut k, mut ops) = (0u64, 0u64);
    let slots = 24u32;
    while t0.elapsed() < dur {
        crate::progress::doing(&format!("C25 heap {label} cycle {k}"));
        match cycle(d, order, &names, &types, h64(&(seed, label, k)), label.starts_with("grpc")) {
            Ok(n) => ops += n,
            Err(e) => {
                rep.inconclusive(format!("{label}: {e}"));
                return;
            }
        }
        extra(k);
        k += 1;
        if t0.elapsed() >= dur * (marks.len() as u32 + 1) / slots {
            // what is still on its way out (answers, closed connections) gets a moment
            let s = stored();
            let settle = if label.starts_with("grpc") { 40 } else { 1 };
            let mut best = Mark { cycle: k, heap: i64::MAX, stored: s, fds: i64::MAX, threads: i64::MAX };
            for i in 0..settle {
                best.heap = best.heap.min(crate::heap::live());
                best.fds = best.fds.min(entries("/proc/self/fd"));
                best.threads = best.threads.min(entries("/proc/self/task"));
                if i + 1 < settle {
                    std::thread::sleep(Duration::from_millis(2));
                }
            }
            marks.push(best);
        }
    }
    rep.eval(ops);
    rep.count(&format!("cycles_{label}"), k);
    for c in 0..k.min(2000) {
        rep.distinct(&(label, "cycle", c));
    }
    if marks.len() < 9 {
        rep.inconclusive(format!("{label}: only {} marks", marks.len()));
        return;
    }
    // the first third warms up caches, pools and tables
    let third = marks.len() / 3;
    let (mid, last) = (&marks[third..2 * third], &marks[2 * third..]);
    let cycles = (last[0].cycle - mid[0].cycle).max(1) as f64;
    let low = |v: &[Mark], f: &dyn Fn(&Mark) -> i64| v.iter().map(f).min().unwrap();
    rep.note(&format!("marks_{label}"), json!(marks.iter().step_by(4).map(|m| json!([m.cycle, m.heap, m.stored, m.fds, m.threads])).collect::<Vec<_>>()));
    type F = fn(&Mark) -> i64;
    // (what, measure, growth per cycle, growth in all)
    let rules: [(&str, F, f64, i64); 4] =
        [("heap", |m| m.heap, 16.0, if label.starts_with("grpc") { 200_000 } else { 24_000 }), ("stored", |m| m.stored, 0.2, 60), ("files", |m| m.fds, 0.02, 12), ("threads", |m| m.threads, 0.02, 12)];
    for (what, f, per, total) in rules {
        let g = low(last, &f) - low(mid, &f);
        if g as f64 >= per * cycles && g >= total {
            rep.violation(
                &format!("C25:{label}:{what}-grows"),
                format!("{label}: repeating operations that leave the graph empty makes {what} grow by {:.1} per round ({} over {} rounds)", g as f64 / cycles, g, cycles),
                format!("seed {seed} lane {label}\nmarks (cycle, heap bytes, stored, open files, threads):\n{}", marks.iter().map(|m| format!("{m:?}")).collect::<Vec<_>>().join("\n")),
            );
        }
    }
}
#[cfg(feature = "full")]
fn rocks_rows(p: &std::path::Path) -> i64 {
    let o = rocksdb::Options::default();
    let Ok(cfs) = rocksdb::DB::list_cf(&o, p) else { return 0 };
    let Ok(db) = rocksdb::DB::open_cf_for_read_only(&o, p, &cfs, false) else { return 0 };
    cfs.iter().filter_map(|c| db.cf_handle(c)).map(|c| db.iterator_cf(c, rocksdb::IteratorMode::Start).count() as i64).sum()
}
#[cfg(feature = "full")]
fn heap(cx: &Ctx, rep: &Report) {
    use crate::grpc::*;
    crate::heap::start();
    let nothing = |_: u64| {};
    let zero = || 0;
    {
        let l = Local::new(Kind::Mem).unwrap();
        lane("memory", l.d(), EdgeOrder::Plain, cx.seed, cx.dur(15), &zero, &nothing, rep);
    }
    {
        let l = Local::new(Kind::MemImg).unwrap();
        let stored = || {
            let _ = l.d().sync();
            std::fs::metadata(&l.path).map(|m| m.len() as i64 / 16).unwrap_or(0)
        };
        lane("memory-image", l.d(), EdgeOrder::Plain, cx.seed, cx.dur(15), &stored, &nothing, rep);
    }
    {
        let l = Local::new(Kind::Rocks).unwrap();
        let stored = || rocks_rows(&l.path);
        lane("rocksdb", l.d(), EdgeOrder::LenPrefixed, cx.seed, cx.dur(25), &stored, &nothing, rep);
    }
    {
        let db = ind::MemoryDatastore::new_db();
        let maps = |k: u64| {
            let junk = Report::default();
            let mut r = Rng::new(k);
            let mut p = Pools::new(&mut r, 4, 1, 1, 1);
            // (identifiers are kept for ever, by design)
            (p.types, p.names) = (vec!["heap-t".into()], vec!["heap-a".into()]);
            let mut m = Model::new(EdgeOrder::Plain);
            for i in &p.ids {
                let _ = Db::create_vertex(&db, *i, "heap-t");
                m.v.insert(*i, "heap-t".into());
            }
            if k % 4 == 0 {
                // one value shared by very many elements
                let v = json!(format!("{:032x}", r.u128()).repeat(64));
                let items: Vec<Item> = (0..1500u128).map(|i| Item::V(r.u128() ^ i, "heap-t".into())).collect();
                let _ = Db::bulk(&db, &items);
                let _ = Db::set(&db, Q::AllV.raw(), "heap-a", &v);
                let _ = Db::get(&db, Q::Props { inner: Box::new(Q::AllV), name: None }.raw());
                let _ = Db::delete(&db, Q::SpecV(items.iter().filter_map(|i| if let Item::V(i, _) = i { Some(*i) } else { None }).collect()).raw());
            }
            mapping(&db, &m, &mut r, &junk);
            strange_iterators(&db, &m, &p, &mut r, &junk);
            let _ = Db::delete(&db, Q::AllV.raw());
        };
        QUIET.with(|q| q.set(true));
        lane("map", &db, EdgeOrder::Plain, cx.seed, cx.dur(10), &zero, &maps, rep);
    }
    let s = mem_srv();
    let g = s.client();
    let addr = s.addr;
    let abandon = |k: u64| {
        if k % 8 == 0 {
            // a client that comes, asks, does not wait for the answer, and goes
            let mut c = raw_client(addr);
            rt().block_on(async {
                let v = indradb_proto::Query::from(Q::AllV.raw());
                let _ = tokio::time::timeout(Duration::from_micros(300), c.get(v)).await;
            });
        }
    };
    lane("grpc-memory", &g, EdgeOrder::Plain, cx.seed, cx.dur(20), &zero, &abandon, rep);
    let s = rocks_srv();
    let g = s.client();
    lane("grpc-rocksdb", &g, EdgeOrder::LenPrefixed, cx.seed, cx.dur(15), &zero, &nothing, rep);
}
#[cfg(feature = "full")]
fn strange_iterators<D: Datastore>(db: &Database<D>, m: &Model, p: &Pools, r: &mut Rng, rep: &Report) {
    iterators(db, m, p, r, rep)
}

// ---------------------------------------------------------------- mixtures
/// In-memory only; everything an interpreter can run.
fn small(seed: u64, what: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    let t0 = Instant::now();
    match what % 9 {
        0 if !SLOW => history_of(Kind::Mem, seed, rep),
        0 | 1 => lean(seed, rep),
        2 => {
            let db = ind::MemoryDatastore::new_db();
            let p = Pools::new(&mut r, 4, 2, 2, 4);
            let m = populated(&db, EdgeOrder::Plain, &p, &mut r);
            iterators(&db, &m, &p, &mut r, rep);
        }
        3 => {
            let db = ind::MemoryDatastore::new_db();
            let p = Pools::new(&mut r, 4, 2, 2, 4);
            let m = populated(&db, EdgeOrder::Plain, &p, &mut r);
            strange_calls(&db, &p, &mut r, &m, rep);
        }
        4 => threads(seed, rep),
        5 => {
            let db = ind::MemoryDatastore::new_db();
            let p = Pools::new(&mut r, 5, 2, 2, 2);
            let m = populated(&db, EdgeOrder::Plain, &p, &mut r);
            QUIET.with(|q| q.set(true));
            mapping(&db, &m, &mut r, rep);
        }
        6 => identifiers(seed, rep),
        7 => codec(&mut r, rep),
        _ => images(&mut r, rep),
    }
    rep.count(&format!("ms_part_{}", what % 9), t0.elapsed().as_millis() as u64);
}
fn mem_loop(cx: &Ctx, dur: Duration, threads: usize, rep: &Report) {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            let next = &next;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    while t0.elapsed() < dur {
                        let k = next.fetch_add(1, Relaxed);
                        let seed = h64(&(cx.seed, "c25", k));
                        crate::progress::doing(&format!("C25 part {} seed {seed}", (k + cx.seed) % 9));
                        small(seed, k + cx.seed, rep);
                    }
                })
                .unwrap();
        }
    });
    rep.count("rounds", next.load(Relaxed));
}
#[cfg(feature = "full")]
fn rocks_loop(cx: &Ctx, dur: Duration, rep: &Report) {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..cx.threads.min(6) {
            let next = &next;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    while t0.elapsed() < dur {
                        let k = next.fetch_add(1, Relaxed);
                        let seed = h64(&(cx.seed, "c25r", k));
                        let mut r = Rng::new(seed);
                        crate::progress::doing(&format!("C25 rocksdb part {} seed {seed}", k % 4));
                        if k % 4 == 0 {
                            history_of(Kind::Rocks, seed, rep);
                            continue;
                        }
                        let dir = scratch();
                        let Ok(db) = open_rocks(&dir.path().join("db"), r.below(20) as u8) else { continue };
                        let p = Pools::new(&mut r, 4, 2, 2, 4);
                        let m = populated(&db, EdgeOrder::LenPrefixed, &p, &mut r);
                        match k % 4 {
                            1 => iterators(&db, &m, &p, &mut r, rep),
                            2 => strange_calls(&db, &p, &mut r, &m, rep),
                            _ => mapping(&db, &m, &mut r, rep),
                        }
                    }
                })
                .unwrap();
        }
    });
    rep.count("rocksdb_rounds", next.load(Relaxed));
}
/// Runs another property's workload for what the instrumentation sees of it.
#[cfg(feature = "full")]
fn borrowed(id: &str, cx: &Ctx, budget: u64, rep: &Report) {
    let sub = Ctx { seed: cx.seed, thorough: cx.thorough, build: cx.build.clone(), budget: budget.max(1), threads: cx.threads, arg: Some("san".into()) };
    let other = Report::default();
    super::run_full(id, &sub, &other);
    let i = other.i.lock().unwrap();
    rep.eval(i.evaluations);
    rep.count(&format!("borrowed_{id}_events"), i.evaluations);
    for d in &i.distinct {
        rep.distinct(&(id, d));
    }
    let n = i.violations.len();
    if n > 0 {
        rep.count("answers_left_to_other_checks", n as u64);
        eprintln!("[{id}] {}", i.violations[0].what.chars().take(300).collect::<String>());
    }
}
pub fn c25(cx: &Ctx, rep: &Report) {
    match cx.arg.as_deref() {
        #[cfg(feature = "full")]
        Some("heap") => heap(cx, rep),
        // AddressSanitizer and LeakSanitizer
        #[cfg(feature = "full")]
        Some("lsan") => {
            mem_loop(cx, cx.dur(35), cx.threads, rep);
            rocks_loop(cx, cx.dur(45), rep);
            borrowed("C13", cx, cx.budget / 5, rep);
        }
        // AddressSanitizer with servers, whose runtimes are never joined
        #[cfg(feature = "full")]
        Some("asan") => {
            let ids: &[&str] = if cx.thorough { &["C24", "C20", "C21", "C19", "C18"] } else { &["C24", "C20", "C21", "C19"] };
            for id in ids {
                borrowed(id, cx, cx.budget / 5, rep);
            }
        }
        // Valgrind, which sees uninitialised memory in code that only runs with RocksDB
        #[cfg(feature = "full")]
        Some("memcheck") => {
            let sub = Ctx { seed: cx.seed, thorough: cx.thorough, build: cx.build.clone(), budget: cx.budget, threads: 1, arg: None };
            mem_loop(&sub, cx.dur(30), 1, rep);
            rocks_loop(&sub, cx.dur(70), rep);
        }
        // ThreadSanitizer
        #[cfg(feature = "full")]
        Some("tsan") => {
            mem_loop(cx, cx.dur(30), cx.threads / 2, rep);
            let d: Arc<dyn Db> = Arc::from(Local::new(Kind::Mem).unwrap().db.unwrap());
            contention(d, cx.seed, cx.dur(15), rep);
            let mut l = Local::new(Kind::MemImg).unwrap();
            let (dir, db) = (l.keep(), Arc::<dyn Db>::from(l.db.take().unwrap()));
            contention(db, cx.seed ^ 1, cx.dur(10), rep);
            drop(dir);
            borrowed("C12", cx, cx.budget / 8, rep);
            borrowed("C21", cx, cx.budget / 5, rep);
        }
        // Miri
        _ => {
            mem_loop(cx, cx.dur(100), 1, rep);
            let _ = contention;
        }
    }
    let bad = BAD_TEXT.load(SeqCst);
    if bad > 0 {
        rep.violation("C25:text", format!("the library yielded {bad} identifiers that are not valid UTF-8"), format!("seed {}", cx.seed));
    }
}
