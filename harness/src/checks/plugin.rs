//! C22: plugins. Loading, calling, atomicity, effects, and the mapping helper.
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::grpc::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use indradb::{self as ind, Database, Datastore, DynIter, Transaction};
use indradb_plugin_host as plugin;
use indradb_proto as pb;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn target() -> PathBuf {
    PathBuf::from(std::env::var("VH_TARGET").unwrap_or_else(|_| "/verif/target".into()))
}
fn so() -> PathBuf {
    target().join("plug/debug/libvhplug.so")
}
fn so_ver() -> PathBuf {
    target().join("plug/debug/examples/libplugver.so")
}
fn serve<D: Datastore + Send + Sync + 'static>(db: Database<D>, dir: Option<tempfile::TempDir>) -> Result<(Srv<D>, Grpc), String> {
    let s = Srv::start_plugins(db, dir, vec![so()])?;
    let g = s.client();
    Ok((s, g))
}

// ---------------------------------------------------------------- the mapping helper
struct Watch {
    threads: usize,
    us: u64,
    fail: Vec<Id>,
    panic: Vec<Id>,
    seen: Mutex<BTreeMap<(Id, String), u64>>,
    running: AtomicU64,
    peak: AtomicU64,
}
impl plugin::util::VertexMapper for Watch {
    fn num_threads(&self) -> usize {
        self.threads
    }
    fn map(&self, v: ind::Vertex) -> Result<(), plugin::Error> {
        let n = self.running.fetch_add(1, SeqCst) + 1;
        self.peak.fetch_max(n, SeqCst);
        if self.us > 0 {
            std::thread::sleep(Duration::from_micros(self.us));
        }
        let id = did(v.id);
        *self.seen.lock().unwrap().entry((id, v.t.as_str().to_string())).or_default() += 1;
        self.running.fetch_sub(1, SeqCst);
        if self.panic.contains(&id) {
            std::panic::resume_unwind(Box::new("told to"));
        }
        if self.fail.contains(&id) {
            return Err(plugin::Error::Other(format!("told to fail at {id:x}").into()));
        }
        Ok(())
    }
}
/// Only what the helper needs: all vertices, some of which cannot be read.
struct Faulty {
    n: usize,
    bad: Vec<usize>,
    open: bool,
    end: Option<Arc<std::sync::atomic::AtomicBool>>,
}
type R1<T> = ind::Result<T>;
#[rustfmt::skip]
impl<'a> Transaction<'a> for Faulty {
    fn vertex_count(&self) -> u64 { self.n as u64 }
    fn all_vertices(&'a self) -> R1<DynIter<'a, ind::Vertex>> {
        if !self.open {
            return Err(ind::Error::Datastore("cannot list".into()));
        }
        Ok(Box::new((0..self.n + 1).filter(|k| *k < self.n || { self.end.iter().for_each(|e| e.store(true, SeqCst)); false }).map(|k| if self.bad.contains(&k) { Err(ind::Error::Datastore(format!("cannot read {k}").into())) } else { Ok(vertex(k as Id, "t")) })))
    }
    fn range_vertices(&'a self, _: uuid::Uuid) -> R1<DynIter<'a, ind::Vertex>> { self.all_vertices() }
    fn specific_vertices(&'a self, _: Vec<uuid::Uuid>) -> R1<DynIter<'a, ind::Vertex>> { unimplemented!() }
    fn vertex_ids_with_property(&'a self, _: ind::Identifier) -> R1<Option<DynIter<'a, uuid::Uuid>>> { unimplemented!() }
    fn vertex_ids_with_property_value(&'a self, _: ind::Identifier, _: &ind::Json) -> R1<Option<DynIter<'a, uuid::Uuid>>> { unimplemented!() }
    fn edge_count(&self) -> u64 { 0 }
    fn all_edges(&'a self) -> R1<DynIter<'a, ind::Edge>> { unimplemented!() }
    fn range_edges(&'a self, _: ind::Edge) -> R1<DynIter<'a, ind::Edge>> { unimplemented!() }
    fn range_reversed_edges(&'a self, _: ind::Edge) -> R1<DynIter<'a, ind::Edge>> { unimplemented!() }
    fn specific_edges(&'a self, _: Vec<ind::Edge>) -> R1<DynIter<'a, ind::Edge>> { unimplemented!() }
    fn edges_with_property(&'a self, _: ind::Identifier) -> R1<Option<DynIter<'a, ind::Edge>>> { unimplemented!() }
    fn edges_with_property_value(&'a self, _: ind::Identifier, _: &ind::Json) -> R1<Option<DynIter<'a, ind::Edge>>> { unimplemented!() }
    fn vertex_property(&self, _: &ind::Vertex, _: ind::Identifier) -> R1<Option<ind::Json>> { unimplemented!() }
    fn all_vertex_properties_for_vertex(&'a self, _: &ind::Vertex) -> R1<DynIter<'a, (ind::Identifier, ind::Json)>> { unimplemented!() }
    fn edge_property(&self, _: &ind::Edge, _: ind::Identifier) -> R1<Option<ind::Json>> { unimplemented!() }
    fn all_edge_properties_for_edge(&'a self, _: &ind::Edge) -> R1<DynIter<'a, (ind::Identifier, ind::Json)>> { unimplemented!() }
    fn delete_vertices(&mut self, _: Vec<ind::Vertex>) -> R1<()> { unimplemented!() }
    fn delete_edges(&mut self, _: Vec<ind::Edge>) -> R1<()> { unimplemented!() }
    fn delete_vertex_properties(&mut self, _: Vec<(uuid::Uuid, ind::Identifier)>) -> R1<()> { unimplemented!() }
    fn delete_edge_properties(&mut self, _: Vec<(ind::Edge, ind::Identifier)>) -> R1<()> { unimplemented!() }
    fn create_vertex(&mut self, _: &ind::Vertex) -> R1<bool> { unimplemented!() }
    fn create_edge(&mut self, _: &ind::Edge) -> R1<bool> { unimplemented!() }
    fn index_property(&mut self, _: ind::Identifier) -> R1<()> { unimplemented!() }
    fn set_vertex_properties(&mut self, _: Vec<uuid::Uuid>, _: ind::Identifier, _: &ind::Json) -> R1<()> { unimplemented!() }
    fn set_edge_properties(&mut self, _: Vec<ind::Edge>, _: ind::Identifier, _: &ind::Json) -> R1<()> { unimplemented!() }
}
const SIZES: [usize; 16] = [0, 1, 2, 7, 8, 9, 63, 999, 1000, 1001, 1500, 1999, 2000, 2001, 3000, 3456];
fn positions(r: &mut Rng, n: usize) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    match r.below(9) {
        0 => vec![0],
        1 => vec![n - 1],
        2 => vec![998.min(n - 1)],
        3 => vec![999.min(n - 1)],
        4 => vec![1000.min(n - 1)],
        5 => (0..n).collect(),
        6 => (0..n).filter(|_| r.chance(1, 10)).chain([n / 2]).collect(),
        _ => vec![r.below(n)],
    }
}
/// What the helper did, judged.
#[allow(clippy::too_many_arguments)]
fn judge(label: &str, all: &[(Id, String)], threads: usize, fail: &[Id], panic: &[Id], seen: &BTreeMap<(Id, String), u64>, running: u64, later: u64, peak: u64, err: Option<String>) -> Result<(), String> {
    let at = |x: &str| format!("[{label}] {} vertices, {threads} threads, {} told to fail, {} to panic: {x}", all.len(), fail.len(), panic.len());
    let total: u64 = seen.values().sum();
    if let Some((k, n)) = seen.iter().find(|(_, n)| **n > 1) {
        return Err(at(&format!("called {n} times for {k:?}")));
    }
    for k in seen.keys() {
        if !all.contains(k) {
            return Err(at(&format!("called for {k:?}, which does not exist")));
        }
    }
    if running != 0 || later != total {
        return Err(at(&format!("{running} calls were running when it returned, {} completed afterwards", later - total)));
    }
    if peak > threads.max(1) as u64 {
        return Err(at(&format!("{peak} calls at once")));
    }
    match err {
        None if !fail.is_empty() => Err(at("reported success although a call failed")),
        None if !panic.is_empty() => Err(at("reported success although a call panicked")),
        None if total as usize != all.len() => Err(at(&format!("reported success after only {total} calls"))),
        Some(_) if fail.is_empty() && panic.is_empty() => Err(at(&format!("reported {err:?} although no call failed"))),
        Some(e) if panic.is_empty() && !fail.iter().any(|f| e == format!("told to fail at {f:x}")) => Err(at(&format!("reported {e:?}, which is none of the errors of the calls"))),
        _ => Ok(()),
    }
}
fn mapper<D: Datastore + Send + Sync>(db: &Database<D>, all: &[(Id, String)], label: &str, r: &mut Rng, rep: &Report) {
    let n = all.len();
    let threads = [0, 1, 2, 3, 8, 8, 33][r.below(7)];
    let us = if n <= 100 { [0, 0, 200, 1000][r.below(4)] } else { [0, 0, 0, 5][r.below(4)] };
    let ids = |v: Vec<usize>| v.into_iter().map(|k| all[k].0).collect::<Vec<_>>();
    let fail = if r.chance(1, 2) { ids(positions(r, n)) } else { vec![] };
    let panic = if r.chance(1, 4) { ids(positions(r, n.min(40))) } else { vec![] };
    let w = Arc::new(Watch { threads, us, fail, panic, seen: Default::default(), running: AtomicU64::new(0), peak: AtomicU64::new(0) });
    crate::progress::doing(&format!("C22 map {label} {n} vertices, {threads} threads"));
    let w2 = w.clone();
    let res = guard(|| with_txn(&db.datastore, |t| Ok(plugin::util::map(t as &dyn Transaction, w2).err().map(|e| e.to_string()))));
    let running = w.running.load(SeqCst);
    let seen = w.seen.lock().unwrap().clone();
    if r.chance(1, 10) {
        std::thread::sleep(Duration::from_millis(2));
    }
    let later = w.seen.lock().unwrap().values().sum();
    rep.eval(seen.len() as u64 + 1);
    rep.count("mapped_vertices", seen.len() as u64);
    rep.count("map_calls", 1);
    rep.distinct(&("map", label, n, threads, bucket(w.fail.len()), bucket(w.panic.len()), w.peak.load(SeqCst), res.as_ref().map(|x| x.is_some()).ok()));
    let v = match res {
        Err(e) => Err(format!("[{label}] the helper itself failed: {e:?}")),
        Ok(e) => judge(label, all, threads, &w.fail, &w.panic, &seen, running, later, w.peak.load(SeqCst), e),
    };
    if let Err(v) = v {
        rep.violation("C22:map", v.clone(), v);
    }
}
fn faulty(r: &mut Rng, rep: &Report) {
    let n = SIZES[r.below(SIZES.len())];
    let f = Faulty { n, bad: if r.chance(3, 4) { positions(r, n) } else { vec![] }, open: r.chance(9, 10), end: None };
    let w = Arc::new(Watch { threads: r.below(9), us: 0, fail: vec![], panic: vec![], seen: Default::default(), running: AtomicU64::new(0), peak: AtomicU64::new(0) });
    let w2 = w.clone();
    let e = guard(|| Ok(plugin::util::map(&f as &dyn Transaction, w2).err().map(|e| e.to_string())));
    rep.eval(1);
    rep.count("map_calls_on_unreadable_vertices", 1);
    rep.distinct(&("faulty", n, bucket(f.bad.len()), f.open));
    let seen = w.seen.lock().unwrap();
    let want_err = !f.open || !f.bad.is_empty();
    let good = match &e {
        Ok(Some(t)) => want_err && (t.contains("cannot read") || t.contains("cannot list")),
        Ok(None) => !want_err && seen.len() == n,
        Err(_) => false,
    } && seen.values().all(|k| *k == 1);
    if !good {
        let s = format!("mapping {n} vertices of which {:?} cannot be read (listing works: {}) gave {e:?} after {} calls", f.bad.iter().take(5).collect::<Vec<_>>(), f.open, seen.len());
        rep.violation("C22:map", s.clone(), s);
    }
}
/// More vertices than the threads can keep up with: the calls are held back until the last vertex has been handed over
/// (or, should the helper wait for them, for a moment).
struct Held {
    threads: usize,
    open: Arc<std::sync::atomic::AtomicBool>,
    since: Instant,
    seen: Mutex<Vec<u8>>,
}
impl plugin::util::VertexMapper for Held {
    fn num_threads(&self) -> usize {
        self.threads
    }
    fn map(&self, v: ind::Vertex) -> Result<(), plugin::Error> {
        while !self.open.load(SeqCst) && self.since.elapsed() < Duration::from_millis(400) {
            std::thread::sleep(Duration::from_micros(300));
        }
        let mut s = self.seen.lock().unwrap();
        let k = did(v.id) as usize;
        s[k] = s[k].saturating_add(1);
        Ok(())
    }
}
fn backlog(k: u64, seed: u64, rep: &Report) {
    let mut r = Rng::new(h64(&(seed, "backlog", k)));
    let n = [2500, 5200, 9000, 17_000, 33_000, 66_000][k as usize % 6] + r.below(700);
    let threads = [1, 2, 8, 0, 3][r.below(5)];
    let open = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let f = Faulty { n, bad: vec![], open: true, end: Some(open.clone()) };
    let w = Arc::new(Held { threads, open: open.clone(), since: Instant::now(), seen: Mutex::new(vec![0; n]) });
    let w2 = w.clone();
    crate::progress::doing(&format!("C22 backlog {n} vertices, {threads} threads"));
    let e = guard(|| Ok(plugin::util::map(&f as &dyn Transaction, w2).err().map(|e| e.to_string())));
    let seen = w.seen.lock().unwrap();
    rep.eval(n as u64);
    rep.count("map_calls_with_backlog", 1);
    rep.count(if w.since.elapsed() < Duration::from_millis(400) { "backlogs_complete" } else { "backlogs_waited_for" }, 1);
    rep.distinct(&("backlog", n, threads));
    let (none, more) = (seen.iter().filter(|x| **x == 0).count(), seen.iter().filter(|x| **x > 1).count());
    if none > 0 || more > 0 || !matches!(e, Ok(None)) {
        let s = format!("mapping {n} vertices with {threads} threads that are slower than the listing gave {e:?}, {none} vertices not called for, {more} called for more than once");
        rep.violation("C22:map", s.clone(), s);
    }
}
fn map_loop<D: Datastore + Send + Sync>(mk: impl Fn() -> (Database<D>, Option<tempfile::TempDir>), label: &str, seed: u64, dur: Duration, rep: &Report) {
    let t0 = Instant::now();
    let mut r = Rng::new(seed);
    let mut round = 0;
    while t0.elapsed() < dur && rep.nviol() < 6 {
        let n = SIZES[(round + r.below(2)) % SIZES.len()];
        round += 1;
        let (db, _dir) = mk();
        let mut all: Vec<(Id, String)> = Vec::new();
        let step = [1u128, 255, 1 << 60, 1 << 110][r.below(4)];
        for k in 0..n {
            all.push(((k as u128 + 1).wrapping_mul(step), format!("t{}", k % 3)));
        }
        let items: Vec<Item> = all.iter().map(|(i, t)| Item::V(*i, t.clone())).collect();
        if let Err(e) = db.bulk(&items) {
            return rep.violation("C22:map", format!("[{label}] cannot insert: {e:?}"), String::new());
        }
        for _ in 0..8 {
            mapper(&db, &all, label, &mut r, rep);
            faulty(&mut r, rep);
        }
    }
}

// ---------------------------------------------------------------- calls
fn arg_value(r: &mut Rng) -> Value {
    let v = if r.chance(1, 3) { json!({"a": [rand_value(r, 3), rand_string(r)]}) } else { rand_value(r, 4) };
    // the text form of some floats is not exact; that is property C08's business
    let t: Value = serde_json::from_str(&v.to_string()).unwrap();
    if same(&t, &v) {
        t
    } else {
        json!([1, "x"])
    }
}
fn call(g: &Grpc, name: &str, arg: &Value) -> Result<Value, String> {
    let (n, a) = (name.to_string(), js(arg));
    match g.call(move |mut c| async move { c.execute_plugin(&n, a).await }) {
        Ok(v) => Ok((*v).clone()),
        Err(e) => Err(match e {
            E::Other(s) => s,
            e => format!("{e:?}"),
        }),
    }
}
fn raw_call(addr: std::net::SocketAddr, name: &str, arg: Option<&str>) -> Result<pb::ExecutePluginResponse, (tonic::Code, String)> {
    let mut c = raw_client(addr);
    let req = pb::ExecutePluginRequest { name: name.into(), arg: arg.map(|a| pb::Json { value: a.into() }) };
    rt().block_on(async move {
        match tokio::time::timeout(PATIENCE, c.execute_plugin(req)).await {
            Ok(Ok(x)) => Ok(x.into_inner()),
            Ok(Err(s)) => Err((s.code(), s.message().to_string())),
            Err(_) => Err((tonic::Code::DeadlineExceeded, "no answer".into())),
        }
    })
}
const NAMES: [(&str, &str); 5] = [("echo", "echo"), ("ECHO", "ECHO"), ("echo2", "echo2"), ("", ""), ("with space/and\nünïcode \u{0}", "odd")];
fn calls<D: Datastore + Send + Sync + 'static>(s: &Srv<D>, g: &Grpc, label: &str, seed: u64, dur: Duration, rep: &Report) {
    let t0 = Instant::now();
    let mut r = Rng::new(seed);
    let viol = |kind: &str, w: String| rep.violation(&format!("C22:{label}:{kind}"), format!("[{label}] {w}"), format!("seed {seed}: {w}"));
    while t0.elapsed() < dur && rep.nviol() < 6 {
        rep.eval(1);
        match r.below(8) {
            0..=2 => {
                let (n, tag) = *r.pick(&NAMES);
                let a = arg_value(&mut r);
                rep.distinct(&("echo", label, n, a.to_string()));
                rep.count("plugin_answers", 1);
                match call(g, n, &a) {
                    Ok(v) if same(&v, &json!([tag, a])) => {}
                    x => return viol("answer", format!("plugin {n:?} called with {} answered {} instead of {}", short(&a), short(&x), short(&json!([tag, a])))),
                }
            }
            3 => {
                // unknown names, close to known ones
                let n = match r.below(8) {
                    0 => "Echo".into(),
                    1 => "echo ".into(),
                    2 => " echo".into(),
                    3 => "echo\u{0}".into(),
                    4 => "ech".into(),
                    5 => "register".into(),
                    6 => "x".repeat(r.below(5000) + 1),
                    _ => format!("_{}", rand_string(&mut r)),
                };
                rep.distinct(&("unknown", label, &n));
                rep.count("unknown_names", 1);
                match raw_call(s.addr, &n, Some("1")) {
                    Err((tonic::Code::NotFound, _)) => {}
                    x => return viol("unknown", format!("unknown plugin {:?}: {}", short(&n), short(&x))),
                }
            }
            4 => {
                // no argument means null; broken arguments never reach a plugin
                let before = call(g, "calls", &json!(null));
                match raw_call(s.addr, "echo", None) {
                    Ok(x) if x.value.as_ref().and_then(|j| serde_json::from_str::<Value>(&j.value).ok()) == Some(json!(["echo", null])) => {}
                    x => return viol("answer", format!("plugin called without argument: {}", short(&x))),
                }
                let bad = *r.pick(&["", "{", "[1,", "nul", "1 2", "\u{1}", "{\"a\":}", "'x'"]);
                match raw_call(s.addr, "echo", Some(bad)) {
                    Err((c, _)) if c != tonic::Code::NotFound && c != tonic::Code::DeadlineExceeded => {}
                    x => return viol("bad-argument", format!("plugin called with the argument text {bad:?}: {}", short(&x))),
                }
                let after = call(g, "calls", &json!(null));
                rep.count("missing_and_broken_arguments", 2);
                rep.distinct(&("badarg", label, bad));
                if let (Ok(Value::Number(a)), Ok(Value::Number(b))) = (&before, &after) {
                    // the counter is shared by the lanes; it must have moved by at least the valid call
                    if b.as_u64() <= a.as_u64() {
                        return viol("answer", format!("a call did not reach the plugin: {a} then {b}"));
                    }
                }
            }
            _ => {
                let msg = format!("{}{}", ["plain", "with \"quotes\" and\nlines\r\n", "ünïcode 日本 😀", "a+b&c=d~`^{}|\\#", "", " spaces "][r.below(6)], "x".repeat([0, 3, 2000][r.below(3)]));
                let bad = "{\"a\": tru}";
                let (kind, m, want) = match r.below(10) {
                    0 => ("json", bad.to_string(), format!("json error: {}", serde_json::from_str::<Value>(bad).unwrap_err())),
                    1 => ("uuid-taken", msg.clone(), plugin::Error::from(ind::Error::UuidTaken).to_string()),
                    2 => ("not-indexed", msg.clone(), format!("IndraDB error: {}", ind::Error::NotIndexed)),
                    3 => ("unsupported", msg.clone(), format!("IndraDB error: {}", ind::Error::Unsupported)),
                    4 => ("on-query", msg.clone(), format!("IndraDB error: {}", ind::Error::OperationOnQuery)),
                    5 => ("datastore", msg.clone(), format!("IndraDB error: error in the underlying datastore: {msg}")),
                    6 => ("io", msg.clone(), format!("IndraDB error: I/O error: {msg}")),
                    7 => ("other", msg.clone(), msg.clone()),
                    8 => ("invalid", msg.clone(), format!("IndraDB error: {}", ind::Error::Invalid(ind::Identifier::new("a b").unwrap_err()))),
                    _ => ("argument", msg.clone(), msg.clone()),
                };
                rep.distinct(&("fail", label, kind, &m));
                rep.count("plugin_errors", 1);
                match raw_call(s.addr, "fail", Some(&json!({"kind": kind, "msg": m}).to_string())) {
                    Err((c, t)) if t == want && c != tonic::Code::NotFound && c != tonic::Code::Ok => {}
                    x => return viol("error", format!("a plugin failed with {want:?} ({kind}) and the caller got {}", short(&x))),
                }
                match call(g, "fail", &json!({"kind": kind, "msg": m})) {
                    Err(t) if t.contains(&want) || t.contains(format!("{want:?}").trim_matches('"')) => {}
                    x => return viol("error", format!("a plugin failed with {want:?} ({kind}) and the client said {}", short(&x))),
                }
            }
        }
    }
}

// ---------------------------------------------------------------- effects
fn hx(i: Id) -> Value {
    json!(format!("{i:x}"))
}
fn he(e: &EK) -> Value {
    json!([hx(e.o), e.t, hx(e.i)])
}
/// The same operation in the terms of the "ops" plugin.
fn as_plugin_op(m: &Model, op: &Op) -> Option<Value> {
    let targets = |q: &Q| m.eval(q, None).ok().and_then(|mut v| v.pop()).map(|r| r.out);
    Some(match op {
        Op::CreateV(i, t) => json!(["cv", hx(*i), t]),
        Op::CreateE(e) => json!(["ce", he(e)]),
        Op::Index(n) => json!(["ix", n]),
        Op::Bulk(items) => json!(["bulk", items.iter().map(|i| match i {
            Item::V(i, t) => json!(["v", hx(*i), t]),
            Item::E(e) => json!(["e", he(e)]),
            Item::VP(i, n, v) => json!(["vp", hx(*i), n, v]),
            Item::EP(e, n, v) => json!(["ep", he(e), n, v]),
        }).collect::<Vec<_>>()]),
        Op::Set(q, n, v) => match targets(q)? {
            Out::V(x) => json!(["svp", x.iter().map(|x| hx(x.0)).collect::<Vec<_>>(), n, v]),
            Out::E(x) => json!(["sep", x.iter().map(he).collect::<Vec<_>>(), n, v]),
            _ => return None,
        },
        Op::Delete(q) => match targets(q)? {
            Out::V(x) => json!(["dv", x.iter().map(|x| hx(x.0)).collect::<Vec<_>>()]),
            Out::E(x) => json!(["de", x.iter().map(he).collect::<Vec<_>>()]),
            Out::VP(x) => json!(["dvp", x.iter().flat_map(|(v, ps)| ps.iter().map(|p| json!([hx(v.0), p.0])).collect::<Vec<_>>()).collect::<Vec<_>>()]),
            Out::EP(x) => json!(["dep", x.iter().flat_map(|(e, ps)| ps.iter().map(|p| json!([he(e), p.0])).collect::<Vec<_>>()).collect::<Vec<_>>()]),
            Out::C(_) => return None,
        },
        _ => return None,
    })
}
fn sorted(v: impl IntoIterator<Item = Value>) -> Vec<String> {
    let mut v: Vec<String> = v.into_iter().map(|x| x.to_string()).collect();
    v.sort();
    v
}
/// What a plugin reads, against the model.
fn plugin_view(g: &Grpc, m: &Model, p: &Pools, r: &mut Rng) -> Result<(), String> {
    let (t, n, v) = (r.pick(&p.types).clone(), r.pick(&p.names).clone(), p.val(r));
    let id = *r.pick(&p.ids);
    let e = m.e.iter().nth(r.below(m.e.len().max(1))).cloned().unwrap_or(EK::new(id, &t, id));
    let ops = json!([["dump"], ["of-type", t], ["vips", n], ["vipv", n, v], ["eps", n], ["epv", n, v], ["vp", hx(id), n], ["ep", he(&e), n]]);
    let x = call(g, "ops", &ops).map_err(|e| format!("reading in a plugin failed: {e}"))?;
    let d = &x[0];
    let props = |ps: Vec<(&String, &Value)>| ps.into_iter().map(|(n, v)| json!([n, v])).collect::<Vec<_>>();
    let norm = |d: &Value| {
        let mut d = d.clone();
        for k in ["vertices", "edges"] {
            let at = if k == "vertices" { 2 } else { 1 };
            for x in d[k].as_array_mut().into_iter().flatten() {
                if let Some(a) = x[at].as_array_mut() {
                    a.sort_by_key(|p| p.to_string());
                }
            }
        }
        d
    };
    let want = json!({
        "vertices": m.v.iter().map(|(i, t)| json!([hx(*i), t, props(m.vp.iter().filter(|(k, _)| k.0 == *i).map(|(k, v)| (&k.1, v)).collect())])).collect::<Vec<_>>(),
        "edges": m.all_edges().iter().map(|e| json!([he(e), props(m.ep.iter().filter(|(k, _)| k.0 == *e).map(|(k, v)| (&k.1, v)).collect())])).collect::<Vec<_>>(),
        "vertex_count": m.v.len(), "edge_count": m.e.len(),
    });
    if norm(d).to_string() != norm(&want).to_string() {
        return Err(format!("a plugin sees {} instead of {}", short(d), short(&want)));
    }
    let ix = m.ix.contains(&n);
    let arr = |x: &Value| x.as_array().cloned().map(sorted);
    let vwant: Vec<Value> = m.v.iter().filter(|(_, x)| **x == t).map(|(i, _)| hx(*i)).collect();
    let checks: Vec<(&str, Option<Vec<String>>, Option<Vec<String>>)> = vec![
        ("vertices of a type", arr(&x[1]), Some(sorted(vwant))),
        ("vertices with a property", arr(&x[2]), ix.then(|| sorted(m.vp.keys().filter(|k| k.1 == n).map(|k| hx(k.0))))),
        ("vertices with a value", arr(&x[3]), ix.then(|| sorted(m.vp.iter().filter(|(k, w)| k.1 == n && val_eq(w, &v)).map(|(k, _)| hx(k.0))))),
        ("edges with a property", arr(&x[4]), ix.then(|| sorted(m.ep.keys().filter(|k| k.1 == n).map(|k| he(&k.0))))),
        ("edges with a value", arr(&x[5]), ix.then(|| sorted(m.ep.iter().filter(|(k, w)| k.1 == n && val_eq(w, &v)).map(|(k, _)| he(&k.0))))),
        ("a vertex property", Some(vec![x[6].to_string()]), Some(vec![if m.v.contains_key(&id) { json!([m.vp.get(&(id, n.clone()))]) } else { json!(null) }.to_string()])),
        ("an edge property", Some(vec![x[7].to_string()]), Some(vec![json!([m.ep.get(&(e.clone(), n.clone()))]).to_string()])),
    ];
    for (what, got, want) in checks {
        if got != want {
            return Err(format!("{what} (type {t}, name {n}, value {v}) as a plugin sees it: {got:?} instead of {want:?}"));
        }
    }
    Ok(())
}
fn val_eq(a: &Value, b: &Value) -> bool {
    same(a, b)
}
fn effects<D: Datastore + Send + Sync + 'static>(s: &Srv<D>, g: &Grpc, order: EdgeOrder, label: &str, seed: u64, dur: Duration, rep: &Report) {
    let t0 = Instant::now();
    let mut k = 0;
    while t0.elapsed() < dur && rep.nviol() < 6 {
        k += 1;
        let seed = h64(&(seed, k));
        let mut r = Rng::new(seed);
        let p = Pools::new(&mut r, 6, 4, 3, 6);
        // names are never forgotten by a database: each history has its own
        let mut m = Model::new(order);
        let mut log: Vec<String> = Vec::new();
        if let Err(e) = Db::delete(&*s.db, Q::AllV.raw()) {
            return rep.violation(&format!("C22:{label}:effects"), format!("[{label}] clearing: {e:?}"), String::new());
        }
        // earlier histories' indexes stay; the model must know them
        for n in &p.names {
            if Db::get(&*s.db, Q::VHas(n.clone()).raw()).is_ok() {
                m.ix.insert(n.clone());
            }
        }
        let w = Weights { create_v: 12, create_vt: 0, create_e: 14, bulk: 5, set: 16, del_elems: 5, del_props: 4, index: 3, get: 14, sync: 0, reopen: 0, wild: 0, depth: 3 };
        let len = 50;
        for j in 0..len {
            let op = gen_op(&p, &mut r, &m, &w);
            let Some(m2) = model_step(&m, &op) else { continue };
            let pop = as_plugin_op(&m, &op);
            let via = pop.is_some() && r.chance(3, 5);
            log.push(format!("{} {}", if via { "plugin" } else { "client" }, short(&op)));
            rep.eval(1);
            let res = if via {
                rep.count("operations_through_a_plugin", 1);
                rep.distinct(&("op", label, opname(&op), m.v.len().min(3), m.ix.len().min(2)));
                let res = call(g, "ops", &json!([pop.unwrap()]));
                let want = match &op {
                    Op::CreateV(i, t) => json!([m.clone().create_v(*i, t)]),
                    Op::CreateE(e) => json!([m.clone().create_e(e)]),
                    _ => json!([null]),
                };
                m = m2;
                match res {
                    Ok(v) if v == want => Ok(()),
                    x => Err(format!("returned {} instead of {want}", short(&x))),
                }
            } else {
                step_db(g, &mut m, &op, rep, false).map(|_| ())
            };
            let res = res.and_then(|_| if j % 10 == 9 || j + 1 == len { audit(&*s.db, &m, true).map_err(|e| format!("afterwards: {e}")) } else { Ok(()) }).and_then(|_| if j % 7 == 6 { plugin_view(g, &m, &p, &mut r) } else { Ok(()) });
            if let Err(e) = res {
                return rep.violation(&format!("C22:{label}:effects"), format!("[{label}] step {j} {}: {e}", log.last().unwrap()), format!("seed {seed}\n{e}\n{}", log.join("\n")));
            }
        }
        rep.count("histories", 1);
        rep.distinct(&("state", model_hash(&m)));
        if k == 1 {
            rep.sample(json!({"lane": label, "seed": seed, "last": log.iter().rev().take(4).collect::<Vec<_>>()}));
        }
    }
}

// ---------------------------------------------------------------- atomicity
/// On the in-memory store, calls exclude each other and everything else.
fn atomic(s: &Srv<ind::MemoryDatastore>, seed: u64, dur: Duration, rep: &Report) {
    let mut r = Rng::new(seed);
    let stop = AtomicBool::new(false);
    let id: Id = 0xc22;
    let _ = Db::create_vertex(&*s.db, id, "counter");
    let got: Mutex<Vec<u64>> = Default::default();
    let bad: Mutex<Option<String>> = Default::default();
    let complain = |x: String| {
        bad.lock().unwrap().get_or_insert(x);
        stop.store(true, SeqCst);
    };
    let name = format!("n{}", r.below(1 << 20));
    let t = format!("toggled{}", r.below(1 << 20));
    let base = ((seed as u128 | 1) << 64) + 1;
    let ids: Vec<Value> = (0..4).map(|k| hx(base + k as u128)).collect();
    let (looks, toggles) = (AtomicU64::new(0), AtomicU64::new(0));
    std::thread::scope(|sc| {
        for k in 0..5 {
            let (name, got, stop, complain) = (&name, &got, &stop, &complain);
            let us = [0, 50, 300][r.below(3)];
            sc.spawn(move || {
                let g = s.client();
                while !stop.load(SeqCst) {
                    match call(&g, "bump", &json!([hx(id), name, us])) {
                        Ok(v) => got.lock().unwrap().push(v.as_u64().unwrap_or(0)),
                        Err(e) => complain(format!("counting call failed: {e}")),
                    }
                    if k == 0 {
                        // an ordinary write to the same vertex in between
                        let _ = g.set(Q::SpecV(vec![id]).raw(), "other", &json!(us));
                    }
                }
            });
        }
        {
            let (ids, t, stop, complain, toggles) = (&ids, &t, &stop, &complain, &toggles);
            let us = [0, 100, 400][r.below(3)];
            sc.spawn(move || {
                let g = s.client();
                let mut want = true;
                while !stop.load(SeqCst) {
                    match call(&g, "toggle", &json!({"ids": ids, "t": t, "us": us})) {
                        Ok(v) if v == json!(want) => want = !want,
                        x => complain(format!("toggling call: {x:?}")),
                    }
                    toggles.fetch_add(1, Relaxed);
                }
            });
        }
        for who in 0..2 {
            let (t, stop, complain, looks, name) = (&t, &stop, &complain, &looks, &name);
            sc.spawn(move || {
                let g = s.client();
                let d: &dyn Db = if who == 0 { &g } else { &*s.db };
                let mut last = 0;
                while !stop.load(SeqCst) {
                    // vertices and their edges, together
                    let q = Q::Incl(Box::new(Q::Pipe { inner: Box::new(Q::Incl(Box::new(Q::RangeV { limit: 100, t: Some(t.clone()), start: None }))), dir: Dir::Out, limit: 100, t: None }));
                    match d.get(q.raw()) {
                        Ok(o) => {
                            let n: Vec<usize> = o.iter().map(|x| x.len()).collect();
                            looks.fetch_add(1, Relaxed);
                            if !n.iter().all(|x| *x == 0) && !n.iter().all(|x| *x == 4) {
                                complain(format!("in the middle of a plugin call, a query saw {n:?} vertices and edges (0 or 4 expected)"));
                            }
                        }
                        Err(e) => complain(format!("reading: {e:?}")),
                    }
                    match d.get(Q::Props { inner: Box::new(Q::SpecV(vec![id])), name: Some(name.clone()) }.raw()) {
                        Ok(o) => {
                            if let Some(Out::VP(x)) = o.last() {
                                if let Some(n) = x.first().and_then(|x| x.1.first()).and_then(|p| p.1.as_u64()) {
                                    if n < last {
                                        complain(format!("the counter went back from {last} to {n}"));
                                    }
                                    last = n;
                                }
                            }
                        }
                        Err(e) => complain(format!("reading: {e:?}")),
                    }
                }
            });
        }
        let t0 = Instant::now();
        while t0.elapsed() < dur && !stop.load(SeqCst) {
            std::thread::sleep(Duration::from_millis(10));
            crate::progress::tick();
        }
        stop.store(true, SeqCst);
    });
    let mut v = got.into_inner().unwrap();
    v.sort();
    rep.eval(v.len() as u64 + toggles.load(Relaxed));
    rep.count("atomic_counting_calls", v.len() as u64);
    rep.count("atomic_toggling_calls", toggles.load(Relaxed));
    rep.count("reads_between_plugin_calls", looks.load(Relaxed));
    rep.distinct(&("atomic", v.len(), looks.load(Relaxed)));
    let mut x = bad.into_inner().unwrap();
    if x.is_none() && v.iter().enumerate().any(|(k, n)| *n != k as u64 + 1) {
        let d = v.iter().enumerate().find(|(k, n)| **n != *k as u64 + 1);
        x = Some(format!("{} concurrent counting calls returned a number twice or skipped one near {d:?}", v.len()));
    }
    if let Some(x) = x {
        rep.violation("C22:atomic", x.clone(), format!("seed {seed}: {x}"));
    }
}
fn map_over_grpc<D: Datastore + Send + Sync + 'static>(s: &Srv<D>, g: &Grpc, label: &str, seed: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    let n = [0, 1, 40, 1000, 1001][r.below(5)];
    let _ = Db::delete(&*s.db, Q::AllV.raw());
    let all: Vec<(Id, String)> = (0..n).map(|k| (k as u128 * 7 + 1, format!("t{}", k % 3))).collect();
    let _ = s.db.bulk(&all.iter().map(|(i, t)| Item::V(*i, t.clone())).collect::<Vec<_>>());
    let threads = [0, 1, 8, 20][r.below(4)];
    let pick = |r: &mut Rng, yes: bool| if yes { positions(r, n.min(50)).into_iter().map(|k| all[k].0).collect::<Vec<_>>() } else { vec![] };
    let yes = r.chance(1, 2);
    let fail = pick(&mut r, yes);
    let yes = r.chance(1, 3);
    let panic = pick(&mut r, yes);
    let us = if n < 100 { 100 } else { 0 };
    let x = call(g, "map", &json!({"threads": threads, "us": us, "fail": fail.iter().map(|i| hx(*i)).collect::<Vec<_>>(), "panic": panic.iter().map(|i| hx(*i)).collect::<Vec<_>>()}));
    rep.eval(1);
    rep.count("map_calls_in_a_plugin", 1);
    rep.distinct(&("plugmap", label, n, threads, fail.len().min(3), panic.len().min(3)));
    let v = match &x {
        Ok(x) => {
            let seen: BTreeMap<(Id, String), u64> = x["seen"].as_array().into_iter().flatten().map(|e| ((u128::from_str_radix(e[0].as_str().unwrap_or(""), 16).unwrap_or(0), e[1].as_str().unwrap_or("").to_string()), e[2].as_u64().unwrap_or(0))).collect();
            judge(label, &all, threads, &fail, &panic, &seen, x["running"].as_u64().unwrap_or(9), x["later"].as_u64().unwrap_or(0), x["peak"].as_u64().unwrap_or(0), x["err"].as_str().map(String::from))
        }
        Err(e) => Err(format!("[{label}] mapping in a plugin: {e}")),
    };
    if let Err(v) = v {
        rep.violation("C22:map", v.clone(), format!("seed {seed}: {v}"));
    }
}

// ---------------------------------------------------------------- loading
/// While more plugins run than the server has threads of its own, it answers what does not need the data they have to
/// themselves: on RocksDB everything, in memory what does not touch the data.
fn waiting<D: Datastore + Send + Sync + 'static>(s: &Srv<D>, label: &str, exclusive: bool, seed: u64, rep: &Report) {
    const CALLS: usize = 20;
    crate::progress::doing(&format!("C22 {label}: {CALLS} plugins that take long"));
    let bad = |what: String| rep.violation(&format!("C22:{label}:waiting"), format!("[{label}] {what}"), format!("seed {seed}: {what}"));
    let d = scratch();
    let path = |n: &str| d.path().join(n).to_str().unwrap().to_string();
    let (g, callers): (Grpc, Vec<Grpc>) = (s.client(), (0..4).map(|_| s.client()).collect());
    let go = path("go");
    let base = h64(&(seed, label)) as u128;
    let t = "waiting";
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..CALLS)
            .map(|k| {
                let (c, arg) = (&callers[k % 4], json!({"here": path(&format!("here{k}")), "go": go}));
                sc.spawn(move || call(c, "wait", &arg))
            })
            .collect();
        let here = || (0..CALLS).filter(|k| std::path::Path::new(&path(&format!("here{k}"))).exists()).count();
        let (t0, want) = (Instant::now(), if exclusive { 1 } else { CALLS });
        while here() < want && t0.elapsed() < Duration::from_secs(4) {
            std::thread::sleep(Duration::from_millis(5));
        }
        std::thread::sleep(Duration::from_millis(200));
        let running = here();
        let limit = Duration::from_secs(30);
        let within = |what: &str, f: &mut (dyn FnMut() -> Result<bool, String> + Send)| -> bool {
            let (t1, x) = (Instant::now(), f());
            rep.eval(1);
            rep.distinct(&("waiting", label, what));
            match x {
                Ok(true) if t1.elapsed() < limit => true,
                x => {
                    bad(format!("with {CALLS} plugin calls of long duration, {running} of them running, {what} gave {x:?} after {:?}", t1.elapsed()));
                    false
                }
            }
        };
        let patient = |q: &str| -> Result<bool, String> {
            let q = q.to_string();
            let r = rt().block_on(async { tokio::time::timeout(limit, async { g.c.clone().execute_plugin(&q, js(&json!(1))).await }).await });
            match r {
                Ok(Err(e)) => Ok(format!("{e:?}").contains("NotFound")),
                Ok(Ok(_)) => Ok(false),
                Err(_) => Err("no answer".into()),
            }
        };
        let ping = || rt().block_on(async { tokio::time::timeout(limit, async { g.c.clone().ping().await }).await }).map(|x| x.is_ok()).map_err(|_| "no answer".to_string());
        let mut ok = within("ping", &mut || ping()) && within("a plugin that does not exist", &mut || patient("no such plugin"));
        if ok && !exclusive {
            let v = base + 1;
            ok = within("create_vertex", &mut || g.create_vertex(v, t).map_err(|e| format!("{e:?}")))
                && within("get", &mut || g.get(Q::SpecV(vec![v]).raw()).map(|o| o == vec![Out::V(vec![(v, t.into())])]).map_err(|e| format!("{e:?}")))
                && within("another plugin", &mut || call(&g, "echo", &json!(7)).map(|x| x == json!(["echo", 7])))
                && within("delete", &mut || Db::delete(&g, Q::SpecV(vec![v]).raw()).map(|_| true).map_err(|e| format!("{e:?}")));
        }
        let _ = std::fs::write(&go, "");
        for h in hs {
            let x = h.join().unwrap();
            rep.eval(1);
            if ok && x != Ok(json!("waited")) {
                bad(format!("a plugin that took long answered {x:?}"));
                ok = false;
            }
        }
        rep.count("calls_while_plugins_run", 2);
        rep.count("plugins_running_meanwhile", running as u64);
    });
}
/// child plug <library>...: loads libraries as the server does, says what happened.
pub fn child(a: &[String]) -> i32 {
    let libs: Vec<PathBuf> = a[1..].iter().map(PathBuf::from).collect();
    let db = Arc::new(ind::MemoryDatastore::new_db());
    let s = match unsafe { pb::Server::new_with_plugins(db, libs) } {
        Ok(s) => s,
        Err(e) => {
            println!("refused {}", e.to_string().replace('\n', " "));
            return 0;
        }
    };
    println!("loaded");
    use pb::indra_db_server::IndraDb;
    for n in ["versioned", "echo"] {
        let r = rt().block_on(s.execute_plugin(tonic::Request::new(pb::ExecutePluginRequest { name: n.into(), arg: Some(pb::Json { value: "[7]".into() }) })));
        match r {
            Ok(x) => println!("{n} {}", x.into_inner().value.map(|j| j.value).unwrap_or_default()),
            Err(e) => println!("{n} {:?}", e.code()),
        }
    }
    0
}
fn loading(rep: &Report) {
    let me = std::env::current_exe().unwrap();
    let run = |libs: &[PathBuf], rustc: Option<&str>, iface: Option<u32>| -> String {
        let mut c = Command::new(&me);
        c.arg("child").arg("plug").args(libs).stdout(Stdio::piped()).stderr(Stdio::null()).env_remove("VH_PROGRESS");
        if let Some(x) = rustc {
            c.env("VHPLUG_RUSTC", x);
        }
        if let Some(x) = iface {
            c.env("VHPLUG_IFACE", x.to_string());
        }
        let o = c.output().unwrap();
        rep.eval(1);
        rep.count("libraries_offered", libs.len() as u64);
        rep.distinct(&("load", libs.iter().map(|l| l.file_name().unwrap().to_owned()).collect::<Vec<_>>(), rustc, iface));
        format!("{}{}", String::from_utf8_lossy(&o.stdout), if o.status.success() { "".into() } else { format!("{:?}", o.status) })
    };
    let (a, b) = (so(), so_ver());
    let both = "loaded\nversioned [7]\necho [\"echo\",[7]]\n";
    let cases: Vec<(Vec<PathBuf>, Option<&str>, Option<u32>, &str)> = vec![
        (vec![], None, None, "loaded\nversioned NotFound\necho NotFound\n"),
        (vec![a.clone()], None, None, "loaded\nversioned NotFound\necho [\"echo\",[7]]\n"),
        (vec![b.clone()], None, None, "loaded\nversioned [7]\necho NotFound\n"),
        (vec![a.clone(), b.clone()], None, None, both),
        (vec![b.clone(), a.clone()], None, None, both),
        (vec![b.clone(), a.clone()], Some("{}"), Some(1), both),
    ];
    for (libs, rustc, iface, want) in cases {
        let got = run(&libs, rustc, iface);
        if got != want {
            let s = format!("loading {libs:?} with version {rustc:?}/{iface:?} gave {got:?} instead of {want:?}");
            rep.violation("C22:loading", s.clone(), s);
        }
    }
    for (rustc, iface) in [
        (Some("{}x"), None),
        (Some("x{}"), None),
        (Some(""), None),
        (Some("{} "), None),
        (Some("1"), None),
        (Some("1.0.0"), None),
        (Some("99.0.0"), None),
        (None, Some(0)),
        (None, Some(2)),
        (None, Some(129)),
        (None, Some(255)),
        (Some("{}-nightly"), Some(1)),
        (Some("1.70.0"), Some(2)),
        (Some("{}"), Some(0)),
        (Some("{}"), Some(3)),
    ] {
        for libs in [vec![b.clone()], vec![a.clone(), b.clone()], vec![b.clone(), a.clone()]] {
            let got = run(&libs, rustc, iface);
            if !got.starts_with("refused") {
                let s = format!("a library built for version {rustc:?}/{iface:?} ({{}} = this rustc) was not refused among {} libraries: {got:?}", libs.len());
                rep.violation("C22:version", s.clone(), s);
            }
            rep.count("version_mismatches", 1);
        }
    }
    // not libraries of plugins at all
    let d = scratch();
    let text = d.path().join("libtext.so");
    std::fs::write(&text, "not a library").unwrap();
    for libs in [vec![text.clone()], vec![a.clone(), text.clone()], vec![d.path().join("missing.so")], vec![text, b.clone()]] {
        let got = run(&libs, None, None);
        if !got.starts_with("refused") {
            let s = format!("loading {libs:?} was not refused: {got:?}");
            rep.violation("C22:loading", s.clone(), s);
        }
    }
}

pub fn c22(cx: &Ctx, rep: &Report) {
    for f in [so(), so_ver()] {
        if !f.exists() {
            return rep.inconclusive(format!("{f:?} has not been built"));
        }
    }
    let rocks = || {
        let d = scratch();
        (open_rocks(&d.path().join("db"), 1).expect("open rocksdb"), Some(d))
    };
    let sd = |k: u64| h64(&(cx.seed, "c22", k));
    std::thread::scope(|sc| {
        sc.spawn(|| loading(rep));
        sc.spawn(|| {
            for k in 0..if cx.thorough { 60 } else { 12 } {
                backlog(k, cx.seed, rep);
            }
        });
        sc.spawn(|| map_loop(|| (ind::MemoryDatastore::new_db(), None), "memory", sd(1), cx.dur(75), rep));
        sc.spawn(|| map_loop(rocks, "rocksdb", sd(2), cx.dur(75), rep));
        sc.spawn(|| match serve(ind::MemoryDatastore::new_db(), None) {
            Ok((s, g)) => {
                waiting(&s, "memory", true, sd(60), rep);
                calls(&s, &g, "memory", sd(3), cx.dur(20), rep);
                effects(&s, &g, EdgeOrder::Plain, "memory", sd(4), cx.dur(45), rep);
                let _ = Db::delete(&*s.db, Q::AllV.raw());
                for k in 0..3 {
                    atomic(&s, sd(10 + k), cx.dur(8), rep);
                }
                for k in 0..12 {
                    map_over_grpc(&s, &g, "memory plugin", sd(20 + k), rep);
                }
            }
            Err(e) => rep.violation("C22:loading", e.clone(), e),
        });
        sc.spawn(|| {
            let (db, d) = rocks();
            match serve(db, d) {
                Ok((s, g)) => {
                    waiting(&s, "rocksdb", false, sd(61), rep);
                    calls(&s, &g, "rocksdb", sd(5), cx.dur(20), rep);
                    effects(&s, &g, EdgeOrder::LenPrefixed, "rocksdb", sd(6), cx.dur(50), rep);
                    for k in 0..8 {
                        map_over_grpc(&s, &g, "rocksdb plugin", sd(40 + k), rep);
                    }
                }
                Err(e) => rep.violation("C22:loading", e.clone(), e),
            }
        });
    });
}
