//! C28: the engine on a datastore of someone else's. The datastore here is a reference that follows the documented
//! contract of the `Datastore` and `Transaction` traits, counts every event (a call, an item of an iterator, its end) and
//! can let any one of them fail.
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::grpc::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use indradb::{self as ind, Database, Datastore, DynIter, Transaction};
use serde_json::json;
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::{Duration, Instant};
use uuid::Uuid;

pub struct St {
    m: Model,
    /// events of the current operation
    n: u64,
    log: Vec<&'static str>,
    fail_at: Option<u64>,
    kind: u8,
    /// whether an iterator is exhausted by its error
    ends: bool,
    fired: Option<&'static str>,
    refuse: bool,
    syncs: bool,
    /// what the counts are said to be
    counts: Option<(u64, u64)>,
    alive: u64,
    begun: u64,
    iters: i64,
    /// mutating calls so far
    gen: u64,
    bad: Vec<String>,
}
pub type Sh = Arc<Mutex<St>>;
fn lk(s: &Sh) -> MutexGuard<'_, St> {
    s.lock().unwrap_or_else(|e| e.into_inner())
}
fn fault(kind: u8) -> ind::Error {
    match kind {
        0 | 7.. => ind::Error::Datastore(MARK.into()),
        1 => ind::Error::Io(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, MARK)),
        2 => ind::Error::NotIndexed,
        3 => ind::Error::Unsupported,
        4 => ind::Error::UuidTaken,
        5 => ind::Error::OperationOnQuery,
        6 => ind::Error::Invalid(ind::ValidationError::CannotIncrementUuid),
    }
}
impl St {
    fn event(&mut self, what: &'static str) -> ind::Result<()> {
        self.n += 1;
        if self.log.len() < 400 {
            self.log.push(what);
        }
        if self.fired.is_some() && what.starts_with("write") {
            self.bad.push(format!("{what} was called after {} had failed", self.fired.unwrap()));
        }
        if self.fail_at == Some(self.n) {
            self.fired = Some(what);
            if self.kind == 7 {
                panic!("{MARK}");
            }
            return Err(fault(self.kind));
        }
        Ok(())
    }
}
pub struct RefStore(pub Sh);
pub struct RefTxn(Sh);
impl Datastore for RefStore {
    type Transaction<'a> = RefTxn;
    fn transaction(&self) -> RefTxn {
        let mut s = lk(&self.0);
        s.alive += 1;
        s.begun += 1;
        if s.alive > 1 {
            let m = format!("{} transactions at once in one operation", s.alive);
            s.bad.push(m);
        }
        drop(s);
        RefTxn(self.0.clone())
    }
}
impl Drop for RefTxn {
    fn drop(&mut self) {
        let mut s = lk(&self.0);
        s.alive -= 1;
        if s.iters > 0 {
            let m = format!("{} iterators outlive their transaction", s.iters);
            s.bad.push(m);
        }
    }
}
struct It<T> {
    s: Sh,
    v: std::vec::IntoIter<T>,
    what: (&'static str, &'static str),
    gen: u64,
    over: bool,
}
impl<T> Iterator for It<T> {
    type Item = ind::Result<T>;
    fn next(&mut self) -> Option<ind::Result<T>> {
        if self.over {
            return None;
        }
        let mut s = lk(&self.s);
        if s.gen != self.gen {
            let m = format!("an iterator ({}) was used after a write to its transaction", self.what.0);
            s.bad.push(m);
        }
        let x = self.v.next();
        match s.event(if x.is_some() { self.what.0 } else { self.what.1 }) {
            Err(e) => {
                self.over = x.is_none() || s.ends;
                Some(Err(e))
            }
            Ok(()) => {
                self.over = x.is_none();
                x.map(Ok)
            }
        }
    }
}
impl<T> Drop for It<T> {
    fn drop(&mut self) {
        lk(&self.s).iters -= 1;
    }
}
impl RefTxn {
    fn read<T: 'static>(&self, call: &'static str, what: (&'static str, &'static str), f: impl FnOnce(&Model) -> Vec<T>) -> ind::Result<DynIter<'static, T>> {
        let mut s = lk(&self.0);
        s.event(call)?;
        let v = f(&s.m).into_iter();
        s.iters += 1;
        let gen = s.gen;
        Ok(Box::new(It { s: self.0.clone(), v, what, gen, over: false }))
    }
    fn indexed<T: 'static>(&self, call: &'static str, what: (&'static str, &'static str), name: &str, f: impl FnOnce(&Model) -> Vec<T>) -> ind::Result<Option<DynIter<'static, T>>> {
        if !lk(&self.0).m.ix.contains(name) {
            lk(&self.0).event(call)?;
            return Ok(None);
        }
        self.read(call, what, f).map(Some)
    }
    fn write<T>(&self, call: &'static str, f: impl FnOnce(&mut St) -> T) -> ind::Result<T> {
        let mut s = lk(&self.0);
        s.event(call)?;
        s.gen += 1;
        Ok(f(&mut s))
    }
}
const V: (&str, &str) = ("item: vertex", "end: vertices");
const X: (&str, &str) = ("item: vertex id", "end: vertex ids");
const ED: (&str, &str) = ("item: edge", "end: edges");
const P: (&str, &str) = ("item: property", "end: properties");
fn vs(v: Vec<(Id, String)>) -> Vec<ind::Vertex> {
    v.iter().map(|(i, t)| vertex(*i, t)).collect()
}
fn es(v: Vec<EK>) -> Vec<ind::Edge> {
    v.iter().map(edge).collect()
}
fn ps(v: Vec<(String, serde_json::Value)>) -> Vec<(ind::Identifier, ind::Json)> {
    v.iter().rev().map(|(n, v)| (ident(n), js(v))).collect()
}
fn of(m: &Model, q: Q) -> Out {
    m.eval(&q, None).expect("a legal query").pop().unwrap().out
}
fn ov(o: Out, rev: bool) -> Vec<(Id, String)> {
    match o {
        Out::V(mut v) => {
            if rev {
                v.reverse()
            }
            v
        }
        _ => unreachable!(),
    }
}
fn oe(o: Out, rev: bool) -> Vec<EK> {
    match o {
        Out::E(mut v) => {
            if rev {
                v.reverse()
            }
            v
        }
        _ => unreachable!(),
    }
}
fn ge(m: &Model, from: &EK, rev: bool) -> Vec<EK> {
    let mut v: Vec<EK> = m.e.iter().map(|e| if rev { e.rev() } else { e.clone() }).filter(|e| e >= from).collect();
    m.sort_edges(&mut v);
    v
}
#[rustfmt::skip]
impl<'a> Transaction<'a> for RefTxn {
    fn vertex_count(&self) -> u64 { let s = lk(&self.0); s.counts.map_or(s.m.v.len() as u64, |c| c.0) }
    fn all_vertices(&'a self) -> ind::Result<DynIter<'a, ind::Vertex>> { self.read("read: all_vertices", V, |m| vs(ov(of(m, Q::AllV), false))) }
    fn range_vertices(&'a self, o: Uuid) -> ind::Result<DynIter<'a, ind::Vertex>> { self.read("read: range_vertices", V, |m| vs(ov(of(m, Q::RangeV { limit: u32::MAX, t: None, start: Some(did(o)) }), false))) }
    fn specific_vertices(&'a self, ids: Vec<Uuid>) -> ind::Result<DynIter<'a, ind::Vertex>> { self.read("read: specific_vertices", V, |m| vs(ov(of(m, Q::SpecV(ids.iter().map(|u| did(*u)).collect())), false))) }
    fn vertex_ids_with_property(&'a self, n: ind::Identifier) -> ind::Result<Option<DynIter<'a, Uuid>>> { self.indexed("read: vertex_ids_with_property", X, &text(&n), |m| ov(of(m, Q::VHas(text(&n))), true).iter().map(|(i, _)| uid(*i)).collect()) }
    fn vertex_ids_with_property_value(&'a self, n: ind::Identifier, v: &ind::Json) -> ind::Result<Option<DynIter<'a, Uuid>>> { self.indexed("read: vertex_ids_with_property_value", X, &text(&n), |m| ov(of(m, Q::VVal(text(&n), (**v).clone())), true).iter().map(|(i, _)| uid(*i)).collect()) }
    fn edge_count(&self) -> u64 { let s = lk(&self.0); s.counts.map_or(s.m.e.len() as u64, |c| c.1) }
    fn all_edges(&'a self) -> ind::Result<DynIter<'a, ind::Edge>> { self.read("read: all_edges", ED, |m| es(m.all_edges())) }
    fn range_edges(&'a self, o: ind::Edge) -> ind::Result<DynIter<'a, ind::Edge>> { self.read("read: range_edges", ED, |m| es(ge(m, &ek(&o), false))) }
    fn range_reversed_edges(&'a self, o: ind::Edge) -> ind::Result<DynIter<'a, ind::Edge>> { self.read("read: range_reversed_edges", ED, |m| es(ge(m, &ek(&o), true))) }
    fn specific_edges(&'a self, e: Vec<ind::Edge>) -> ind::Result<DynIter<'a, ind::Edge>> { self.read("read: specific_edges", ED, |m| es(oe(of(m, Q::SpecE(e.iter().map(ek).collect())), false))) }
    fn edges_with_property(&'a self, n: ind::Identifier) -> ind::Result<Option<DynIter<'a, ind::Edge>>> { self.indexed("read: edges_with_property", ED, &text(&n), |m| es(oe(of(m, Q::EHas(text(&n))), true))) }
    fn edges_with_property_value(&'a self, n: ind::Identifier, v: &ind::Json) -> ind::Result<Option<DynIter<'a, ind::Edge>>> { self.indexed("read: edges_with_property_value", ED, &text(&n), |m| es(oe(of(m, Q::EVal(text(&n), (**v).clone())), true))) }
    fn vertex_property(&self, v: &ind::Vertex, n: ind::Identifier) -> ind::Result<Option<ind::Json>> { let mut s = lk(&self.0); s.event("read: vertex_property")?; Ok(s.m.vp.get(&(did(v.id), text(&n))).map(js)) }
    fn all_vertex_properties_for_vertex(&'a self, v: &ind::Vertex) -> ind::Result<DynIter<'a, (ind::Identifier, ind::Json)>> { self.read("read: all_vertex_properties_for_vertex", P, |m| ps(m.vprops(did(v.id)))) }
    fn edge_property(&self, e: &ind::Edge, n: ind::Identifier) -> ind::Result<Option<ind::Json>> { let mut s = lk(&self.0); s.event("read: edge_property")?; Ok(s.m.ep.get(&(ek(e), text(&n))).map(js)) }
    fn all_edge_properties_for_edge(&'a self, e: &ind::Edge) -> ind::Result<DynIter<'a, (ind::Identifier, ind::Json)>> { self.read("read: all_edge_properties_for_edge", P, |m| ps(m.eprops(&ek(e)))) }
    fn delete_vertices(&mut self, v: Vec<ind::Vertex>) -> ind::Result<()> { self.write("write: delete_vertices", |s| v.iter().for_each(|v| s.m.del_vertex(did(v.id)))) }
    fn delete_edges(&mut self, e: Vec<ind::Edge>) -> ind::Result<()> { self.write("write: delete_edges", |s| e.iter().for_each(|e| s.m.del_edge(&ek(e)))) }
    fn delete_vertex_properties(&mut self, p: Vec<(Uuid, ind::Identifier)>) -> ind::Result<()> { self.write("write: delete_vertex_properties", |s| p.iter().for_each(|(i, n)| { s.m.vp.remove(&(did(*i), text(n))); })) }
    fn delete_edge_properties(&mut self, p: Vec<(ind::Edge, ind::Identifier)>) -> ind::Result<()> { self.write("write: delete_edge_properties", |s| p.iter().for_each(|(e, n)| { s.m.ep.remove(&(ek(e), text(n))); })) }
    fn create_vertex(&mut self, v: &ind::Vertex) -> ind::Result<bool> { self.write("write: create_vertex", |s| !s.refuse && s.m.create_v(did(v.id), &text(&v.t))) }
    fn create_edge(&mut self, e: &ind::Edge) -> ind::Result<bool> { self.write("write: create_edge", |s| s.m.create_e(&ek(e))) }
    fn index_property(&mut self, n: ind::Identifier) -> ind::Result<()> { self.write("write: index_property", |s| { s.m.ix.insert(text(&n)); }) }
    fn set_vertex_properties(&mut self, v: Vec<Uuid>, n: ind::Identifier, x: &ind::Json) -> ind::Result<()> { self.write("write: set_vertex_properties", |s| v.iter().for_each(|i| { s.m.vp.insert((did(*i), text(&n)), (**x).clone()); })) }
    fn set_edge_properties(&mut self, e: Vec<ind::Edge>, n: ind::Identifier, x: &ind::Json) -> ind::Result<()> { self.write("write: set_edge_properties", |s| e.iter().for_each(|e| { s.m.ep.insert((ek(e), text(&n)), (**x).clone()); })) }
    fn sync(&self) -> ind::Result<()> { let mut s = lk(&self.0); s.event("read: sync")?; if s.syncs { Ok(()) } else { Err(ind::Error::Unsupported) } }
}
/// The same datastore without a `sync` of its own: the trait's.
pub struct NoSync(pub Sh);
pub struct NoSyncTxn(RefTxn);
impl Datastore for NoSync {
    type Transaction<'a> = NoSyncTxn;
    fn transaction(&self) -> NoSyncTxn {
        NoSyncTxn(RefStore(self.0.clone()).transaction())
    }
}
#[rustfmt::skip]
impl<'a> Transaction<'a> for NoSyncTxn {
    fn vertex_count(&self) -> u64 { self.0.vertex_count() }
    fn all_vertices(&'a self) -> ind::Result<DynIter<'a, ind::Vertex>> { self.0.all_vertices() }
    fn range_vertices(&'a self, o: Uuid) -> ind::Result<DynIter<'a, ind::Vertex>> { self.0.range_vertices(o) }
    fn specific_vertices(&'a self, ids: Vec<Uuid>) -> ind::Result<DynIter<'a, ind::Vertex>> { self.0.specific_vertices(ids) }
    fn vertex_ids_with_property(&'a self, n: ind::Identifier) -> ind::Result<Option<DynIter<'a, Uuid>>> { self.0.vertex_ids_with_property(n) }
    fn vertex_ids_with_property_value(&'a self, n: ind::Identifier, v: &ind::Json) -> ind::Result<Option<DynIter<'a, Uuid>>> { self.0.vertex_ids_with_property_value(n, v) }
    fn edge_count(&self) -> u64 { self.0.edge_count() }
    fn all_edges(&'a self) -> ind::Result<DynIter<'a, ind::Edge>> { self.0.all_edges() }
    fn range_edges(&'a self, o: ind::Edge) -> ind::Result<DynIter<'a, ind::Edge>> { self.0.range_edges(o) }
    fn range_reversed_edges(&'a self, o: ind::Edge) -> ind::Result<DynIter<'a, ind::Edge>> { self.0.range_reversed_edges(o) }
    fn specific_edges(&'a self, e: Vec<ind::Edge>) -> ind::Result<DynIter<'a, ind::Edge>> { self.0.specific_edges(e) }
    fn edges_with_property(&'a self, n: ind::Identifier) -> ind::Result<Option<DynIter<'a, ind::Edge>>> { self.0.edges_with_property(n) }
    fn edges_with_property_value(&'a self, n: ind::Identifier, v: &ind::Json) -> ind::Result<Option<DynIter<'a, ind::Edge>>> { self.0.edges_with_property_value(n, v) }
    fn vertex_property(&self, v: &ind::Vertex, n: ind::Identifier) -> ind::Result<Option<ind::Json>> { self.0.vertex_property(v, n) }
    fn all_vertex_properties_for_vertex(&'a self, v: &ind::Vertex) -> ind::Result<DynIter<'a, (ind::Identifier, ind::Json)>> { self.0.all_vertex_properties_for_vertex(v) }
    fn edge_property(&self, e: &ind::Edge, n: ind::Identifier) -> ind::Result<Option<ind::Json>> { self.0.edge_property(e, n) }
    fn all_edge_properties_for_edge(&'a self, e: &ind::Edge) -> ind::Result<DynIter<'a, (ind::Identifier, ind::Json)>> { self.0.all_edge_properties_for_edge(e) }
    fn delete_vertices(&mut self, v: Vec<ind::Vertex>) -> ind::Result<()> { self.0.delete_vertices(v) }
    fn delete_edges(&mut self, e: Vec<ind::Edge>) -> ind::Result<()> { self.0.delete_edges(e) }
    fn delete_vertex_properties(&mut self, p: Vec<(Uuid, ind::Identifier)>) -> ind::Result<()> { self.0.delete_vertex_properties(p) }
    fn delete_edge_properties(&mut self, p: Vec<(ind::Edge, ind::Identifier)>) -> ind::Result<()> { self.0.delete_edge_properties(p) }
    fn create_vertex(&mut self, v: &ind::Vertex) -> ind::Result<bool> { self.0.create_vertex(v) }
    fn create_edge(&mut self, e: &ind::Edge) -> ind::Result<bool> { self.0.create_edge(e) }
    fn index_property(&mut self, n: ind::Identifier) -> ind::Result<()> { self.0.index_property(n) }
    fn set_vertex_properties(&mut self, v: Vec<Uuid>, n: ind::Identifier, x: &ind::Json) -> ind::Result<()> { self.0.set_vertex_properties(v, n, x) }
    fn set_edge_properties(&mut self, e: Vec<ind::Edge>, n: ind::Identifier, x: &ind::Json) -> ind::Result<()> { self.0.set_edge_properties(e, n, x) }
}
fn fresh() -> Sh {
    Arc::new(Mutex::new(St {
        m: Model::new(EdgeOrder::Plain),
        n: 0,
        log: vec![],
        fail_at: None,
        kind: 0,
        ends: false,
        fired: None,
        refuse: false,
        syncs: true,
        counts: None,
        alive: 0,
        begun: 0,
        iters: 0,
        gen: 0,
        bad: vec![],
    }))
}
fn arm(s: &Sh, at: Option<u64>, kind: u8, ends: bool) {
    let mut s = lk(s);
    (s.n, s.fail_at, s.kind, s.ends, s.fired, s.begun) = (0, at, kind, ends, None, 0);
    s.log.clear();
    s.bad.clear();
}
/// The operation as a bare call.
fn raw_call(d: &dyn Db, op: &Op) -> R<String> {
    match op {
        Op::CreateV(i, t) => d.create_vertex(*i, t).map(|b| b.to_string()),
        Op::CreateVT(t) => d.create_vertex_t(t).map(|b| format!("{b:x}")),
        Op::CreateE(e) => d.create_edge(e).map(|b| b.to_string()),
        Op::Bulk(i) => d.bulk(i).map(|_| "done".into()),
        Op::Set(q, n, v) => d.set(q.raw(), n, v).map(|_| "done".into()),
        Op::Delete(q) => d.delete(q.raw()).map(|_| "done".into()),
        Op::Index(n) => d.index(n).map(|_| "done".into()),
        Op::Get(q) => d.get(q.raw()).map(|o| short(&o)),
        Op::Sync => d.sync().map(|_| "done".into()),
        Op::Reopen(_) => Ok(String::new()),
    }
}
fn expected(kind: u8) -> E {
    err(fault(kind))
}
fn right(e: &E, kind: u8, remote: bool) -> bool {
    match (remote, e) {
        (false, E::Panic(t)) if kind == 7 => t.contains(MARK),
        (true, E::Other(_)) if kind == 7 => true,
        (_, E::Panic(_)) => false,
        (false, e) => *e == expected(kind),
        (true, E::Other(t)) => t.contains(&fault(kind).to_string()),
        (true, _) => false,
    }
}
fn bad(rep: &Report, sig: &str, lane: &str, seed: u64, log: &[Op], s: String) {
    let mut t = format!("C28 lane {lane} seed {seed}\n{s}\n--- history ---\n");
    for (k, o) in log.iter().enumerate() {
        t.push_str(&format!("{k:4} {}\n", short(o)));
    }
    rep.violation(sig, format!("[{lane}] {s}"), t);
}
fn hist(d: &dyn Db, s: &Sh, lane: &str, seed: u64, len: usize, most: usize, rep: &Report) {
    let remote = lane == "grpc";
    let mut r = Rng::new(seed);
    let p = Pools::new(&mut r, 6, 3, 3, 6);
    let mut m = Model::new(EdgeOrder::Plain);
    let warm = Weights { create_v: 10, create_vt: 1, create_e: 20, bulk: 2, set: 12, del_elems: 0, del_props: 0, index: 1, get: 0, sync: 0, reopen: 0, wild: 0, depth: 1 };
    let main = Weights { create_v: 6, create_vt: 2, create_e: 8, bulk: 8, set: 10, del_elems: 4, del_props: 6, index: 2, get: 34, sync: 1, reopen: 0, wild: 2, depth: 4 };
    let mut log = vec![];
    for k in 0..len {
        let op = gen_op(&p, &mut r, &m, if k < 14 { &warm } else { &main });
        crate::progress::doing(&format!("C28 {lane} seed {seed} step {k} {}", opname(&op)));
        log.push(op.clone());
        let before = lk(s).m.clone();
        arm(s, None, 0, false);
        match step_db(d, &mut m, &op, rep, false) {
            Err(x) => return bad(rep, "C28:answer", lane, seed, &log, format!("on a datastore that keeps its contract, {} : {x}", short(&op))),
            Ok(false) => {
                log.pop();
                continue;
            }
            Ok(true) => {}
        }
        rep.eval(1);
        rep.count("operations", 1);
        let (n, evs, begun, alive, mut b) = {
            let mut s = lk(s);
            (s.n, s.log.clone(), s.begun, s.alive, std::mem::take(&mut s.bad))
        };
        rep.count("events", n);
        if begun > 1 {
            b.push(format!("{begun} transactions were begun for it"));
        }
        if alive > 0 {
            b.push("its transaction was left open".into());
        }
        if let Some(b) = b.first() {
            return bad(rep, "C28:contract", lane, seed, &log, format!("{}: {b}", short(&op)));
        }
        if lk(s).m != m {
            return bad(rep, "C28:answer", lane, seed, &log, format!("{}: what arrived at the datastore is not what was asked for: it holds {}, should hold {}", short(&op), short(&lk(s).m), short(&m)));
        }
        // one failing event at a time
        let after = m.clone();
        let ks: Vec<u64> = if n as usize <= most { (1..=n).collect() } else { (0..most).map(|j| if j == 0 { 1 } else if j == 1 { n } else { 1 + r.below(n as usize) as u64 }).collect() };
        for at in ks {
            let kind = if r.chance(1, 2) { 0 } else { r.below(8) as u8 };
            let ends = r.chance(1, 2);
            lk(s).m = before.clone();
            arm(s, Some(at), kind, ends);
            let g = raw_call(d, &op);
            let (fired, begun, alive, mut b) = {
                let mut s = lk(s);
                (s.fired, s.begun, s.alive, std::mem::take(&mut s.bad))
            };
            rep.eval(1);
            let ev = evs.get(at as usize - 1).copied().unwrap_or("?");
            match fired {
                None => {
                    // a random id, a different path: the event did not come up
                    rep.count("faults_not_met", 1);
                    continue;
                }
                Some(f) => {
                    rep.count("faults", 1);
                    if kind == 7 {
                        rep.count(if remote { "panics_behind_the_server" } else { "panics" }, 1);
                    }
                    rep.count(&format!("fault at {f}"), 1);
                    rep.distinct(&(lane, opname(&op), f, kind, ends, at.min(12)));
                }
            }
            let ok = match &g {
                Err(e) => right(e, kind, remote),
                Ok(_) => false,
            };
            if !ok {
                b.push(format!("event {at} of {n} ({ev}) {} with {:?}, the operation {}", if kind == 7 { "panicked" } else { "failed" }, fault(kind).to_string(), match &g { Ok(x) => format!("answered {}", short(x)), Err(e) => format!("failed with {e:?}") }));
            }
            if begun > 1 {
                b.push(format!("{begun} transactions were begun"));
            }
            if alive > 0 {
                b.push("the transaction was left open".into());
            }
            if let Some(b) = b.first() {
                arm(s, None, 0, false);
                return bad(rep, "C28:fault", lane, seed, &log, format!("{} with a failing datastore: {b}", short(&op)));
            }
        }
        arm(s, None, 0, false);
        lk(s).m = after;
        if k % 16 == 15 || k + 1 == len {
            if let Err(x) = audit(d, &m, true) {
                return bad(rep, "C28:answer", lane, seed, &log, format!("audit: {x}"));
            }
            rep.count("audits", 1);
        }
    }
    // a datastore that has every id already
    lk(s).refuse = true;
    arm(s, None, 0, false);
    let a = d.create_vertex(r.u128(), &p.types[0]);
    let b = d.create_vertex_t(&p.types[0]);
    lk(s).refuse = false;
    let b_ok = match &b {
        Err(E::UuidTaken) => true,
        Err(E::Other(t)) => remote && t.contains(&ind::Error::UuidTaken.to_string()),
        _ => false,
    };
    if a != Ok(false) || !b_ok {
        return bad(rep, "C28:answer", lane, seed, &log, format!("the datastore refused a new vertex: create_vertex gave {a:?}, create_vertex_from_type {b:?}"));
    }
    // one that does not sync
    lk(s).syncs = false;
    let y = d.sync();
    lk(s).syncs = true;
    let y_ok = match &y {
        Err(E::Unsupported) => true,
        Err(E::Other(t)) => remote && t.contains(&ind::Error::Unsupported.to_string()),
        _ => false,
    };
    if !y_ok {
        return bad(rep, "C28:answer", lane, seed, &log, format!("sync is not supported by the datastore, but gave {y:?}"));
    }
    // one that counts more than fits in memory
    let big = [1u64 << 32, (1 << 32) + 7, 1 << 53, (1 << 53) + 1, 1 << 63, u64::MAX - 1, u64::MAX];
    let c = (*r.pick(&big), *r.pick(&big));
    lk(s).counts = Some(c);
    for (q, n, name) in [(Q::AllV, c.0, "vertices"), (Q::AllE, c.1, "edges")] {
        let g = d.get(Q::Count(Box::new(q.clone())).raw());
        if !matches!(&g, Ok(o) if o.len() == 1 && o[0] == Out::C(n)) {
            lk(s).counts = None;
            return bad(rep, "C28:answer", lane, seed, &log, format!("the datastore has {n} {name}, counting them gave {g:?}"));
        }
        rep.count("large_counts", 1);
    }
    lk(s).counts = None;
    rep.count(&format!("histories_{lane}"), 1);
    rep.distinct(&(lane, model_hash(&m)));
    if seed % 5 == 0 {
        rep.sample(json!({"lane": lane, "seed": seed, "last": log.iter().rev().take(3).map(short).collect::<Vec<_>>()}));
    }
}
pub fn c28(cx: &Ctx, rep: &Report) {
    super::net::sluggish("C28", h64(&(cx.seed, "slow")), rep);
    let t0 = Instant::now();
    let next = std::sync::atomic::AtomicU64::new(0);
    let dur: Duration = cx.dur(90);
    std::thread::scope(|sc| {
        for w in 0..cx.threads {
            let next = &next;
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(sc, move || {
                    let remote = w % 4 == 3;
                    while t0.elapsed() < dur && rep.nviol() < 6 {
                        let seed = h64(&(cx.seed, "C28", next.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
                        let s = fresh();
                        if remote {
                            let srv = Srv::start(Database::new(RefStore(s.clone())), None);
                            hist(&srv.client(), &s, "grpc", seed, 60, 6, rep);
                        } else if seed % 3 == 0 {
                            let db = Database::new(NoSync(s.clone()));
                            let y = Db::sync(&db);
                            if y != Err(E::Unsupported) {
                                rep.violation("C28:answer", format!("sync of a datastore that has none gave {y:?}"), String::new());
                            }
                            // the rest through the full one
                            hist(&Database::new(RefStore(s.clone())), &s, "local", seed, 70, 60, rep);
                        } else {
                            hist(&Database::new(RefStore(s.clone())), &s, "local", seed, 90, 60, rep);
                        }
                    }
                })
                .unwrap();
        }
    });
}
