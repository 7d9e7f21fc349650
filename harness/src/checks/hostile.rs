//! C24: whatever it is called with, a database stays intact and usable.
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::fault;
use crate::gen::*;
use crate::grpc::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use indradb as ind;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

/// A database reached directly or through a server.
enum Place {
    Local(Local),
    Mem(Srv<ind::MemoryDatastore>, Grpc),
    Rocks(Srv<ind::RocksdbDatastore>, Grpc),
}
impl Place {
    fn new(lane: &str) -> Result<Place, String> {
        let l = |k| Local::new(k).map(Place::Local).map_err(|e| format!("{e:?}"));
        match lane {
            "memory" => l(Kind::Mem),
            "memory-image" => l(Kind::MemImg),
            "rocksdb" => l(Kind::Rocks),
            "grpc-memory" => {
                let s = mem_srv();
                let g = s.client();
                Ok(Place::Mem(s, g))
            }
            _ => {
                let s = rocks_srv();
                let g = s.client();
                Ok(Place::Rocks(s, g))
            }
        }
    }
    fn d(&self) -> &dyn Db {
        match self {
            Place::Local(l) => l.d(),
            Place::Mem(_, g) => g,
            Place::Rocks(_, g) => g,
        }
    }
    fn reopen(&mut self, n: u8) -> R<()> {
        match self {
            Place::Local(l) => l.reopen(n),
            _ => Ok(()),
        }
    }
    fn order(&self) -> EdgeOrder {
        match self {
            Place::Local(l) => l.kind.order(),
            Place::Mem(..) => EdgeOrder::Plain,
            Place::Rocks(..) => EdgeOrder::LenPrefixed,
        }
    }
    /// Value depth from which a refusal is expected (the text form's limit), if any.
    fn depth_limit(&self) -> usize {
        match self {
            Place::Local(l) if l.kind != Kind::Rocks => usize::MAX,
            _ => 127,
        }
    }
}
fn depth(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        Value::Object(o) => 1 + o.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}
/// Everything that can be asked, in text; an answer that is an error is itself a complaint.
fn dump(d: &dyn Db, names: &[String], values: &[Value]) -> Result<Vec<String>, String> {
    let b = Box::new;
    let mut qs = vec![
        Q::Incl(b(Q::Props { inner: b(Q::Incl(b(Q::AllV))), name: None })),
        Q::Incl(b(Q::Props { inner: b(Q::Incl(b(Q::AllE))), name: None })),
        Q::Count(b(Q::AllV)),
        Q::Count(b(Q::AllE)),
        Q::Pipe { inner: b(Q::AllV), dir: Dir::Out, limit: u32::MAX, t: None },
        Q::Pipe { inner: b(Q::AllV), dir: Dir::In, limit: u32::MAX, t: None },
        Q::Pipe { inner: b(Q::AllE), dir: Dir::In, limit: u32::MAX, t: None },
        Q::Pipe { inner: b(Q::AllE), dir: Dir::Out, limit: u32::MAX, t: None },
        Q::RangeV { limit: u32::MAX, t: None, start: Some(u128::MAX) },
    ];
    for n in names {
        qs.push(Q::VHas(n.clone()));
        qs.push(Q::EHas(n.clone()));
        for v in values {
            qs.push(Q::VVal(n.clone(), v.clone()));
            qs.push(Q::EVal(n.clone(), v.clone()));
        }
    }
    let mut out = Vec::new();
    for q in qs {
        match d.get(q.raw()) {
            Ok(mut o) => {
                // index queries come in no particular order
                if matches!(q, Q::VHas(_) | Q::EHas(_) | Q::VVal(..) | Q::EVal(..)) {
                    for x in &mut o {
                        match x {
                            Out::V(v) => v.sort(),
                            Out::E(v) => v.sort(),
                            _ => {}
                        }
                    }
                }
                out.push(format!("{o:?}"))
            }
            Err(E::NotIndexed) => out.push("not indexed".into()),
            Err(E::Other(s)) if s.contains("status: Internal") && s.contains(&format!("{}", ind::Error::NotIndexed)) => out.push("not indexed".into()),
            Err(e) => return Err(format!("{} then fails with {e:?}", q.shape())),
        }
    }
    Ok(out)
}
fn differ(a: &[String], b: &[String]) -> Option<String> {
    a.iter().zip(b).find(|(x, y)| x != y).map(|(x, y)| format!("before {} after {}", short(x), short(y)))
}

// ---------------------------------------------------------------- a part of the graph that nothing hostile names
struct Sentinel {
    ids: Vec<Id>,
    ty: String,
    name: String,
    m: Model,
    round: u64,
}
impl Sentinel {
    fn new(d: &dyn Db, p: &Pools, order: EdgeOrder, r: &mut Rng, rep: &Report) -> Result<Sentinel, String> {
        let mut s = Sentinel { ids: vec![], ty: "sentinel-t".into(), name: "sentinel-n".into(), m: Model::new(order), round: 0 };
        let near: Vec<Id> = special_ids().into_iter().chain(p.ids.iter().flat_map(|i| [i.wrapping_add(1), i.wrapping_sub(1), i ^ (1 << 64)])).filter(|i| !p.ids.contains(i)).collect();
        while s.ids.len() < 4 {
            let i = *r.pick(&near);
            if !s.ids.contains(&i) {
                s.ids.push(i);
            }
        }
        let mut ops = vec![Op::Index(s.name.clone())];
        ops.extend(s.ids.iter().map(|i| Op::CreateV(*i, s.ty.clone())));
        for k in 0..4 {
            let e = EK::new(s.ids[k], &s.ty, s.ids[(k * 3 + 1) % 4]);
            ops.push(Op::CreateE(e.clone()));
            ops.push(Op::Set(Q::SpecE(vec![e]), s.name.clone(), json!(["e", k])));
            ops.push(Op::Set(Q::SpecV(vec![s.ids[k]]), s.name.clone(), json!({"v": k})));
        }
        for op in &ops {
            step_db(d, &mut s.m, op, rep, false)?;
        }
        Ok(s)
    }
    /// All of it is as it was.
    fn intact(&self, d: &dyn Db) -> Result<(), String> {
        let (m, b) = (&self.m, Box::new);
        let es: Vec<EK> = m.e.iter().cloned().collect();
        let props = |q: Q| Q::Incl(b(Q::Props { inner: b(Q::Incl(b(q))), name: None }));
        let v = || b(Q::SpecV(self.ids.clone()));
        for q in [
            props(Q::SpecV(self.ids.clone())),
            props(Q::SpecE(es)),
            Q::Pipe { inner: v(), dir: Dir::Out, limit: u32::MAX, t: None },
            Q::Pipe { inner: v(), dir: Dir::In, limit: u32::MAX, t: Some(self.ty.clone()) },
            Q::VHas(self.name.clone()),
            Q::EHas(self.name.clone()),
            Q::VVal(self.name.clone(), json!({"v": 2})),
            Q::EVal(self.name.clone(), json!(["e", 1])),
            Q::RangeV { limit: u32::MAX, t: Some(self.ty.clone()), start: None },
        ] {
            let got = d.get(q.raw()).map_err(|e| format!("untouched data: {} fails with {e:?}", q.shape()))?;
            let want = m.eval(&q, None).map_err(|e| format!("model {e:?}"))?;
            for (w, g) in want.iter().zip(&got) {
                compare(w, g).map_err(|e| format!("untouched data: {}: {e}", q.shape()))?;
            }
        }
        Ok(())
    }
    /// It can still be written.
    fn usable(&mut self, d: &dyn Db, rep: &Report) -> Result<(), String> {
        self.round += 1;
        let v = json!({"round": self.round});
        let q = Q::SpecV(vec![self.ids[0]]);
        let new = (0..).map(|k| self.ids[3] ^ (0x5e77 << 40) ^ k).find(|i| !self.ids.contains(i)).unwrap();
        let e = EK::new(new, &self.ty, self.ids[1]);
        for op in [
            Op::Set(q, self.name.clone(), v.clone()),
            Op::CreateV(new, self.ty.clone()),
            Op::CreateE(e.clone()),
            Op::Set(Q::SpecE(vec![e.clone()]), self.name.clone(), v.clone()),
            Op::Get(Q::EVal(self.name.clone(), v.clone())),
            Op::Get(Q::VVal(self.name.clone(), v)),
            Op::Delete(Q::SpecV(vec![new])),
            Op::Set(Q::SpecV(vec![self.ids[0]]), self.name.clone(), json!({"v": 0})),
        ] {
            step_db(d, &mut self.m, &op, rep, false).map_err(|x| format!("untouched data: {}: {x}", short(&op)))?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- calls
/// Queries confined to the given part of the graph (so that deleting by them cannot name anything else).
fn hostile_query(r: &mut Rng, p: &Pools, m: &Model, confined: bool) -> Q {
    let b = Box::new;
    let mut q = match r.below(if confined { 5 } else { 9 }) {
        0 => Q::SpecV(many(r, |r| p.id(r))),
        1 => Q::SpecE(many(r, |r| p.edge(r, None))),
        2 => Q::VVal(p.name(r), hostile_value(r, p)),
        3 => Q::EVal(p.name(r), hostile_value(r, p)),
        4 => Q::VHas(p.name(r)),
        5 => Q::RangeV { limit: *r.pick(&[0, 1, u32::MAX]), t: p.opt_t(r), start: Some(*r.pick(&[0, u128::MAX, u128::MAX - 1, p.ids[0]])) },
        6 => Q::AllV,
        7 => Q::AllE,
        _ => p.q_wild(r, m, 3),
    };
    if confined {
        if r.chance(1, 3) {
            q = Q::Props { inner: b(q), name: Some(p.name(r)) };
        }
        if r.chance(1, 6) {
            q = Q::Count(b(q));
        }
        return q;
    }
    let n = match r.below(6) {
        0 => r.range(30, 200),
        1 => r.range(5, 30),
        _ => r.range(0, 4),
    };
    for _ in 0..n {
        let inner = b(q);
        q = match r.below(if n > 4 { 4 } else { 8 }) {
            0 | 1 => Q::Pipe { inner, dir: if r.chance(1, 2) { Dir::Out } else { Dir::In }, limit: if n > 4 { r.below(4) as u32 } else { *r.pick(&[0, 1, u32::MAX]) }, t: p.opt_t(r) },
            2 => Q::Incl(inner),
            3 => Q::Has { inner, name: p.name(r), exists: r.chance(1, 2) },
            4 => Q::Val { inner, name: p.name(r), value: hostile_value(r, p), equal: r.chance(1, 2) },
            5 => Q::Props { inner, name: None },
            6 => Q::Count(inner),
            _ => *inner,
        };
    }
    q
}
enum Call {
    Get(Q),
    Delete(Q),
    Set(Q, String, Value),
    Bulk(Vec<Item>),
    CreateV(Id, String),
    CreateE(EK),
    Index(String),
    T(TCall),
}
impl std::fmt::Debug for Call {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Call::Get(q) => write!(f, "get {}", short(q)),
            Call::Delete(q) => write!(f, "delete {}", short(q)),
            Call::Set(q, n, v) => write!(f, "set {} {n} {}", short(q), short(v)),
            Call::Bulk(v) => write!(f, "bulk {} items {}", v.len(), short(v)),
            Call::CreateV(i, t) => write!(f, "create {i:x} {t}"),
            Call::CreateE(e) => write!(f, "create {e:?}"),
            Call::Index(n) => write!(f, "index {n}"),
            Call::T(t) => write!(f, "transaction {}", short(t)),
        }
    }
}
impl Call {
    fn kind(&self) -> String {
        match self {
            Call::Get(q) => format!("get {}", q.shape().chars().take(60).collect::<String>()),
            Call::Delete(q) => format!("delete {}", q.shape().chars().take(60).collect::<String>()),
            Call::Set(q, ..) => format!("set {}", q.shape().chars().take(60).collect::<String>()),
            Call::Bulk(v) => format!("bulk {}", bucket(v.len())),
            Call::CreateV(..) => "create vertex".into(),
            Call::CreateE(..) => "create edge".into(),
            Call::Index(_) => "index".into(),
            Call::T(t) => format!("{t:?}").split('(').next().unwrap().to_string(),
        }
    }
    fn run(&self, d: &dyn Db) -> R<()> {
        match self {
            Call::Get(q) => d.get(q.raw()).map(|_| ()),
            Call::Delete(q) => d.delete(q.raw()),
            Call::Set(q, n, v) => d.set(q.raw(), n, v),
            Call::Bulk(v) => d.bulk(v),
            Call::CreateV(i, t) => d.create_vertex(*i, t).map(|_| ()),
            Call::CreateE(e) => d.create_edge(e).map(|_| ()),
            Call::Index(n) => d.index(n),
            Call::T(t) => d.txn(t).map(|_| ()),
        }
    }
}
/// Orphans, conflicting items, unevaluable queries: only what they must not do is judged.
fn unsettled(lane: &'static str, seed: u64, rep: &Report) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let mut at = Place::new(lane)?;
    let mut p = Pools::new(&mut r, 6, 3, 3, 6);
    p.types.retain(|t| !t.starts_with("sentinel"));
    let mut s = Sentinel::new(at.d(), &p, at.order(), &mut r, rep)?;
    let nothing = Model::new(at.order());
    let mut log: Vec<String> = Vec::new();
    let values: Vec<Value> = p.values.iter().take(3).cloned().collect();
    let fail = |log: &[String], e: String| format!("seed {seed} {e}\n{}", log.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join("\n"));
    for _ in 0..40 {
        let c = match r.below(12) {
            0 | 1 => Call::Get(hostile_query(&mut r, &p, &nothing, false)),
            2 => Call::Delete(hostile_query(&mut r, &p, &nothing, true)),
            3 => Call::Set(hostile_query(&mut r, &p, &nothing, true), p.name(&mut r), hostile_value(&mut r, &p)),
            4 | 5 => Call::Bulk(hostile_items(&mut r, &p)),
            6 => Call::CreateV(p.id(&mut r), p.t(&mut r)),
            7 => Call::CreateE(p.edge(&mut r, None)),
            8 => Call::Index(p.name(&mut r)),
            _ => Call::T(tcall(&mut r, &p)),
        };
        log.push(format!("{c:?}"));
        crate::progress::doing(&format!("C24 {lane} seed {seed}: {}", log.last().unwrap()));
        let before = dump(at.d(), &p.names, &values).map_err(|e| fail(&log, e))?;
        let x = c.run(at.d());
        let after = dump(at.d(), &p.names, &values).map_err(|e| fail(&log, format!("after {x:?} from {c:?}: {e}")))?;
        rep.eval(1);
        rep.distinct(&(lane, c.kind(), x.is_ok(), before != after));
        rep.count(if x.is_ok() { "hostile_calls_accepted" } else { "hostile_calls_refused" }, 1);
        match &x {
            Err(E::Panic(e)) => return Err(fail(&log, format!("{c:?} panicked or hung: {e}"))),
            Err(e) => {
                if let Some(w) = differ(&before, &after) {
                    return Err(fail(&log, format!("{c:?} failed with {e:?} but changed something: {w}")));
                }
            }
            Ok(()) => {}
        }
        s.intact(at.d()).map_err(|e| fail(&log, format!("after {c:?}: {e}")))?;
        if r.chance(1, 3) {
            s.usable(at.d(), rep).map_err(|e| fail(&log, format!("after {c:?}: {e}")))?;
            rep.count("rewrites_of_untouched_data", 1);
        }
        if r.chance(1, 20) {
            at.reopen(r.below(20) as u8).map_err(|e| fail(&log, format!("reopening after {c:?}: {e:?}")))?;
            s.intact(at.d()).map_err(|e| fail(&log, format!("after {c:?} and reopening: {e}")))?;
            let again = dump(at.d(), &p.names, &values).map_err(|e| fail(&log, e))?;
            if let Some(w) = differ(&after, &again) {
                return Err(fail(&log, format!("reopening changed something: {w}")));
            }
            rep.count("reopened_with_oddities", 1);
        }
    }
    if rep.nviol() == 0 && r.chance(1, 10) {
        rep.sample(json!({"lane": lane, "seed": seed, "last": log.iter().rev().take(4).collect::<Vec<_>>()}));
    }
    Ok(())
}
/// Calls whose outcome the model settles, with extreme arguments; everything compared after each.
fn settled(lane: &'static str, seed: u64, rep: &Report) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let at = Place::new(lane)?;
    let p = Pools::new(&mut r, 5, 3, 3, 6);
    let mut m = Model::new(at.order());
    let limit = at.depth_limit();
    let w = Weights { wild: 14, bulk: 6, sync: 0, reopen: 0, create_vt: 0, index: 5, ..Weights::default() };
    let mut log: Vec<String> = Vec::new();
    let fail = |log: &[String], e: String| format!("seed {seed} {e}\n{}", log.join("\n"));
    for _ in 0..40 {
        let mut op = if r.chance(1, 6) { Op::Get(hostile_query(&mut r, &p, &m, false)) } else { gen_op(&p, &mut r, &m, &w) };
        let mut v = None;
        if let Op::Set(_, _, x) = &mut op {
            if r.chance(1, 2) {
                *x = hostile_value(&mut r, &p);
            }
            v = Some(depth(x));
        }
        log.push(short(&op));
        crate::progress::doing(&format!("C24 {lane} seed {seed}: {}", log.last().unwrap()));
        let remote = !matches!(at, Place::Local(_));
        let too_deep = v.unwrap_or(0) > limit;
        rep.eval(1);
        rep.count("settled_calls", 1);
        rep.distinct(&(lane, "settled", opname(&op), too_deep, m.v.len().min(2)));
        let dq = match &op {
            Op::Get(q) | Op::Delete(q) | Op::Set(q, ..) => q.depth(),
            _ => 0,
        };
        let deep_value_in_query = match &op {
            Op::Get(q) | Op::Delete(q) | Op::Set(q, ..) => qdepth(q) > limit,
            _ => false,
        };
        if too_deep || deep_value_in_query || (remote && dq > 20) {
            // may be refused; then nothing changed
            let x = match &op {
                Op::Get(q) => at.d().get(q.raw()).map(|_| ()),
                Op::Delete(q) => at.d().delete(q.raw()),
                Op::Set(q, n, v) => at.d().set(q.raw(), n, v),
                _ => unreachable!(),
            };
            rep.count("calls_beyond_a_limit", 1);
            match x {
                Err(E::Panic(e)) => return Err(fail(&log, format!("panicked or hung: {e}"))),
                Err(_) => {}
                Ok(()) => m = model_step(&m, &op).ok_or("model")?,
            }
        } else {
            match step_db(at.d(), &mut m, &op, rep, false) {
                Ok(_) => {}
                Err(e) => return Err(fail(&log, e)),
            }
        }
        audit(at.d(), &m, true).map_err(|e| fail(&log, format!("after {}: {e}", short(&op))))?;
    }
    Ok(())
}
fn qdepth(q: &Q) -> usize {
    let own = match q {
        Q::VVal(_, v) | Q::EVal(_, v) => depth(v),
        Q::Val { value, .. } => depth(value),
        _ => 0,
    };
    own.max(q.inner().map(qdepth).unwrap_or(0))
}

// ---------------------------------------------------------------- failing storage
/// Writes of the store fail: the operation's error must be all that happened.
fn failing_storage(seed: u64, rep: &Report) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let dir = scratch();
    let path = dir.path().join("db");
    let p = Pools::new(&mut r, 5, 3, 3, 6);
    let m0 = Model::new(EdgeOrder::LenPrefixed);
    let w = Weights { wild: 0, sync: 0, reopen: 0, create_vt: 0, get: 0, index: 4, bulk: 8, ..Weights::default() };
    let ops = plan_ops(&p, &mut r, &m0, &w, 30);
    let armed = AtomicU64::new(0);
    let hits = AtomicU64::new(0);
    let fail_at = r.range(8, 28);
    let errno = *r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT]);
    let short_write = r.chance(1, 3);
    let skip = r.below(2) as u64;
    let mut left = skip;
    let p2 = path.clone();
    let n = r.below(4) as u8 + 1;
    let res = fault::watch(
        dir.path(),
        |e: &fault::Ev| {
            if armed.load(SeqCst) == 1 && ["write", "pwrite64", "writev", "pwritev", "fsync", "fdatasync", "open", "openat", "rename"].contains(&e.call) {
                if left > 0 && short_write {
                    left -= 1;
                    return fault::Act::Short(500);
                }
                hits.fetch_add(1, SeqCst);
                return fault::Act::Errno(errno);
            }
            fault::Act::Pass
        },
        || -> Result<(Model, Option<Model>), String> {
            let db = open_rocks(&p2, n).map_err(|e| format!("open: {e:?}"))?;
            let mut m = m0.clone();
            for (k, (op, after)) in ops.iter().enumerate() {
                if k < fail_at {
                    step_db(&db, &mut m, op, rep, false).map_err(|e| format!("before any fault: {}: {e}", short(op)))?;
                    continue;
                }
                armed.store(1, SeqCst);
                let x = match op {
                    Op::CreateV(i, t) => Db::create_vertex(&db, *i, t).map(|_| ()),
                    Op::CreateE(e) => Db::create_edge(&db, e).map(|_| ()),
                    Op::Bulk(v) => Db::bulk(&db, v),
                    Op::Set(q, n, v) => Db::set(&db, q.raw(), n, v),
                    Op::Delete(q) => Db::delete(&db, q.raw()),
                    Op::Index(n) => Db::index(&db, n),
                    _ => Ok(()),
                };
                armed.store(0, SeqCst);
                rep.eval(1);
                match x {
                    Err(E::Panic(e)) => return Err(format!("{} panicked when the store could not be written: {e}", short(op))),
                    Err(_) => {
                        rep.count("operations_failed_by_storage", 1);
                        rep.distinct(&("storage", opname(op), errno, short_write, k));
                        // nothing changed, and all of it can be read
                        audit(&db, &m, true).map_err(|e| format!("{} failed because the store could not be written, and then: {e}", short(op)))?;
                        drop(db);
                        return Ok((m, Some(after.clone())));
                    }
                    // (nothing had to be written)
                    Ok(()) => m = after.clone(),
                }
            }
            drop(db);
            Ok((m, None))
        },
    );
    let (m, maybe) = match res {
        Err(e) => {
            rep.inconclusive(format!("storage faults cannot be injected here: {e}"));
            return Ok(());
        }
        Ok(x) => x?,
    };
    // after the trouble: the same data, or (a write whose fate the store did not know) the failed operation's as well
    let db = open_rocks(&path, 1).map_err(|e| format!("reopening after storage errors: {e:?}"))?;
    let a = audit(&db, &m, true);
    match (a, &maybe) {
        (Ok(()), _) => {}
        (Err(e), Some(x)) => audit(&db, x, true).map_err(|f| format!("after storage errors and reopening, neither the state before the failed operation ({e}) nor the one after it ({f})"))?,
        (Err(e), None) => return Err(format!("after reopening: {e}")),
    }
    let mut m = if audit(&db, &m, true).is_ok() { m } else { maybe.unwrap() };
    for op in [Op::CreateV(77, "t".into()), Op::CreateE(EK::new(77, "t", 77)), Op::Delete(Q::SpecV(vec![77]))] {
        step_db(&db, &mut m, &op, rep, false).map_err(|e| format!("after storage errors and reopening: {e}"))?;
    }
    rep.count("reopened_after_storage_errors", 1);
    Ok(())
}

pub fn c24(cx: &Ctx, rep: &Report) {
    let lanes = ["memory", "rocksdb", "memory-image", "rocksdb", "grpc-memory", "grpc-rocksdb", "memory", "rocksdb"];
    std::thread::scope(|sc| {
        for (k, lane) in lanes.into_iter().enumerate() {
            // deep values need the stack of a main thread
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    let t0 = Instant::now();
                    let mut n = 0u64;
                    while t0.elapsed() < cx.dur(90) && rep.nviol() < 6 {
                        n += 1;
                        let seed = h64(&(cx.seed, "c24", k, n));
                        let (what, x) = match n % 4 {
                            1 | 3 => ("unsettled", unsettled(lane, seed, rep)),
                            2 => ("settled", settled(lane, seed, rep)),
                            _ if lane == "rocksdb" => ("storage", failing_storage(seed, rep)),
                            _ => continue,
                        };
                        rep.count("rounds", 1);
                        if let Err(e) = x {
                            rep.violation(&format!("C24:{lane}:{what}"), format!("[{lane} {what}] {}", e.lines().next().unwrap_or("").chars().take(1500).collect::<String>()), e);
                        }
                    }
                })
                .unwrap();
        }
    });
    let _ = Duration::ZERO;
}
