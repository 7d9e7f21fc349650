//! C31: what a datastore transaction promises, call by call. Transactions of many calls — reads, writes, readers that are
//! stepped alternately or dropped half way — on both datastores, through the object-safe trait that plugins see.
use super::Ctx;
use crate::db::*;
use crate::engine::{audit, short};
use crate::gen::*;
use crate::model::*;
use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use indradb::{self as ind, Database, Datastore, MemoryDatastore, Transaction};
use serde_json::{json, Value};

#[derive(Clone, Debug)]
enum Rd {
    AllV,
    RangeV(Id),
    SpecV(Vec<Id>),
    VHas(String),
    VVal(String, Value),
    AllE,
    RangeE(EK),
    RangeR(EK),
    SpecE(Vec<EK>),
    EHas(String),
    EVal(String, Value),
    VProps(Id, String),
    EProps(EK),
}
#[derive(Clone, Debug)]
enum Act {
    Counts,
    VProp(Id, String, String),
    EProp(EK, String),
    /// readers and how they are stepped; a reader that is not stepped to its end is dropped where it is
    Read(Vec<Rd>, Vec<usize>),
    CreateV(Id, String),
    CreateE(EK),
    DelV(Vec<(Id, String)>),
    DelE(Vec<EK>),
    DelVP(Vec<(Id, String)>),
    DelEP(Vec<(EK, String)>),
    SetVP(Vec<Id>, String, Value),
    SetEP(Vec<EK>, String, Value),
    Bulk(Vec<Item>),
    Index(String),
    Sync,
}
#[derive(Clone, Debug, PartialEq)]
enum Row {
    V(Id, String),
    I(Id),
    E(EK),
    P(String, Value),
}
fn row_eq(a: &Row, b: &Row) -> bool {
    match (a, b) {
        (Row::P(n, v), Row::P(m, w)) => n == m && same(v, w),
        _ => a == b,
    }
}
type Rows<'a> = Box<dyn Iterator<Item = ind::Result<Row>> + 'a>;
fn rows<'a>(t: &'a (dyn Transaction<'a> + 'a), q: &Rd) -> ind::Result<Option<Rows<'a>>> {
    fn v<'a>(i: ind::DynIter<'a, ind::Vertex>) -> Option<Rows<'a>> {
        Some(Box::new(i.map(|x| x.map(|x| Row::V(did(x.id), text(&x.t))))))
    }
    fn id<'a>(i: Option<ind::DynIter<'a, uuid::Uuid>>) -> Option<Rows<'a>> {
        i.map(|i| Box::new(i.map(|x| x.map(|x| Row::I(did(x))))) as Rows<'a>)
    }
    fn e<'a>(i: ind::DynIter<'a, ind::Edge>) -> Option<Rows<'a>> {
        Some(Box::new(i.map(|x| x.map(|x| Row::E(ek(&x))))))
    }
    fn p<'a>(i: ind::DynIter<'a, (ind::Identifier, ind::Json)>) -> Option<Rows<'a>> {
        Some(Box::new(i.map(|x| x.map(|(n, v)| Row::P(text(&n), (*v).clone())))))
    }
    Ok(match q {
        Rd::AllV => v(t.all_vertices()?),
        Rd::RangeV(i) => v(t.range_vertices(uid(*i))?),
        Rd::SpecV(x) => v(t.specific_vertices(x.iter().map(|i| uid(*i)).collect())?),
        Rd::VHas(n) => id(t.vertex_ids_with_property(ident(n))?),
        Rd::VVal(n, x) => id(t.vertex_ids_with_property_value(ident(n), &js(x))?),
        Rd::AllE => e(t.all_edges()?),
        Rd::RangeE(x) => e(t.range_edges(edge(x))?),
        Rd::RangeR(x) => e(t.range_reversed_edges(edge(x))?),
        Rd::SpecE(x) => e(t.specific_edges(x.iter().map(edge).collect())?),
        Rd::EHas(n) => t.edges_with_property(ident(n))?.and_then(e),
        Rd::EVal(n, x) => t.edges_with_property_value(ident(n), &js(x))?.and_then(e),
        Rd::VProps(i, ty) => p(t.all_vertex_properties_for_vertex(&vertex(*i, ty))?),
        Rd::EProps(x) => p(t.all_edge_properties_for_edge(&edge(x))?),
    })
}
struct Want {
    rows: Vec<Row>,
    /// the order is part of what the trait says (ranges), or only the set is
    ordered: bool,
}
/// What the reader must yield. The value readers may treat numbers of equal value alike.
fn want(m: &Model, q: &Rd) -> Result<Option<Want>, String> {
    let set = |rows: Vec<Row>| Some(Want { rows, ordered: false });
    let seq = |rows: Vec<Row>| Some(Want { rows, ordered: true });
    let ev = |q: Q| -> Result<Option<Out>, String> {
        match m.eval(&q, None) {
            Ok(mut r) => Ok(Some(r.pop().ok_or("the model gave nothing")?.out)),
            Err(MErr::NotIndexed) => Ok(None),
            Err(e) => Err(format!("model: {e:?} on {q:?}")),
        }
    };
    let el = |o: Option<Out>, ids: bool| {
        o.map(|o| match o {
            Out::V(v) if ids => v.into_iter().map(|(i, _)| Row::I(i)).collect(),
            Out::V(v) => v.into_iter().map(|(i, t)| Row::V(i, t)).collect(),
            Out::E(v) => v.into_iter().map(Row::E).collect(),
            _ => Vec::new(),
        })
        .and_then(set)
    };
    let le = |a: &EK, b: &EK| {
        let mut v = vec![b.clone(), a.clone()];
        m.sort_edges(&mut v);
        v[0] == *a
    };
    Ok(match q {
        Rd::AllV => seq(m.v.iter().map(|(i, t)| Row::V(*i, t.clone())).collect()),
        Rd::RangeV(from) => seq(m.v.range(*from..).map(|(i, t)| Row::V(*i, t.clone())).collect()),
        Rd::SpecV(x) => {
            let mut ids = x.clone();
            ids.sort();
            ids.dedup();
            set(ids.iter().filter_map(|i| m.v.get(i).map(|t| Row::V(*i, t.clone()))).collect())
        }
        Rd::VHas(n) => el(ev(Q::VHas(n.clone()))?, true),
        Rd::VVal(n, v) => el(ev(Q::VVal(n.clone(), v.clone()))?, true),
        Rd::AllE => seq(m.all_edges().into_iter().map(Row::E).collect()),
        Rd::RangeE(from) => seq(m.all_edges().into_iter().filter(|e| le(from, e)).map(Row::E).collect()),
        Rd::RangeR(from) => {
            let mut v: Vec<EK> = m.e.iter().map(|e| e.rev()).collect();
            m.sort_edges(&mut v);
            seq(v.into_iter().filter(|e| le(from, e)).map(Row::E).collect())
        }
        Rd::SpecE(x) => {
            let mut es = x.clone();
            es.sort();
            es.dedup();
            set(es.into_iter().filter(|e| m.e.contains(e)).map(Row::E).collect())
        }
        Rd::EHas(n) => el(ev(Q::EHas(n.clone()))?, false),
        Rd::EVal(n, v) => el(ev(Q::EVal(n.clone(), v.clone()))?, false),
        Rd::VProps(i, _) => set(m.vprops(*i).into_iter().map(|(n, v)| Row::P(n, v)).collect()),
        Rd::EProps(e) => set(m.eprops(e).into_iter().map(|(n, v)| Row::P(n, v)).collect()),
    })
}
fn check_rows(q: &Rd, w: &Want, got: &[Row], done: bool) -> Result<(), String> {
    let bad = |s: &str| Err(format!("{q:?} yielded {} ({s}), expected {}{}", short(&got), short(&w.rows), if done { "" } else { ", so far" }));
    if w.ordered {
        if got.len() > w.rows.len() || !got.iter().zip(&w.rows).all(|(a, b)| row_eq(a, b)) {
            return bad("wrong rows or order");
        }
    } else {
        for (k, g) in got.iter().enumerate() {
            if !w.rows.iter().any(|x| row_eq(x, g)) {
                return bad("a row that does not belong");
            }
            let again = got[..k].iter().filter(|x| row_eq(x, g)).count();
            // an element asked for n times may come n times; nothing else may repeat
            let asked = match (q, g) {
                (Rd::SpecV(x), Row::V(i, _)) => x.iter().filter(|j| *j == i).count(),
                (Rd::SpecE(x), Row::E(e)) => x.iter().filter(|f| *f == e).count(),
                _ => 1,
            };
            if again + 1 > asked {
                return bad("a row repeats");
            }
        }
    }
    if done && !w.rows.iter().all(|x| got.iter().any(|g| row_eq(x, g))) {
        return bad("a row is missing");
    }
    Ok(())
}
fn er<T>(what: &impl std::fmt::Debug, r: ind::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("{} failed: {e:?}", short(what)))
}
/// One call on the open transaction and on the model.
fn act<'a>(t: &'a mut (dyn Transaction<'a> + 'a), m: &mut Model, a: &Act, syncs: bool) -> Result<u64, String> {
    let us = |x: &Vec<Id>| x.iter().map(|i| uid(*i)).collect::<Vec<_>>();
    let es = |x: &Vec<EK>| x.iter().map(edge).collect::<Vec<_>>();
    let opt = |what: &str, g: Option<ind::Json>, w: Option<&Value>| match (&g, w) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) if same(g, w) => Ok(()),
        _ => Err(format!("{} is {} instead of {}", what, short(&g), short(&w))),
    };
    match a {
        Act::Counts => {
            let (v, e) = (t.vertex_count(), t.edge_count());
            if (v, e) != (m.v.len() as u64, m.e.len() as u64) {
                return Err(format!("{v} vertices and {e} edges are counted, there are {} and {}", m.v.len(), m.e.len()));
            }
        }
        Act::VProp(i, ty, n) => opt(&format!("property {n:?} of {i:x}"), er(a, t.vertex_property(&vertex(*i, ty), ident(n)))?, m.vp.get(&(*i, n.clone())))?,
        Act::EProp(e, n) => opt(&format!("property {n:?} of {e:?}"), er(a, t.edge_property(&edge(e), ident(n)))?, m.ep.get(&(e.clone(), n.clone())))?,
        Act::Read(qs, sched) => {
            let t: &'a (dyn Transaction<'a> + 'a) = t;
            let mut its = Vec::new();
            for q in qs {
                let w = want(m, q)?;
                let i = er(q, rows(t, q))?;
                match (w, i) {
                    (None, None) => its.push(None),
                    (Some(w), Some(i)) => its.push(Some((w, i, Vec::new(), false))),
                    (w, _) => return Err(format!("{q:?}: the property is {}indexed, the reader says otherwise", if w.is_some() { "" } else { "not " })),
                }
            }
            let mut n = 0;
            for k in sched {
                let Some((_, i, got, done)) = &mut its[*k] else { continue };
                if *done {
                    continue;
                }
                match i.next() {
                    None => *done = true,
                    Some(x) => got.push(er(&qs[*k], x)?),
                }
                n += 1;
                if got.len() > 20_000 {
                    return Err(format!("{:?} goes on and on", qs[*k]));
                }
            }
            for (q, i) in qs.iter().zip(&its) {
                if let Some((w, _, got, done)) = i {
                    check_rows(q, w, got, *done)?;
                }
            }
            return Ok(n);
        }
        Act::CreateV(i, ty) => {
            let g = er(a, t.create_vertex(&vertex(*i, ty)))?;
            if g != m.create_v(*i, ty) {
                return Err(format!("{a:?} says {g}"));
            }
        }
        Act::CreateE(e) => {
            let g = er(a, t.create_edge(&edge(e)))?;
            if g != m.create_e(e) {
                return Err(format!("{a:?} says {g}"));
            }
        }
        Act::DelV(x) => {
            er(a, t.delete_vertices(x.iter().map(|(i, ty)| vertex(*i, ty)).collect()))?;
            x.iter().for_each(|(i, _)| m.del_vertex(*i));
        }
        Act::DelE(x) => {
            er(a, t.delete_edges(es(x)))?;
            x.iter().for_each(|e| m.del_edge(e));
        }
        Act::DelVP(x) => {
            er(a, t.delete_vertex_properties(x.iter().map(|(i, n)| (uid(*i), ident(n))).collect()))?;
            x.iter().for_each(|k| {
                m.vp.remove(k);
            });
        }
        Act::DelEP(x) => {
            er(a, t.delete_edge_properties(x.iter().map(|(e, n)| (edge(e), ident(n))).collect()))?;
            x.iter().for_each(|k| {
                m.ep.remove(k);
            });
        }
        Act::SetVP(x, n, v) => {
            er(a, t.set_vertex_properties(us(x), ident(n), &js(v)))?;
            // what is not there has no properties
            x.iter().filter(|i| m.v.contains_key(i)).for_each(|i| {
                m.vp.insert((*i, n.clone()), v.clone());
            });
        }
        Act::SetEP(x, n, v) => {
            er(a, t.set_edge_properties(es(x), ident(n), &js(v)))?;
            x.iter().filter(|e| m.e.contains(e)).for_each(|e| {
                m.ep.insert((e.clone(), n.clone()), v.clone());
            });
        }
        Act::Bulk(x) => {
            er(a, t.bulk_insert(x.iter().map(item).collect()))?;
            if !m.bulk(x) {
                return Err("the generated list is not one the model settles".into());
            }
        }
        Act::Index(n) => {
            er(a, t.index_property(ident(n)))?;
            m.ix.insert(n.clone());
        }
        Act::Sync if syncs => er(a, t.sync())?,
        Act::Sync => {
            let _ = t.sync();
        }
    }
    Ok(1)
}
fn some<T: Clone>(r: &mut Rng, mut one: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = if r.chance(1, 16) { r.range(8, 70) } else { [0, 1, 1, 2, 2, 3, 6][r.below(7)] };
    let mut v: Vec<T> = (0..n).map(|_| one(r)).collect();
    if n > 1 && r.chance(1, 3) {
        v[0] = v[n - 1].clone();
    }
    v
}
fn reader(r: &mut Rng, p: &Pools, m: &Model) -> Rd {
    let from = |r: &mut Rng| {
        let mut e = p.edge(r, Some(m));
        match r.below(4) {
            0 => e.i = [0, u128::MAX][r.below(2)],
            1 => e.t = String::new(),
            2 => e.o = e.o.wrapping_add(1),
            _ => {}
        }
        if e.t.is_empty() {
            e.t = p.t(r)
        }
        e
    };
    match r.below(13) {
        0 => Rd::AllV,
        1 => Rd::RangeV(p.id(r).wrapping_add([0, 0, 1, u128::MAX][r.below(4)])),
        2 => Rd::SpecV(some(r, |r| p.id(r))),
        3 => Rd::VHas(p.ixname(r, m)),
        4 => {
            let n = p.ixname(r, m);
            let v = p.vval(r, m, &n);
            Rd::VVal(n, v)
        }
        5 => Rd::AllE,
        6 => Rd::RangeE(from(r)),
        7 => Rd::RangeR(from(r).rev()),
        8 => Rd::SpecE(some(r, |r| p.edge(r, Some(m)))),
        9 => Rd::EHas(p.ixname(r, m)),
        10 => {
            let n = p.ixname(r, m);
            let v = p.eval(r, m, &n);
            Rd::EVal(n, v)
        }
        11 => {
            let i = p.id(r);
            Rd::VProps(i, m.v.get(&i).cloned().unwrap_or_else(|| p.t(r)))
        }
        _ => Rd::EProps(p.edge(r, Some(m))),
    }
}
fn read(r: &mut Rng, p: &Pools, m: &Model) -> Act {
    let k = [1, 1, 2, 3, 4][r.below(5)];
    let qs: Vec<Rd> = (0..k).map(|_| reader(r, p, m)).collect();
    let per = m.v.len() + m.e.len() + p.names.len() + 8;
    let mut sched = Vec::new();
    for q in 0..k {
        // most are read to the end
        let n = if r.chance(1, 3) { r.below(4) } else { per };
        sched.extend(std::iter::repeat(q).take(n));
    }
    if r.chance(2, 3) {
        r.shuffle(&mut sched);
    }
    Act::Read(qs, sched)
}
/// `absent`: whether properties may be set on what is not there (someone else may have removed it
/// since it was selected), which is then to be skipped.
fn gen_act(r: &mut Rng, p: &Pools, m: &Model, absent: bool) -> Act {
    let vs: Vec<Id> = m.v.keys().cloned().collect();
    let ty = |r: &mut Rng, i: &Id| m.v.get(i).cloned().unwrap_or_else(|| p.t(r));
    match r.below(34) {
        0 | 1 => Act::Counts,
        2 | 3 => {
            let i = p.id(r);
            Act::VProp(i, ty(r, &i), p.name(r))
        }
        4 | 5 => Act::EProp(p.edge(r, Some(m)), p.name(r)),
        6..=13 => read(r, p, m),
        14..=16 => Act::CreateV(p.id(r), p.t(r)),
        17..=20 => Act::CreateE(p.edge(r, Some(m))),
        21 => Act::DelV(some(r, |r| {
            let i = p.id(r);
            (i, ty(r, &i))
        })),
        22 => Act::DelE(some(r, |r| p.edge(r, Some(m)))),
        23 => Act::DelVP(some(r, |r| (p.id(r), p.name(r)))),
        24 => Act::DelEP(some(r, |r| (p.edge(r, Some(m)), p.name(r)))),
        25..=27 if absent && r.chance(1, 3) => Act::SetVP(some(r, |r| p.id(r)), p.name(r), p.val(r)),
        28..=30 if absent && r.chance(1, 3) => Act::SetEP(some(r, |r| p.edge(r, Some(m))), p.name(r), p.val(r)),
        25..=27 if !vs.is_empty() => Act::SetVP(some(r, |r| *r.pick(&vs)), p.name(r), p.val(r)),
        28..=30 if !m.e.is_empty() => {
            let es: Vec<EK> = m.e.iter().cloned().collect();
            Act::SetEP(some(r, |r| r.pick(&es).clone()), p.name(r), p.val(r))
        }
        31 => {
            let n = r.below(9);
            Act::Bulk(p.bulk(r, m, n))
        }
        32 => Act::Index(p.name(r)),
        33 => Act::Sync,
        _ => Act::CreateV(p.id(r), p.t(r)),
    }
}
fn call<D: Datastore>(t: &mut D::Transaction<'_>, m: &mut Model, a: &Act, syncs: bool) -> Result<u64, String> {
    // every reader is finished or dropped inside `act`, which returns owned data only
    let p: *mut D::Transaction<'_> = t;
    match guard(|| Ok(act(unsafe { &mut *p }, m, a, syncs))) {
        Ok(r) => r,
        Err(e) => Err(format!("{} panicked: {e:?}", short(a))),
    }
}
/// `many`: whether transactions may be open side by side in one thread.
fn history<D: Datastore + Send + Sync>(
    mut open: impl FnMut(Option<Database<D>>) -> R<Database<D>>,
    order: EdgeOrder,
    many: bool,
    seed: u64,
    rep: &Report,
) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let p = if r.chance(1, 2) { Pools::new(&mut r, 5, 3, 3, 5) } else { Pools::new(&mut r, 9, 4, 4, 7) };
    let mut m = Model::new(order);
    let mut db = open(None).map_err(|e| format!("open: {e:?}"))?;
    let mut log: Vec<String> = Vec::new();
    let n = r.range(4, 14);
    for k in 0..n {
        let calls = [1, 2, 3, 5, 8, 20, 40][r.below(7)];
        let fail = |log: &[String], e: String| Err(format!("{e}\n  transactions before and so far:\n    {}", log.iter().rev().take(60).rev().cloned().collect::<Vec<_>>().join("\n    ")));
        let width = if many && r.chance(1, 2) { r.range(2, 4) } else { 1 };
        log.push(format!("-- {width} transaction(s) open"));
        {
            let mut ts: Vec<D::Transaction<'_>> = (0..width).map(|_| db.datastore.transaction()).collect();
            for _ in 0..calls {
                let w = r.below(ts.len());
                let a = gen_act(&mut r, &p, &m, many);
                log.push(format!("{w}: {}", short(&a)));
                match call::<D>(&mut ts[w], &mut m, &a, true) {
                    Err(e) => return fail(&log, e),
                    Ok(n) => rep.count(if matches!(a, Act::Read(..)) { "rows_stepped" } else { "calls" }, n),
                }
                rep.eval(1);
                rep.distinct(&(crate::engine::model_hash(&m), format!("{a:?}").split(['(', ' ']).next().map(String::from)));
                if ts.len() > 1 && r.chance(1, 12) {
                    ts.remove(w);
                }
            }
            if width == 1 && calls > 1 {
                rep.count("transactions_of_several_calls", 1);
            } else if width > 1 {
                rep.count("transactions_side_by_side", width as u64);
            }
        }
        // what the transactions did is what the database shows
        if let Err(e) = audit(&db, &m, true) {
            return fail(&log, e);
        }
        rep.count("audits", 1);
        if k + 1 < n && r.chance(1, 4) {
            db = open(Some(db)).map_err(|e| format!("reopen: {e:?}"))?;
            log.push("-- reopened".into());
            if let Err(e) = audit(&db, &m, true) {
                return fail(&log, format!("after reopening: {e}"));
            }
            rep.count("reopens", 1);
        }
    }
    Ok(())
}
fn one(seed: u64, rep: &Report) -> Result<(), String> {
    let dir = scratch();
    match seed % 5 {
        0 | 1 => {
            rep.count("histories_memory", 1);
            // handles on one in-memory datastore are handles on the same data
            history(
                |old: Option<Database<MemoryDatastore>>| {
                    Ok(match old {
                        None => MemoryDatastore::new_db(),
                        Some(d) => Database::new(d.datastore.clone()),
                    })
                },
                EdgeOrder::Plain,
                false,
                seed,
                rep,
            )
            .map_err(|e| format!("memory: {e}"))
        }
        2 => {
            rep.count("histories_memory_image", 1);
            let p = dir.path().join("image");
            history(
                |old| match old {
                    None => Ok(MemoryDatastore::create_msgpack_db(&p)),
                    Some(d) => {
                        // what a clone of the handle persists is the same
                        let c = d.datastore.clone();
                        guard(|| c.transaction().sync().map_err(err))?;
                        drop(d);
                        guard(|| MemoryDatastore::read_msgpack_db(&p).map_err(|e| E::Other(e.to_string())))
                    }
                },
                EdgeOrder::Plain,
                false,
                seed,
                rep,
            )
            .map_err(|e| format!("memory with image: {e}"))
        }
        _ => {
            rep.count("histories_rocksdb", 1);
            let p = dir.path().join("db");
            let mut n = (seed % 20) as u8;
            history(
                |old| {
                    drop(old);
                    n = n.wrapping_add(1);
                    open_rocks(&p, n % 20)
                },
                EdgeOrder::LenPrefixed,
                true,
                seed,
                rep,
            )
            .map_err(|e| format!("rocksdb: {e}"))
        }
    }
}
/// An in-memory transaction has the data to itself until it is dropped, whatever the threads do.
fn alone(seed: u64, rep: &Report) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let p = Pools::new(&mut r, 6, 2, 3, 4);
    let db = MemoryDatastore::new_db();
    let (name, other) = (p.names[0].clone(), p.names[1].clone());
    for i in &p.ids {
        let t = p.t(&mut r);
        guard(|| db.create_vertex(&vertex(*i, &t)).map_err(err)).map_err(|e| format!("{e:?}"))?;
    }
    guard(|| db.index_property(ident(&name)).map_err(err)).map_err(|e| format!("{e:?}"))?;
    let bad = std::sync::Mutex::new(None::<String>);
    std::thread::scope(|s| {
        for th in 0..4u64 {
            let d = db.datastore.clone();
            let mut r = r.fork(th);
            let (p, name, other, bad) = (&p, &name, &other, &bad);
            s.spawn(move || {
                let res = guard(|| {
                    for k in 0..12u64 {
                        let stamp = json!(th * 1000 + k);
                        let mut t = d.transaction();
                        let all = |t: &<MemoryDatastore as Datastore>::Transaction<'_>| -> R<Vec<Option<Value>>> {
                            p.ids.iter().map(|i| Ok(t.vertex_property(&vertex(*i, "t"), ident(name)).map_err(err)?.map(|v| (*v).clone()))).collect()
                        };
                        let v = all(&t)?;
                        if v.iter().any(|x| x != &v[0]) {
                            return Err(E::Other(format!("a transaction sees half of another's writes: {v:?}")));
                        }
                        let write = r.chance(2, 3);
                        for (j, i) in p.ids.iter().enumerate() {
                            if write {
                                t.set_vertex_properties(vec![uid(*i)], ident(name), &js(&stamp)).map_err(err)?;
                                t.set_vertex_properties(vec![uid(*i)], ident(other), &js(&json!(j))).map_err(err)?;
                            }
                            if r.chance(1, 3) {
                                std::thread::yield_now();
                            } else if r.chance(1, 8) {
                                std::thread::sleep(std::time::Duration::from_micros(60));
                            }
                            let seen = all(&t)?;
                            let exp: Vec<Option<Value>> = (0..p.ids.len()).map(|x| if write && x <= j { Some(stamp.clone()) } else { v[x].clone() }).collect();
                            if seen != exp {
                                return Err(E::Other(format!("another thread wrote while the transaction was open: {seen:?} instead of {exp:?}")));
                            }
                        }
                        drop(t);
                        rep.eval(1);
                        rep.count("transactions_against_threads", 1);
                    }
                    Ok(())
                });
                if let Err(e) = res {
                    bad.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(format!("{e:?}"));
                }
            });
        }
    });
    match bad.into_inner().unwrap_or_else(|e| e.into_inner()) {
        None => Ok(()),
        Some(e) => Err(e),
    }
}
pub fn c31(cx: &Ctx, rep: &Report) {
    super::pure::repeat(cx, 31, cx.dur(90), rep, |s| {
        crate::progress::doing(&format!("C31 seed {s}"));
        if let Err(e) = one(s, rep) {
            rep.violation("C31:transaction", e.clone(), format!("C31 seed {s}\n{e}"));
        }
        if s % 3 == 0 {
            if let Err(e) = alone(s, rep) {
                rep.violation("C31:isolation", e.clone(), format!("C31 seed {s}\n{e}"));
            }
        }
        if s % 400 == 0 {
            rep.sample(json!({"seed": s}));
        }
    });
}
