//! C30: damage to what RocksDB keeps on disk is never passed off as an answer.
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

/// Remembers the error of the last call.
struct Tap<'a>(&'a dyn Db, Mutex<RefCell<Option<E>>>);
impl Tap<'_> {
    fn t<T>(&self, r: R<T>) -> R<T> {
        *self.1.lock().unwrap().borrow_mut() = r.as_ref().err().cloned();
        r
    }
    fn last(&self) -> Option<E> {
        self.1.lock().unwrap().borrow().clone()
    }
}
#[rustfmt::skip]
impl Db for Tap<'_> {
    fn create_vertex(&self, id: Id, t: &str) -> R<bool> { self.t(self.0.create_vertex(id, t)) }
    fn create_vertex_t(&self, t: &str) -> R<Id> { self.t(self.0.create_vertex_t(t)) }
    fn create_edge(&self, e: &EK) -> R<bool> { self.t(self.0.create_edge(e)) }
    fn get(&self, q: indradb::Query) -> R<Vec<Out>> { self.t(self.0.get(q)) }
    fn delete(&self, q: indradb::Query) -> R<()> { self.t(self.0.delete(q)) }
    fn set(&self, q: indradb::Query, name: &str, v: &Value) -> R<()> { self.t(self.0.set(q, name, v)) }
    fn bulk(&self, items: &[Item]) -> R<()> { self.t(self.0.bulk(items)) }
    fn index(&self, name: &str) -> R<()> { self.t(self.0.index(name)) }
    fn sync(&self) -> R<()> { self.t(self.0.sync()) }
    fn raw(&self) -> R<Option<RawDump>> { self.t(self.0.raw()) }
    fn range_v(&self, from: Id) -> R<Option<Vec<Id>>> { self.t(self.0.range_v(from)) }
    fn range_e(&self, from: &EK, reversed: bool) -> R<Option<Vec<EK>>> { self.t(self.0.range_e(from, reversed)) }
}
fn files(dir: &Path, pred: impl Fn(&str) -> bool) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).filter(|p| pred(&p.file_name().unwrap().to_string_lossy())).collect()).unwrap_or_default();
    v.sort();
    v
}
fn is_table(n: &str) -> bool {
    n.ends_with(".sst")
}
fn is_log(n: &str) -> bool {
    n.ends_with(".log")
}
/// A graph of many blocks: ids over the whole range, long values.
fn populate(d: &dyn Db, p: &Pools, m: &mut Model, r: &mut Rng, nv: usize, rep: &Report) -> Result<(), String> {
    let long = |r: &mut Rng| -> Value {
        if r.chance(1, 3) {
            return json!(r.below(4));
        }
        let n = r.range(20, 300);
        json!((0..n).map(|_| (b'!' + r.below(90) as u8) as char).collect::<String>())
    };
    step_db(d, m, &Op::Index(p.names[0].clone()), rep, false)?;
    let ids: Vec<Id> = p.ids.iter().copied().chain((0..nv).map(|_| r.u128())).collect();
    for part in ids.chunks(50) {
        let items = part.iter().map(|i| Item::V(*i, p.t(r))).collect();
        step_db(d, m, &Op::Bulk(items), rep, false)?;
    }
    for _ in 0..6 {
        let mut items = vec![];
        for _ in 0..nv {
            let e = EK::new(*r.pick(&ids), &p.t(r), *r.pick(&ids));
            items.push(Item::E(e.clone()));
            if r.chance(1, 2) {
                items.push(Item::EP(e, p.name(r), long(r)));
            }
            if r.chance(1, 2) {
                items.push(Item::VP(*r.pick(&ids), p.name(r), long(r)));
            }
        }
        step_db(d, m, &Op::Bulk(items), rep, false)?;
    }
    Ok(())
}
/// Changes some bytes; what was there before is returned.
fn hurt(f: &Path, r: &mut Rng) -> (Vec<u8>, String) {
    let old = std::fs::read(f).unwrap();
    let mut new = old.clone();
    let n = new.len().max(1);
    let how = match r.below(8) {
        0 => {
            let k = r.below(n);
            new.truncate(k);
            format!("cut off at {k}")
        }
        1 => {
            let (a, l) = (r.below(n), r.range(8, 600));
            new.iter_mut().skip(a).take(l).for_each(|b| *b = 0);
            format!("{l} bytes at {a} zeroed")
        }
        2 => {
            let (a, b, l) = (r.below(n), r.below(n), r.range(8, 4200));
            let from: Vec<u8> = old.iter().skip(a).take(l).copied().collect();
            for (k, x) in from.into_iter().enumerate() {
                if b + k < new.len() {
                    new[b + k] = x;
                }
            }
            format!("{l} bytes copied from {a} to {b}")
        }
        _ => {
            let k = *r.pick(&[1, 1, 1, 2, 8, 40]);
            for _ in 0..k {
                let a = r.below(n);
                if let Some(b) = new.get_mut(a) {
                    *b ^= 1 << r.below(8);
                }
            }
            format!("{k} bits flipped")
        }
    };
    std::fs::write(f, &new).unwrap();
    (old, how)
}
/// Puts the type bytes of the log's records back: RocksDB's reader loops for ever over some wrong ones, and silently
/// skips what it takes for preallocated space.
fn keep_types(f: &Path, old: &[u8]) {
    let mut new = std::fs::read(f).unwrap();
    let mut at = 0;
    while at + 7 <= old.len() {
        if let Some(b) = new.get_mut(at + 6) {
            *b = old[at + 6];
        }
        at += 7 + u16::from_le_bytes([old[at + 4], old[at + 5]]) as usize;
        let left = 32768 - at % 32768;
        if left < 7 {
            at += left;
        }
    }
    std::fs::write(f, &new).unwrap();
}
fn counting(q: &Q) -> bool {
    match q {
        Q::Count(i) => matches!(**i, Q::AllV | Q::AllE) || counting(i),
        q => q.inner().is_some_and(counting),
    }
}
fn probe(p: &Pools, r: &mut Rng, m: &Model) -> Q {
    let some = |r: &mut Rng| -> Vec<Id> {
        let v: Vec<Id> = m.v.keys().copied().collect();
        (0..r.range(1, 6)).map(|_| if v.is_empty() || r.chance(1, 8) { r.u128() } else { *r.pick(&v) }).collect()
    };
    let q = match r.below(10) {
        0..=3 => Q::SpecV(some(r)),
        4 | 5 => Q::RangeV { limit: r.below(30) as u32, t: p.opt_t(r), start: Some(some(r)[0]) },
        6 | 7 => {
            let v: Vec<&EK> = m.e.iter().collect();
            Q::SpecE((0..r.range(1, 6)).map(|_| if v.is_empty() || r.chance(1, 8) { EK::new(r.u128(), &p.t(r), r.u128()) } else { (*r.pick(&v)).clone() }).collect())
        }
        8 => Q::VHas(p.names[0].clone()),
        _ => return p.q_any(r, m, 3),
    };
    let b = Box::new;
    match r.below(8) {
        0 | 1 => Q::Props { inner: b(q), name: if r.chance(1, 2) { Some(p.name(r)) } else { None } },
        2 | 3 => Q::Pipe { inner: b(q), dir: if r.chance(1, 2) { Dir::Out } else { Dir::In }, limit: p.limit(r), t: p.opt_t(r) },
        4 => Q::Props { inner: b(Q::Pipe { inner: b(q), dir: if r.chance(1, 2) { Dir::Out } else { Dir::In }, limit: p.limit(r), t: p.opt_t(r) }), name: None },
        5 => Q::Val { inner: b(q), name: p.names[0].clone(), value: p.vval(r, m, &p.names[0]), equal: r.chance(1, 2) },
        _ => q,
    }
}
fn write_op(p: &Pools, r: &mut Rng, m: &Model) -> Op {
    let q = loop {
        let q = probe(p, r, m);
        if matches!(ty(&q), Ty::V | Ty::E | Ty::P) && !counting(&q) {
            break q;
        }
    };
    match r.below(8) {
        0 => Op::CreateV(if r.chance(1, 2) { r.u128() } else { p.id(r) }, p.t(r)),
        1 => Op::CreateE(p.edge(r, Some(m))),
        2 => {
            let n = r.range(1, 8);
            Op::Bulk(p.bulk(r, m, n))
        }
        3 => Op::Index(p.name(r)),
        4 | 5 => Op::Delete(q),
        6 if r.chance(1, 6) => Op::Sync,
        _ => {
            let v = p.val(r);
            Op::Set(q, p.name(r), v)
        }
    }
}
/// Damaged tables: every answer exact or an error; what failed did nothing, what succeeded is there when the damage is undone.
fn tables(seed: u64, rep: &Report) -> Result<(), (String, String)> {
    let v = |s: &str, e: String| (format!("C30:{s}"), e);
    let mut r = Rng::new(seed);
    let dir = scratch();
    let path = dir.path().join("db");
    let p = Pools::new(&mut r, 8, 3, 3, 6);
    let mut m = Model::new(EdgeOrder::LenPrefixed);
    {
        let db = open_rocks(&path, 1).map_err(|e| v("setup", format!("open: {e:?}")))?;
        let nv = r.range(60, 220);
        populate(&db, &p, &mut m, &mut r, nv, rep).map_err(|e| v("setup", e))?;
        if r.chance(1, 2) {
            Db::sync(&db).map_err(|e| v("setup", format!("sync: {e:?}")))?;
        }
    }
    if r.chance(1, 2) {
        // a log that was replayed is written to tables
        drop(open_rocks(&path, 1).map_err(|e| v("setup", format!("reopen: {e:?}")))?);
    }
    let ts = files(&path, is_table);
    if ts.is_empty() {
        rep.count("without_tables", 1);
        return Ok(());
    }
    let mut hurts: Vec<(PathBuf, Vec<u8>)> = vec![];
    let mut what = vec![];
    let n = if r.chance(2, 3) { 1 } else { 2 };
    for _ in 0..n {
        let f = r.pick(&ts).clone();
        if hurts.iter().any(|(g, _)| *g == f) {
            continue;
        }
        let (old, how) = hurt(&f, &mut r);
        what.push(format!("{} ({} bytes): {how}", f.file_name().unwrap().to_string_lossy(), old.len()));
        hurts.push((f, old));
    }
    let what = what.join("; ");
    crate::progress::doing(&format!("C30 tables seed {seed} {what}"));
    rep.count("tables_damaged", hurts.len() as u64);
    let opt = r.range(1, 20) as u8;
    let at = |s: String| format!("[seed {seed}, {what}] {s}");
    let mut unsure: Option<Model> = None;
    match open_rocks(&path, opt) {
        Err(E::Panic(e)) => return Err(v("panic", at(format!("opening panicked: {e}")))),
        Err(_) => rep.count("refused_to_open", 1),
        Ok(db) => {
            rep.count("opened_damaged", 1);
            let tap = Tap(&db, Default::default());
            let ro = r.chance(1, 2);
            for k in 0..60 {
                let op = if !ro && k > 15 && r.chance(1, 2) { write_op(&p, &mut r, &m) } else { Op::Get(probe(&p, &mut r, &m)) };
                if matches!(&op, Op::Get(q) if counting(q)) {
                    continue;
                }
                rep.eval(1);
                let before = m.clone();
                match step_db(&tap, &mut m, &op, rep, false) {
                    Ok(true) => {
                        rep.count(if matches!(op, Op::Get(_)) { "exact_answers" } else { "writes_done" }, 1);
                        rep.distinct(&("exact", opname(&op), hurts.len()));
                    }
                    Ok(false) => {}
                    Err(s) => match tap.last() {
                        Some(E::Other(t)) => {
                            m = before;
                            rep.count(if matches!(op, Op::Get(_)) { "answers_refused" } else { "writes_refused" }, 1);
                            rep.distinct(&("refused", opname(&op), t.chars().filter(|c| c.is_alphabetic()).take(40).collect::<String>()));
                            if !matches!(op, Op::Get(_) | Op::Sync) && t.contains("IO error") {
                                // what was written of it is not known
                                unsure = model_step(&m, &op);
                                break;
                            }
                        }
                        Some(E::Panic(e)) => return Err(v("panic", at(format!("{} panicked: {e}", short(&op))))),
                        _ => return Err(v("answer", at(format!("{}: {s}", short(&op))))),
                    },
                }
                if k % 12 == 11 {
                    let (i, e) = (p.id(&mut r), p.edge(&mut r, Some(&m)));
                    for (x, n) in [(tap.range_v(i).map(|g| g.map(|g| g.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>())), "range_vertices"), (tap.range_e(&e, k % 24 == 11).map(|g| g.map(|g| g.iter().map(|x| format!("{x:?}")).collect())), "range_edges")] {
                        let want: Vec<String> = if n == "range_vertices" {
                            m.v.keys().filter(|x| **x >= i).map(|x| format!("{x:x}")).collect()
                        } else {
                            let mut w: Vec<EK> = m.e.iter().map(|x| if k % 24 == 11 { x.rev() } else { x.clone() }).collect();
                            m.sort_edges(&mut w);
                            let f = |x: &EK| (x.o, x.t.len(), x.t.clone(), x.i);
                            w.iter().filter(|x| f(x) >= f(&e)).map(|x| format!("{x:?}")).collect()
                        };
                        match x {
                            Ok(Some(g)) if g == want => rep.count("exact_answers", 1),
                            Ok(g) => return Err(v("answer", at(format!("{n} gave {} instead of {} elements", g.map(|g| g.len()).unwrap_or(0), want.len())))),
                            Err(E::Other(_)) => rep.count("answers_refused", 1),
                            Err(e) => return Err(v("answer", at(format!("{n}: {e:?}")))),
                        }
                    }
                }
            }
            // counts cannot say that they failed
            for (q, n) in [(Q::Count(Box::new(Q::AllV)), m.v.len()), (Q::Count(Box::new(Q::AllE)), m.e.len())] {
                match tap.get(q.raw()) {
                    Ok(o) if o == vec![Out::C(n as u64)] => rep.count("exact_counts", 1),
                    Ok(o) => rep.violation("C30:count", at(format!("{q:?} gave {o:?} instead of {n}")), at(format!("{q:?} gave {o:?} instead of {n}"))),
                    Err(E::Panic(e)) => return Err(v("panic", at(format!("counting panicked: {e}")))),
                    Err(_) => rep.count("counts_refused", 1),
                }
            }
        }
    }
    // undone
    for (f, old) in &hurts {
        if f.exists() {
            std::fs::write(f, old).unwrap();
        }
    }
    let db = match open_rocks(&path, 1) {
        Ok(db) => db,
        Err(e) => return Err(v("healed", at(format!("with the damage undone, opening gave {e:?}")))),
    };
    if let Err(e) = audit(&db, &m, true) {
        let other = unsure.as_ref().map(|u| audit(&db, u, true));
        if !matches!(other, Some(Ok(()))) {
            return Err(v("healed", at(format!("with the damage undone: {e}"))));
        }
    }
    rep.count("healed", 1);
    Ok(())
}
/// A damaged log costs at most its end, or the opening fails.
fn logs(seed: u64, rep: &Report) -> Result<(), (String, String)> {
    let v = |s: &str, e: String| (format!("C30:{s}"), e);
    let mut r = Rng::new(seed);
    let dir = scratch();
    let path = dir.path().join("db");
    let p = Pools::new(&mut r, 5, 3, 3, 6);
    let w = Weights { wild: 0, sync: if r.chance(1, 4) { 1 } else { 0 }, reopen: 0, create_vt: 0, get: 0, index: 3, bulk: 8, ..Weights::default() };
    let n = r.range(4, 40);
    let ops = plan_ops(&p, &mut r, &Model::new(EdgeOrder::LenPrefixed), &w, n);
    let mut states = vec![Model::new(EdgeOrder::LenPrefixed)];
    {
        let db = open_rocks(&path, 1).map_err(|e| v("setup", format!("open: {e:?}")))?;
        let mut m = states[0].clone();
        for (op, _) in &ops {
            step_db(&db, &mut m, op, rep, false).map_err(|e| v("setup", e))?;
            states.push(m.clone());
        }
    }
    let ls = files(&path, is_log);
    // only the last one: of an earlier one RocksDB cannot tell that its end is missing
    let Some(f) = ls.last().filter(|f| f.metadata().is_ok_and(|m| m.len() > 0)) else {
        rep.count("without_log", 1);
        return Ok(());
    };
    let (old, how) = hurt(f, &mut r);
    keep_types(f, &old);
    let what = format!("[seed {seed}, log of {} operations, {} bytes: {how}]", ops.len(), old.len());
    crate::progress::doing(&format!("C30 logs {what}"));
    rep.eval(1);
    rep.count("logs_damaged", 1);
    match open_rocks(&path, 1) {
        Err(E::Panic(e)) => return Err(v("panic", format!("{what} opening panicked: {e}"))),
        Err(_) => rep.count("logs_refused", 1),
        Ok(db) => {
            let cands: Vec<(usize, &Model)> = states.iter().enumerate().rev().collect();
            match super::crash::find_state(&db, &cands, &p) {
                Ok(k) => {
                    rep.count(if k == ops.len() { "logs_complete" } else { "logs_cut" }, 1);
                    rep.distinct(&("log", k, ops.len()));
                    // and it can be used
                    let mut m = states[k].clone();
                    for op in resurrection(&p, &m) {
                        step_db(&db, &mut m, &op, rep, false).map_err(|e| v("log", format!("{what} after {k} operations were recovered: {}: {e}", short(&op))))?;
                    }
                    audit(&db, &m, true).map_err(|e| v("log", format!("{what} after {k} operations were recovered and all re-created: {e}")))?;
                }
                Err(e) => return Err(v("log", format!("{what} the database that was opened is in none of the states it was in: {}", e.chars().take(1500).collect::<String>()))),
            }
        }
    }
    Ok(())
}
/// The one wrong answer that is known: counts, always shown.
fn counts(rep: &Report) -> Result<(), String> {
    let dir = scratch();
    let path = dir.path().join("db");
    {
        let db = open_rocks(&path, 1).map_err(|e| format!("{e:?}"))?;
        let items: Vec<Item> = (0..300).map(|i| Item::V(i, "t".into())).collect();
        Db::bulk(&db, &items).map_err(|e| format!("{e:?}"))?;
        Db::sync(&db).map_err(|e| format!("{e:?}"))?;
    }
    for f in files(&path, is_table) {
        let mut b = std::fs::read(&f).unwrap();
        if b.len() > 200 {
            b[100] ^= 0x55;
            std::fs::write(&f, &b).unwrap();
        }
    }
    rep.eval(1);
    let Ok(db) = open_rocks(&path, 1) else { return Ok(()) };
    match Db::get(&db, Q::AllV.raw()) {
        Err(E::Other(_)) => {}
        x => return Err(format!("listing vertices of a damaged table gave {}", short(&x))),
    }
    match Db::get(&db, Q::Count(Box::new(Q::AllV)).raw()) {
        Ok(o) if o != vec![Out::C(300)] => rep.violation("C30:count", format!("counting the 300 vertices of a damaged table gave {o:?}"), "300 vertices, one byte of their table flipped".into()),
        Err(E::Panic(e)) => return Err(format!("counting panicked: {e}")),
        _ => {}
    }
    Ok(())
}
pub fn c30(cx: &Ctx, rep: &Report) {
    if let Err(e) = counts(rep) {
        rep.violation("C30:answer", e.clone(), e);
    }
    super::pure::repeat(cx, 30, cx.dur(88), rep, |s| {
        let x = if s % 3 == 0 { logs(s, rep) } else { tables(s, rep) };
        match x {
            Ok(()) => rep.distinct(&("case", s)),
            Err((sig, e)) => rep.violation(&sig, e.clone(), e),
        }
        if s % 50 == 0 {
            rep.sample(json!({"seed": s, "lane": if s % 3 == 0 { "log" } else { "tables" }}));
        }
    });
}
