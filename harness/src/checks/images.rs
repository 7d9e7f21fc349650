//! C14: image round trips. C15: faults, crashes, readers and odd paths during a sync.
use super::values::rich_value;
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::fault::{self, Act, Ev};
use crate::gen::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use indradb::{Database, MemoryDatastore};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub fn read_image(p: &Path) -> R<Database<MemoryDatastore>> {
    guard(|| MemoryDatastore::read_msgpack_db(p).map_err(|e| E::Other(format!("read image: {e}"))))
}
fn weights() -> Weights {
    Weights { create_v: 10, create_vt: 0, create_e: 16, bulk: 4, set: 18, del_elems: 5, del_props: 5, index: 3, get: 6, sync: 0, reopen: 0, wild: 1, depth: 3 }
}
fn pools(r: &mut Rng) -> Pools {
    let mut p = Pools::new(r, r.clone().range(3, 9), 3, 3, 6);
    for k in 0..3 {
        p.values[k] = rich_value(r);
    }
    // text plays no part in the image: any float must survive
    p.values[4] = json!(f64::from_bits(r.next() & !(1 << 62)));
    if p.values[4].is_null() || r.chance(1, 2) {
        p.values[4] = json!(31.245270191439438);
    }
    p
}
// ---- C14 ---------------------------------------------------------------------------
fn c14_history(seed: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    let p = pools(&mut r);
    let dir = scratch();
    let path = dir.path().join("image");
    let mut db = MemoryDatastore::create_msgpack_db(&path);
    let mut m = Model::new(EdgeOrder::Plain);
    let mut saved: Option<Model> = None;
    let mut log: Vec<String> = Vec::new();
    let w = weights();
    crate::progress::doing(&format!("C14 history seed {seed}"));
    let bad = |kind: &str, what: String, log: &[String]| {
        rep.violation(&format!("C14:{kind}"), what, format!("C14 history seed {seed}\n{}", log.join("\n")));
    };
    for _ in 0..r.range(10, 60) {
        let k = r.below(14);
        match k {
            0..=7 => {
                for _ in 0..r.range(1, 6) {
                    let op = gen_op(&p, &mut r, &m, &w);
                    log.push(short(&op));
                    if let Err(s) = step_db(&db, &mut m, &op, rep, false) {
                        return bad("history", s, &log);
                    }
                    rep.eval(1);
                    rep.distinct(&(opname(&op), saved.is_some(), m.v.len().min(3), m.ix.len().min(2)));
                }
            }
            8 | 9 => {
                log.push("sync".into());
                if let Err(e) = Db::sync(&db) {
                    return bad("sync", format!("sync failed: {e:?}"), &log);
                }
                saved = Some(m.clone());
                rep.count("syncs", 1);
                rep.distinct(&("image", model_hash(&m)));
                if let Err(s) = audit(&db, &m, true) {
                    return bad("sync-altered", format!("sync changed the database: {s}"), &log);
                }
            }
            10 => {
                // a second database from the same image; it lives on independently
                let Some(sv) = &saved else { continue };
                log.push("read a second database".into());
                rep.count("second_databases", 1);
                let d2 = match read_image(&path) {
                    Ok(d) => d,
                    Err(e) => return bad("read", format!("{e:?}"), &log),
                };
                let mut m2 = sv.clone();
                if let Err(s) = audit(&d2, &m2, true) {
                    return bad("image", format!("second database: {s}"), &log);
                }
                for _ in 0..r.range(0, 12) {
                    let op = gen_op(&p, &mut r, &m2, &w);
                    log.push(format!("  second: {}", short(&op)));
                    if let Err(s) = step_db(&d2, &mut m2, &op, rep, false) {
                        return bad("history", format!("second database: {s}"), &log);
                    }
                    rep.eval(1);
                }
                if r.chance(1, 3) {
                    log.push("  second: sync".into());
                    if let Err(e) = Db::sync(&d2) {
                        return bad("sync", format!("{e:?}"), &log);
                    }
                    saved = Some(m2.clone());
                }
                if let Err(s) = audit(&d2, &m2, true).and_then(|_| audit(&db, &m, true)) {
                    return bad("independence", format!("after using a second database: {s}"), &log);
                }
            }
            11 | 12 => {
                // lose everything after the last sync
                let Some(sv) = &saved else {
                    if path.exists() {
                        return bad("premature", "an image exists though nothing was synced".into(), &log);
                    }
                    continue;
                };
                log.push("drop and read the image".into());
                rep.count("reloads", 1);
                db = match read_image(&path) {
                    Ok(d) => d,
                    Err(e) => return bad("read", format!("{e:?}"), &log),
                };
                m = sv.clone();
                if let Err(s) = audit(&db, &m, true) {
                    return bad("image", format!("after reading the image: {s}"), &log);
                }
            }
            _ => {
                // start over on the same path: the old image stays until the next sync
                log.push("create_msgpack_db on the same path".into());
                rep.count("recreated", 1);
                db = MemoryDatastore::create_msgpack_db(&path);
                m = Model::new(EdgeOrder::Plain);
                if let Err(s) = audit(&db, &m, true) {
                    return bad("create", format!("a created database is not empty: {s}"), &log);
                }
            }
        }
    }
    if let Err(s) = audit(&db, &m, true) {
        return bad("final", s, &log);
    }
    match (&saved, read_image(&path)) {
        (Some(sv), Ok(d)) => {
            if let Err(s) = audit(&d, sv, true) {
                bad("image", format!("final image: {s}"), &log);
            }
        }
        (Some(_), Err(e)) => bad("read", format!("{e:?}"), &log),
        (None, Ok(_)) => bad("premature", "an image exists though nothing was synced".into(), &log),
        (None, Err(_)) => {}
    }
    rep.count("histories", 1);
    if seed % 11 == 0 {
        rep.sample(json!({"seed": seed, "steps": log.len(), "last": log.iter().rev().take(4).collect::<Vec<_>>()}));
    }
}
/// Sizes and depths beyond what histories reach.
fn c14_large(seed: u64, n: usize, rep: &Report) {
    let mut r = Rng::new(seed);
    let dir = scratch();
    let path = dir.path().join("image");
    let db = MemoryDatastore::create_msgpack_db(&path);
    let mut m = Model::new(EdgeOrder::Plain);
    crate::progress::doing(&format!("C14 large seed {seed}"));
    let ids: Vec<Id> = (0..n).map(|_| r.u128()).collect();
    let p = Pools::new(&mut r, 3, 4, 3, 40);
    let mut items: Vec<Item> = ids.iter().map(|i| Item::V(*i, p.t(&mut r))).collect();
    for _ in 0..n * 2 {
        items.push(Item::E(EK::new(*r.pick(&ids), &p.t(&mut r), *r.pick(&ids))));
    }
    for _ in 0..n {
        items.push(Item::VP(*r.pick(&ids), p.name(&mut r), p.val(&mut r)));
    }
    let _ = Db::index(&db, &p.names[0]);
    m.ix.insert(p.names[0].clone());
    if Db::bulk(&db, &items).is_err() || !m.bulk(&items) {
        rep.violation("C14:large", "large bulk insert failed".into(), format!("seed {seed}"));
        return;
    }
    let res = (|| -> Result<(), String> {
        Db::sync(&db).map_err(|e| format!("{e:?}"))?;
        let d = read_image(&path).map_err(|e| format!("{e:?}"))?;
        audit(&d, &m, true)?;
        let id = ids[0];
        let mut m2 = m.clone();
        step_db(&d, &mut m2, &Op::Delete(Q::SpecV(vec![id])), rep, false)?;
        audit(&d, &m2, true)?;
        Db::sync(&d).map_err(|e| format!("{e:?}"))?;
        audit(&read_image(&path).map_err(|e| format!("{e:?}"))?, &m2, false)
    })();
    rep.eval(items.len() as u64);
    rep.count("large_items", items.len() as u64);
    rep.distinct(&("large", n, seed));
    if let Err(s) = res {
        rep.violation("C14:large", format!("database of {} items: {s}", items.len()), format!("seed {seed}"));
    }
}
fn nested(depth: usize, r: &mut Rng) -> Value {
    let mut v = json!(depth);
    let f = r.below(3);
    for k in 0..depth {
        v = if f == 0 || (f == 2 && k % 2 == 0) { json!([v]) } else { json!({ "k": v }) };
    }
    v
}
fn c14_deep(seed: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    for depth in [50usize, 100, 127, 128, 200, 300, 340, 500, 511, 512, 1000, 1018, 1020, 1022, 1024, 1030, 2000, 5000] {
        crate::progress::doing(&format!("C14 value of depth {depth}"));
        let dir = scratch();
        let path = dir.path().join("image");
        let db = MemoryDatastore::create_msgpack_db(&path);
        let id: Id = 7;
        let v = nested(depth, &mut r);
        let (_, a) = (Db::create_vertex(&db, id, "t"), Db::set(&db, Q::SpecV(vec![id]).raw(), "p", &v));
        rep.eval(1);
        rep.distinct(&("deep", depth));
        if a.is_err() {
            rep.count("deep_refused", 1);
            continue;
        }
        if Db::sync(&db).is_err() {
            rep.count("deep_sync_refused", 1);
            continue;
        }
        let got = read_image(&path).and_then(|d| Db::get(&d, Q::Props { inner: Box::new(Q::SpecV(vec![id])), name: None }.raw()));
        let ok = matches!(&got, Ok(o) if matches!(&o[..], [Out::VP(x)] if x.len() == 1 && x[0].1.len() == 1 && same(&x[0].1[0].1, &v)));
        if !ok {
            rep.violation("C14:deep", format!("a database with a value nested {depth} deep was synced, but its image gives {}", short(&got)), format!("seed {seed} depth {depth}"));
        }
        rep.count("deep_images", 1);
        // an image that is read must be usable further
        drop(got);
        std::mem::drop(v);
    }
}
pub fn c14(cx: &Ctx, rep: &Report) {
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..cx.threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    let seed = h64(&(cx.seed, "c14", k));
                    if t0.elapsed() > cx.dur(90) || rep.nviol() >= 6 {
                        return;
                    }
                    match k {
                        0 => c14_deep(seed, rep),
                        1 => c14_large(seed, if cx.thorough { 20_000 } else { 1500 }, rep),
                        #[cfg(feature = "full")]
                        2 if !cfg!(debug_assertions) => super::scale::vast("C14", Kind::MemImg, seed, rep),
                        #[cfg(feature = "full")]
                        k if k % 40 == 3 => super::scale::one("C14", Kind::MemImg, seed, if k % 120 == 3 { 1500 } else { 300 }, rep),
                        _ => c14_history(seed, rep),
                    }
                })
                .unwrap();
        }
    });
}

// ---- C15 ---------------------------------------------------------------------------
/// Two states of one database, and how to get there.
struct Plan {
    a: Vec<(Op, Model)>,
    b: Vec<(Op, Model)>,
    ma: Model,
    mb: Model,
}
fn plan(seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = pools(&mut r);
    let size = r.below(4);
    if size >= 1 {
        p.values.push(json!("q".repeat([0usize, 9000, 40_000, 300_000][size])));
        p.values.push(Value::Array((0..[0usize, 1000, 4000, 30_000][size]).map(|k| json!(k)).collect()));
    }
    let w = Weights { get: 0, ..weights() };
    let m0 = Model::new(EdgeOrder::Plain);
    let na = r.range(5, 30);
    let a = plan_ops(&p, &mut r, &m0, &w, na);
    let ma = a.last().map(|x| x.1.clone()).unwrap_or(m0);
    let nb = r.range(1, 20);
    let mut b = plan_ops(&p, &mut r, &ma, &w, nb);
    // the two must differ
    let id = r.u128();
    let op = Op::CreateV(id, "marker".into());
    let mm = b.last().map(|x| x.1.clone()).unwrap_or(ma.clone());
    let m2 = model_step(&mm, &op).unwrap();
    b.push((op, m2.clone()));
    Plan { a, b, ma, mb: m2 }
}
fn run_ops(db: &Database<MemoryDatastore>, ops: &[(Op, Model)]) -> Result<(), String> {
    let rep = Report::default();
    for (op, m) in ops {
        let mut x = m.clone();
        // errors are expected for some operations
        let _ = match op {
            Op::CreateV(i, t) => Db::create_vertex(db, *i, t).map(|_| ()),
            Op::CreateE(e) => Db::create_edge(db, e).map(|_| ()),
            Op::Bulk(b) => Db::bulk(db, b),
            Op::Set(q, n, v) => Db::set(db, q.raw(), n, v),
            Op::Delete(q) => Db::delete(db, q.raw()),
            Op::Index(n) => Db::index(db, n),
            op => step_db(db, &mut x, op, &rep, false).map(|_| ()).map_err(E::Other),
        };
    }
    match ops.last() {
        Some((_, m)) => audit(db, m, false),
        None => Ok(()),
    }
}
/// Which of the two states the file holds.
fn which(path: &Path, p: &Plan, first: bool) -> Result<char, String> {
    if !path.exists() {
        return if first { Ok('A') } else { Err("the image is gone".into()) };
    }
    let d = read_image(path).map_err(|e| format!("the image is unreadable: {e:?}"))?;
    match (audit(&d, &p.mb, true), audit(&d, &p.ma, true)) {
        (Ok(()), _) => Ok('B'),
        (_, Ok(())) if !first => Ok('A'),
        (Err(b), Err(_)) => Err(format!("the image is neither the old nor the new one: {b}")),
        (Err(b), _) => Err(format!("an image appeared that is not the synced state: {b}")),
    }
}
fn actions(r: &mut Rng) -> Act {
    match r.below(9) {
        0 => Act::Errno(libc::ENOSPC),
        1 => Act::Errno(libc::EIO),
        2 => Act::Errno([libc::EDQUOT, libc::EACCES, libc::EROFS, libc::EMFILE, libc::EXDEV, libc::EPERM][r.below(6)]),
        3 => Act::Errno(libc::EINTR),
        4 | 5 => Act::Short([1, 500, 999][r.below(3)]),
        6 => Act::Torn([0, 1, 500, 999, 1000][r.below(5)]),
        _ => Act::Kill,
    }
}
fn act_code(a: &Act) -> String {
    match a {
        Act::Pass => "p0".into(),
        Act::Errno(e) => format!("e{e}"),
        Act::Kill => "k0".into(),
        Act::Short(p) => format!("s{p}"),
        Act::Torn(p) => format!("t{p}"),
    }
}
pub fn act_parse(s: &str) -> Act {
    let n: i64 = s[1..].parse().unwrap_or(0);
    match &s[..1] {
        "e" => Act::Errno(n as i32),
        "k" => Act::Kill,
        "s" => Act::Short(n as u32),
        "t" => Act::Torn(n as u32),
        _ => Act::Pass,
    }
}
/// Fails, shortens or survives one call of a sync and judges result and file.
fn c15_inprocess(seed: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    let p = plan(seed ^ 1);
    let first = r.chance(1, 4);
    let dir = scratch();
    let path = dir.path().join("image");
    let db = MemoryDatastore::create_msgpack_db(&path);
    let bad = |kind: &str, what: String| {
        rep.violation(&format!("C15:{kind}"), what, format!("C15 in-process seed {seed} first sync {first}"));
    };
    crate::progress::doing(&format!("C15 faults seed {seed}"));
    if let Err(s) = run_ops(&db, &p.a) {
        return bad("setup", s);
    }
    if !first {
        if let Err(e) = Db::sync(&db) {
            return bad("nofault", format!("a sync without any fault failed: {e:?}"));
        }
    }
    if let Err(s) = run_ops(&db, &p.b) {
        return bad("setup", s);
    }
    // how many calls does a sync make? (on a copy of the directory's state)
    let total = {
        let d2 = scratch();
        let db2 = MemoryDatastore::create_msgpack_db(d2.path().join("image"));
        let _ = run_ops(&db2, &p.a).and_then(|_| run_ops(&db2, &p.b));
        let n = AtomicUsize::new(0);
        let calls = std::sync::Mutex::new(Vec::new());
        let res = fault::watch(
            d2.path(),
            |e: &Ev| {
                n.fetch_add(1, Ordering::SeqCst);
                calls.lock().unwrap().push(e.call);
                Act::Pass
            },
            || Db::sync(&db2),
        );
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return bad("nofault", format!("a sync without any fault failed: {e:?}")),
            Err(s) => {
                rep.inconclusive(s);
                return;
            }
        }
        rep.count("watched_syncs", 1);
        for c in calls.into_inner().unwrap() {
            rep.count(&format!("sync_calls_{c}"), 1);
        }
        n.load(Ordering::SeqCst)
    };
    if total == 0 {
        rep.count("syncs_without_calls", 1);
    }
    let mut old = std::fs::read(&path).ok();
    let mut points: Vec<u64> = (1..=total as u64).collect();
    r.shuffle(&mut points);
    points.truncate(12);
    if !points.contains(&(total as u64)) && total > 0 {
        points.push(total as u64);
    }
    for n in points {
        let mut act = actions(&mut r);
        if matches!(act, Act::Kill | Act::Torn(_)) {
            act = Act::Errno(libc::ENOSPC);
        }
        let persistent = r.chance(1, 3) && matches!(act, Act::Errno(e) if e != libc::EINTR);
        // a fault may be followed by another, and before every call the file must be one a process could die with
        let second = if !persistent && r.chance(1, 4) { n + 1 + r.below(4) as u64 } else { 0 };
        let hit = std::sync::Mutex::new(String::new());
        let mut last = old.clone();
        let mut torn: Option<String> = None;
        let mut looks = 0;
        let res = fault::watch(
            dir.path(),
            |e: &Ev| {
                if torn.is_none() {
                    let now = std::fs::read(&path).ok();
                    looks += 1;
                    if now != last {
                        if now != old {
                            match which(&path, &p, first) {
                                Ok(_) => {}
                                Err(s) => torn = Some(format!("before call {} ({}): {s}", e.n, e.call)),
                            }
                        }
                        last = now;
                    }
                }
                if e.n == second {
                    return Act::Errno(libc::EIO);
                }
                if e.n == n || (persistent && e.n > n && !e.call.starts_with("unlink")) {
                    let mut h = hit.lock().unwrap();
                    if h.is_empty() {
                        *h = e.call.to_string();
                    }
                    act.clone()
                } else {
                    Act::Pass
                }
            },
            || Db::sync(&db),
        );
        let hit = hit.into_inner().unwrap();
        let ctx = format!("{act:?} at call {n} of {total} ({hit}){}", if persistent { " and all later".into() } else if second > 0 { format!(" and EIO at call {second}") } else { String::new() });
        rep.count("image_looked_at_between_calls", looks);
        if let Some(s) = torn {
            return bad("between", format!("{ctx}: a process dying here would leave a broken image: {s}"));
        }
        rep.eval(1);
        rep.distinct(&("fault", &hit, format!("{act:?}"), persistent, first, n.min(20)));
        rep.count(&format!("faults_{}", hit), 1);
        match res {
            Err(s) => {
                rep.inconclusive(s);
                return;
            }
            Ok(Err(E::Panic(s))) => return bad("panic", format!("{ctx}: sync panicked: {s}")),
            Ok(Err(_)) => {
                rep.count("sync_errors_reported", 1);
                let now = std::fs::read(&path).ok();
                if now != old {
                    return bad("not-intact", format!("{ctx}: sync reported an error but the previous image changed ({:?})", which(&path, &p, first)));
                }
            }
            Ok(Ok(())) => {
                rep.count("syncs_despite_fault", 1);
                match which(&path, &p, first) {
                    Ok('B') => {}
                    x => return bad("false-success", format!("{ctx}: sync reported success but {x:?}")),
                }
                // go back to the old image for the next point
                match &old {
                    Some(b) => std::fs::write(&path, b).unwrap(),
                    None => {
                        let _ = std::fs::remove_file(&path);
                    }
                }
            }
        }
        if let Err(s) = audit(&db, &p.mb, false) {
            return bad("state", format!("{ctx}: the database itself changed: {s}"));
        }
    }
    // the fault is gone
    old.take();
    match Db::sync(&db) {
        Ok(()) => {
            if which(&path, &p, first) != Ok('B') {
                bad("recovery", format!("a sync after failed ones gives {:?}", which(&path, &p, first)));
            }
        }
        Err(e) => bad("recovery", format!("a sync after failed ones failed: {e:?}")),
    }
    if seed % 13 == 0 {
        rep.sample(json!({"seed": seed, "calls_of_a_sync": total, "first": first}));
    }
}
/// Child: prepare, then die during (or survive) the second sync.
fn child_sync(a: &[String]) -> i32 {
    let dir = PathBuf::from(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let n: u64 = a[2].parse().unwrap();
    let act = act_parse(&a[3]);
    let first = a[4] == "1";
    let p = plan(seed ^ 1);
    let path = dir.join("image");
    let db = MemoryDatastore::create_msgpack_db(&path);
    if run_ops(&db, &p.a).is_err() || (!first && Db::sync(&db).is_err()) || run_ops(&db, &p.b).is_err() {
        return 9;
    }
    println!("ready");
    match fault::watch(&dir, fault::at(n, act), || Db::sync(&db)) {
        Ok(Ok(())) => println!("ok"),
        Ok(Err(e)) => println!("err {e:?}"),
        Err(s) => println!("nofilter {s}"),
    }
    0
}
fn c15_kill(seed: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    let first = r.chance(1, 4);
    let p = plan(seed ^ 1);
    let dir = scratch();
    let path = dir.path().join("image");
    let n = match r.below(3) {
        0 => r.range(1, 6),
        1 => r.range(1, 20),
        _ => r.range(1, 60),
    };
    let act = if r.chance(1, 3) { Act::Torn([0, 500, 999, 1000][r.below(4)]) } else { Act::Kill };
    let timed = r.chance(1, 4);
    crate::progress::doing(&format!("C15 kill seed {seed}"));
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["child", "sync", dir.path().to_str().unwrap(), &seed.to_string(), &(if timed { 0 } else { n }).to_string(), &act_code(&act), if first { "1" } else { "0" }])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .env_remove("VH_PROGRESS");
    let mut ch = c.spawn().unwrap();
    let mut out = ch.stdout.take().unwrap();
    let mut text = String::new();
    use std::io::Read;
    if timed {
        let mut b = [0u8; 6];
        let _ = out.read_exact(&mut b);
        text = String::from_utf8_lossy(&b).into_owned();
        let us = r.below(3000) as u64;
        std::thread::sleep(Duration::from_micros(us));
        let _ = ch.kill();
    }
    let mut rest = String::new();
    let _ = out.read_to_string(&mut rest);
    text += &rest;
    let st = ch.wait().unwrap();
    use std::os::unix::process::ExitStatusExt;
    let killed = st.signal() == Some(libc::SIGKILL);
    let ctx = format!("{} first={first}", if timed { "killed at a random time".into() } else { format!("{act:?} at call {n}") });
    rep.eval(1);
    rep.distinct(&("kill", &ctx, text.trim().lines().last().map(|s| s.to_string())));
    rep.count(if killed { "killed_during_sync" } else { "finished_before_kill" }, 1);
    let bad = |kind: &str, what: String| rep.violation(&format!("C15:{kind}"), format!("{ctx}: {what}"), format!("C15 kill seed {seed}\nchild said {text:?}, {st:?}"));
    if !text.starts_with("ready") {
        return bad("setup", format!("child failed early: {st:?}"));
    }
    if text.contains("nofilter") {
        rep.inconclusive(text);
        return;
    }
    let w = which(&path, &p, first);
    match (&w, text.contains("ok"), text.contains("err")) {
        (Err(s), ..) => bad("crash", s.clone()),
        (Ok('A'), true, _) => bad("false-success", "sync reported success but the old image is there".into()),
        (Ok('B'), _, true) => bad("not-intact", "sync reported an error but the new image is there".into()),
        (Ok(c), ..) => rep.count(if *c == 'A' { "old_image_after_kill" } else { "new_image_after_kill" }, 1),
    }
    if w.is_err() {
        return;
    }
    // whatever the dead process left behind, the next one can sync
    let d = if path.exists() { read_image(&path).ok() } else { Some(MemoryDatastore::create_msgpack_db(&path)) };
    if let Some(d) = d {
        let _ = Db::create_vertex(&d, 99, "after");
        match Db::sync(&d).and_then(|_| read_image(&path)).and_then(|x| Db::get(&x, Q::SpecV(vec![99]).raw())) {
            Ok(o) if matches!(&o[..], [Out::V(v)] if v.len() == 1) => {}
            x => bad("recovery", format!("sync after a crash: {}", short(&x))),
        }
    }
}
/// Child: one sync with unusual surroundings. Prints "ok" or "err".
fn child_path(a: &[String]) -> i32 {
    let dir = PathBuf::from(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let mode = a[2].as_str();
    let p = plan(seed ^ 1);
    let db_path = path_of(mode, &dir);
    if mode.contains("rel") {
        std::env::set_current_dir(&dir).unwrap();
    }
    let db = match Path::new(&db_path).exists() && !db_path.is_dir() {
        true => match MemoryDatastore::read_msgpack_db(&db_path) {
            Ok(d) => d,
            Err(_) => return 9,
        },
        false => {
            let db = MemoryDatastore::create_msgpack_db(&db_path);
            if run_ops(&db, &p.a).is_err() {
                return 9;
            }
            db
        }
    };
    if run_ops(&db, &p.b).is_err() {
        return 9;
    }
    unsafe {
        match mode {
            "fsize0" | "fsize1" | "fsize100" | "fsize5000" | "fsize20000" => {
                let n: u64 = mode[5..].parse().unwrap();
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            }
            "nofile" => {
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_NOFILE, &l);
            }
            "readonly-dir" | "readonly-file" | "no-search" => {
                if libc::setresgid(65534, 65534, 65534) != 0 || libc::setresuid(65534, 65534, 65534) != 0 {
                    return 8;
                }
            }
            _ => {}
        }
    }
    let out = match Db::sync(&db) {
        Ok(()) => "ok".to_string(),
        Err(e) => format!("err {e:?}"),
    };
    println!("{out}");
    0
}
fn path_of(mode: &str, dir: &Path) -> PathBuf {
    match mode {
        "rel" => PathBuf::from("image"),
        "rel-dot" => PathBuf::from("./image"),
        "rel-sub" => PathBuf::from("sub/image"),
        "rel-up" => PathBuf::from("sub/../image"),
        "weird" => dir.join("sub dir \u{e9}\u{1f600}/im age.\n%s"),
        "longname" => dir.join("x".repeat(255)),
        "toolong" => dir.join("x".repeat(256)),
        "missing" => dir.join("nope/image"),
        "parent-file" => dir.join("file/image"),
        "is-dir" => dir.join("sub"),
        "symlink-dir" => dir.join("link/image"),
        "dangling" => dir.join("dangling/image"),
        "empty" => PathBuf::from(""),
        _ => dir.join("image"),
    }
}
const MODES: &[&str] = &[
    "rel", "rel-dot", "rel-sub", "rel-up", "weird", "longname", "toolong", "missing", "parent-file", "is-dir", "symlink-dir", "dangling", "empty", "tmp-elsewhere", "tmp-missing", "fsize0",
    "fsize1", "fsize100", "fsize5000", "fsize20000", "nofile", "readonly-dir", "readonly-file", "no-search", "other-fs",
];
fn c15_paths(seed: u64, mode: &'static str, rep: &Report) {
    let mut r = Rng::new(seed);
    let existing = r.chance(2, 3);
    let p = plan(seed ^ 1);
    let dir = if mode == "other-fs" {
        match tempfile::Builder::new().prefix("vh-").tempdir_in("/tmp") {
            Ok(d) => d,
            Err(_) => return,
        }
    } else {
        scratch()
    };
    let d = dir.path();
    crate::progress::doing(&format!("C15 path {mode} seed {seed}"));
    use std::os::unix::fs::PermissionsExt;
    std::fs::create_dir(d.join("sub")).unwrap();
    std::fs::create_dir(d.join("sub dir \u{e9}\u{1f600}")).unwrap();
    std::fs::write(d.join("file"), "x").unwrap();
    let _ = std::os::unix::fs::symlink("sub", d.join("link"));
    let _ = std::os::unix::fs::symlink("nowhere", d.join("dangling"));
    let rel = path_of(mode, d);
    let path = if rel.is_absolute() { rel.clone() } else { d.join(&rel) };
    let impossible = ["toolong", "missing", "parent-file", "is-dir", "dangling", "empty"].contains(&mode);
    let bad = |kind: &str, what: String| rep.violation(&format!("C15:path:{mode}:{kind}"), format!("[{mode}, image {} before] {what}", if existing { "there" } else { "absent" }), format!("C15 path {mode} seed {seed}"));
    if existing && !impossible {
        let db = MemoryDatastore::create_msgpack_db(&path);
        if let Err(s) = run_ops(&db, &p.a).and_then(|_| Db::sync(&db).map_err(|e| format!("{e:?}"))) {
            return bad("nofault", format!("sync failed: {s}"));
        }
        let _ = std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o644));
    }
    let before = std::fs::read(&path).ok();
    let perm = |p: &Path, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
    perm(d, 0o777);
    match mode {
        "readonly-dir" => perm(d, 0o555),
        "readonly-file" => {
            perm(d, 0o555);
            if path.exists() {
                perm(&path, 0o444)
            }
        }
        _ => {}
    }
    if mode == "no-search" && !existing {
        perm(d, 0o600);
    }
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["child", "path", d.to_str().unwrap(), &seed.to_string(), mode]).stdout(Stdio::piped()).stderr(Stdio::null()).env_remove("VH_PROGRESS");
    match mode {
        "tmp-elsewhere" | "rel" => {
            // temporary files go to another filesystem
            c.env("TMPDIR", if d.starts_with("/dev/shm") { "/tmp" } else { "/dev/shm" });
        }
        "tmp-missing" => {
            c.env("TMPDIR", d.join("nope"));
        }
        _ => {}
    }
    let o = c.output().unwrap();
    perm(d, 0o755);
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    rep.eval(1);
    let ok = text.starts_with("ok");
    rep.distinct(&("path", mode, existing, ok));
    rep.count(if ok { "path_syncs_ok" } else { "path_syncs_refused" }, 1);
    if o.status.code() == Some(8) {
        rep.inconclusive("cannot switch to an unprivileged user".into());
        return;
    }
    if !ok && !text.starts_with("err") {
        return bad("crash", format!("the process ended with {:?} before reporting a result", o.status));
    }
    if text.contains("Panic") {
        return bad("panic", text);
    }
    let must_work = ["rel", "rel-dot", "rel-sub", "rel-up", "weird", "longname", "symlink-dir", "tmp-elsewhere", "tmp-missing", "other-fs"].contains(&mode);
    if must_work && !ok {
        return bad("refused", format!("a sync to a writable path failed: {text}"));
    }
    if ok {
        match which(&path, &p, !existing) {
            Ok('B') => {}
            x => bad("false-success", format!("sync reported success but {x:?}")),
        }
    } else if std::fs::read(&path).ok() != before {
        bad("not-intact", "sync reported an error but the previous image changed".into());
    }
}
/// Readers of the image while it is being replaced.
fn c15_readers(seed: u64, dur: Duration, rep: &Report) {
    const K: usize = 40;
    let dir = scratch();
    let path = dir.path().join("image");
    let db = MemoryDatastore::create_msgpack_db(&path);
    let acked = AtomicUsize::new(0);
    let issued = AtomicUsize::new(0);
    let synced = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    Db::sync(&db).unwrap();
    let t0 = Instant::now();
    crate::progress::doing(&format!("C15 readers seed {seed}"));
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut r = Rng::new(seed);
            while !stop.load(Ordering::SeqCst) {
                let g = issued.fetch_add(1, Ordering::SeqCst);
                let items: Vec<Item> = (0..K).map(|k| Item::V(((g as u128) << 64) + k as u128, format!("g{g}"))).collect();
                if Db::bulk(&db, &items).is_err() {
                    rep.violation("C15:readers:write", "bulk insert failed".into(), String::new());
                    return;
                }
                acked.store(g + 1, Ordering::SeqCst);
                if r.chance(1, 2) {
                    std::thread::sleep(Duration::from_micros(r.below(400) as u64));
                }
                if g > 400 {
                    // keep images small
                    std::thread::sleep(Duration::from_millis(5));
                }
            }
        });
        for _ in 0..2 {
            s.spawn(|| {
                while !stop.load(Ordering::SeqCst) {
                    let lo = acked.load(Ordering::SeqCst);
                    match Db::sync(&db) {
                        Ok(()) => {
                            synced.fetch_max(lo, Ordering::SeqCst);
                            rep.count("concurrent_syncs", 1);
                        }
                        Err(e) => {
                            rep.violation("C15:readers:sync", format!("a sync failed while others ran: {e:?}"), format!("seed {seed}"));
                            return;
                        }
                    }
                }
            });
        }
        for _ in 0..2 {
            s.spawn(|| {
                let mut last = 0;
                while !stop.load(Ordering::SeqCst) {
                    let lo = synced.load(Ordering::SeqCst).max(last);
                    let res = read_image(&path).map_err(|e| format!("unreadable: {e:?}")).and_then(|d| match Db::get(&d, Q::AllV.raw()).as_deref() {
                        Ok([Out::V(v)]) => Ok(v.clone()),
                        x => Err(format!("{x:?}")),
                    });
                    let hi = issued.load(Ordering::SeqCst);
                    match res {
                        Err(e) => {
                            rep.violation("C15:readers:image", format!("an image read while syncs run is {e}"), format!("seed {seed}"));
                            return;
                        }
                        Ok(v) => {
                            let n = v.len() / K;
                            let whole = v.len() % K == 0 && v.iter().enumerate().all(|(k, (id, t))| (*id >> 64) as usize == k / K && *id as u64 as usize == k % K && *t == format!("g{}", k / K));
                            if !whole || n < lo || n > hi {
                                rep.violation(
                                    "C15:readers:state",
                                    format!("an image read while syncs run holds {} vertices in {n} groups of {K} (whole: {whole}), expected {lo}..={hi} whole groups", v.len()),
                                    format!("seed {seed}"),
                                );
                                return;
                            }
                            last = n;
                            rep.eval(1);
                            rep.count("images_read_during_syncs", 1);
                            rep.distinct(&("reader", n));
                        }
                    }
                }
            });
        }
        while t0.elapsed() < dur && rep.nviol() == 0 {
            std::thread::sleep(Duration::from_millis(10));
        }
        stop.store(true, Ordering::SeqCst);
    });
}
/// One of several databases whose images lie in the same directory: it syncs again and again and reads its image back.
fn neighbour(path: &Path, tag: &str, rounds: usize, seed: u64, reread: bool) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let mut db = MemoryDatastore::create_msgpack_db(path);
    let own = h64(&tag) as u128;
    // what is written there as a type
    let tag = &tag.replace(['.', '~'], "_");
    for g in 0..rounds as u64 {
        let mut items = vec![Item::V(own, tag.to_string()), Item::VP(own, "gen".into(), json!(g))];
        items.push(Item::V(own + 1 + r.below(30) as u128, tag.to_string()));
        if r.chance(1, 8) {
            items.push(Item::VP(own, "weight".into(), json!("w".repeat([10usize, 5000, 60_000][r.below(3)]))));
        }
        Db::bulk(&db, &items).map_err(|e| format!("write: {e:?}"))?;
        Db::sync(&db).map_err(|e| format!("sync {g} of {tag} failed: {e:?}"))?;
        if g % 3 == 0 || g + 1 == rounds as u64 {
            let x = read_image(path).map_err(|e| format!("image of {tag} unreadable after its sync {g}: {e:?}"))?;
            let (a, b) = (Db::get(&x, props_all()), Db::get(&db, props_all()));
            if format!("{a:?}") != format!("{b:?}") {
                return Err(format!("image of {tag} after its sync {g}: {} instead of {}", short(&a), short(&b)));
            }
            if reread && r.chance(1, 4) {
                db = x;
            }
        }
    }
    Ok(())
}
fn props_all() -> indradb::Query {
    Q::Props { inner: Box::new(Q::AllV), name: None }.raw()
}
fn c15_neighbours(seed: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    let dir = scratch();
    let mut names = vec!["db", "db.tmp", "db.bak", ".db.tmp", "db~", "db.new", "db.old", "db.img", "db.swp", ".db", "tmp", ".tmp", "db2", ".indradb.tmp", "db.tmp.tmp", "db.part"];
    r.shuffle(&mut names);
    let n = r.range(2, 6);
    names.truncate(n);
    if r.chance(1, 2) && !names.contains(&"db") {
        names[0] = "db";
    }
    let rounds = r.range(6, 40);
    let apart = r.chance(1, 2);
    crate::progress::doing(&format!("C15 neighbours seed {seed}"));
    let bad = |what: String| rep.violation("C15:neighbours", format!("{names:?} in one directory{}: {what}", if apart { ", each in its own process" } else { "" }), format!("C15 neighbours seed {seed}, {rounds} syncs each"));
    let ok = if apart {
        let kids: Vec<_> = names
            .iter()
            .enumerate()
            .map(|(k, name)| {
                let p = dir.path().join(name);
                Command::new(std::env::current_exe().unwrap())
                    .args(["child", "neighbour", p.to_str().unwrap(), name, &rounds.to_string(), &(seed ^ k as u64).to_string()])
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .env_remove("VH_PROGRESS")
                    .spawn()
                    .unwrap()
            })
            .collect();
        let mut ok = true;
        for k in kids {
            let o = k.wait_with_output().unwrap();
            let t = String::from_utf8_lossy(&o.stdout).into_owned();
            if !t.starts_with("ok") {
                bad(format!("{} {}", t.trim(), o.status));
                ok = false;
            }
        }
        ok
    } else {
        let ok = AtomicBool::new(true);
        std::thread::scope(|s| {
            for (k, name) in names.iter().enumerate() {
                let (p, ok, bad) = (dir.path().join(name), &ok, &bad);
                s.spawn(move || {
                    if let Err(e) = neighbour(&p, name, rounds, seed ^ k as u64, k % 2 == 1) {
                        ok.store(false, Ordering::SeqCst);
                        bad(e);
                    }
                });
            }
        });
        ok.load(Ordering::SeqCst)
    };
    rep.eval((n * rounds) as u64);
    rep.distinct(&("neighbours", &names, apart));
    rep.count("neighbour_syncs", (n * rounds) as u64);
    if !ok {
        return;
    }
    // nobody syncs any more: every image is its owner's last
    for name in &names {
        match read_image(&dir.path().join(name)).map(|d| Db::get(&d, Q::Props { inner: Box::new(Q::SpecV(vec![h64(name) as u128])), name: Some("gen".into()) }.raw())) {
            Ok(Ok(o)) if format!("{o:?}").contains(&format!("{}", rounds - 1)) => {}
            x => bad(format!("in the end {name} holds {}", short(&x.map_err(|e| format!("{e:?}"))))),
        }
    }
    // and nothing of the syncs is left lying about
    let left: Vec<String> = std::fs::read_dir(dir.path()).unwrap().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).filter(|f| !names.contains(&f.as_str())).collect();
    rep.count("files_left_by_completed_syncs", left.len() as u64);
}
pub fn child(a: &[String]) -> i32 {
    if a[0] == "neighbour" {
        match neighbour(Path::new(&a[1]), &a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), false) {
            Ok(()) => println!("ok"),
            Err(s) => println!("BAD {s}"),
        }
        return 0;
    }

    match a[0].as_str() {
        "sync" => child_sync(&a[1..]),
        "path" => child_path(&a[1..]),
        _ => 7,
    }
}
pub fn c15(cx: &Ctx, rep: &Report) {
    c15_readers(h64(&(cx.seed, "readers")), cx.dur(10), rep);
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..cx.threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    let seed = h64(&(cx.seed, "c15", k));
                    if t0.elapsed() > cx.dur(85) || rep.nviol() >= 6 {
                        return;
                    }
                    if k % 16 == 15 || k == 1 {
                        c15_neighbours(seed, rep);
                    } else if k < MODES.len() * 2 || k % 8 == 3 {
                        c15_paths(seed, MODES[k % MODES.len()], rep);
                    } else if k % 8 < 3 {
                        c15_inprocess(seed, rep);
                    } else {
                        c15_kill(seed, rep);
                    }
                })
                .unwrap();
        }
    });
    if let Ok(l) = rep.i.lock() {
        if l.inconclusive.len() > 20 && !l.counters.contains_key("killed_during_sync") {
            drop(l);
            rep.count("no_fault_injection_possible", 1);
        }
    }
}
