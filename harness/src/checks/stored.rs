//! C26: data written by the released version. The fixtures (RocksDB directories and images, each with its reference
//! graph) were written once, by the released code and the code as first repaired; whatever the tree under test is, it
//! must read them as what they are, find everything in their indexes, and go on with them.
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Instant;

fn kind(s: &str) -> Kind {
    match s {
        "rocksdb" => Kind::Rocks,
        _ => Kind::MemImg,
    }
}
fn to_json(m: &Model) -> Value {
    let h = |i: Id| format!("{i:032x}");
    json!({
        "v": m.v.iter().map(|(i, t)| json!([h(*i), t])).collect::<Vec<_>>(),
        "e": m.e.iter().map(|e| json!([h(e.o), e.t, h(e.i)])).collect::<Vec<_>>(),
        "vp": m.vp.iter().map(|((i, n), v)| json!([h(*i), n, v])).collect::<Vec<_>>(),
        "ep": m.ep.iter().map(|((e, n), v)| json!([h(e.o), e.t, h(e.i), n, v])).collect::<Vec<_>>(),
        "ix": m.ix.iter().collect::<Vec<_>>(),
    })
}
fn from_json(j: &Value, k: Kind) -> Model {
    let id = |v: &Value| u128::from_str_radix(v.as_str().unwrap(), 16).unwrap();
    let s = |v: &Value| v.as_str().unwrap().to_string();
    let mut m = Model::new(k.order());
    for x in j["v"].as_array().unwrap() {
        m.v.insert(id(&x[0]), s(&x[1]));
    }
    for x in j["e"].as_array().unwrap() {
        m.e.insert(EK { o: id(&x[0]), t: s(&x[1]), i: id(&x[2]) });
    }
    for x in j["vp"].as_array().unwrap() {
        m.vp.insert((id(&x[0]), s(&x[1])), x[2].clone());
    }
    for x in j["ep"].as_array().unwrap() {
        m.ep.insert((EK { o: id(&x[0]), t: s(&x[1]), i: id(&x[2]) }, s(&x[3])), x[4].clone());
    }
    for x in j["ix"].as_array().unwrap() {
        m.ix.insert(s(x));
    }
    m
}
/// Values whose text says exactly what they are (what text may lose is the business of C08).
fn safe(v: &Value) -> bool {
    serde_json::from_str::<Value>(&v.to_string()).is_ok_and(|x| same(&x, v))
}
fn whole_float(v: &Value) -> bool {
    match v {
        Value::Number(n) => n.is_f64() && n.as_f64().unwrap().fract() == 0.0,
        Value::Array(a) => a.iter().any(whole_float),
        Value::Object(o) => o.values().any(whole_float),
        _ => false,
    }
}
fn fixture_pools(r: &mut Rng, big: bool) -> Pools {
    let mut p = if big { Pools::new(r, 40, 6, 6, 30) } else { Pools::new(r, 9, 4, 4, 14) };
    p.values.retain(safe);
    p.values.push(json!(1));
    for f in families() {
        if r.chance(1, 4) {
            p.values.extend(f.into_iter().filter(safe).take(3));
        }
    }
    p
}
/// child fixture <dir> <kind> <seed> <plain|full> <close|leave>: writes <dir>/data and <dir>/model.json
fn write(a: &[String]) -> Result<String, String> {
    let (dir, k, seed, full) = (PathBuf::from(&a[0]), kind(&a[1]), a[2].parse::<u64>().unwrap(), a[3] == "full");
    let mut r = Rng::new(seed);
    let big = seed % 4 == 3;
    let mut p = fixture_pools(&mut r, big);
    if !full {
        p.ids.retain(|i| *i != u128::MAX);
        // (the released in-memory store files a float under the integer of its value, -0.0 under 0.0)
        p.values.retain(|v| !whole_float(v));
        p.names.sort();
        p.names.dedup();
        while p.names.len() < 2 {
            p.names.push(format!("n{}", p.names.len()));
        }
    }
    let w = if full {
        Weights { create_v: 10, create_vt: 0, create_e: 16, bulk: 4, set: 20, del_elems: 2, del_props: 3, index: 3, get: 0, sync: 1, reopen: 1, wild: 0, depth: 2 }
    } else {
        // nothing that the released version gets wrong
        Weights { create_v: 10, create_vt: 0, create_e: 16, bulk: 0, set: 0, del_elems: 0, del_props: 0, index: 2, get: 0, sync: 0, reopen: 0, wild: 0, depth: 2 }
    };
    let n = if big { 400 } else { 80 };
    let mut ops = plan_ops(&p, &mut r, &Model::new(k.order()), &w, n);
    if !full {
        // every property is set once, one owner at a time
        let m = ops.last().unwrap().1.clone();
        let mut more = Vec::new();
        for id in m.v.keys() {
            for n in &p.names {
                if r.chance(1, 2) {
                    more.push(Op::Set(Q::SpecV(vec![*id]), n.clone(), p.val(&mut r)));
                }
            }
        }
        for e in m.e.iter().take(60) {
            for n in &p.names {
                if r.chance(1, 2) {
                    more.push(Op::Set(Q::SpecE(vec![e.clone()]), n.clone(), p.val(&mut r)));
                }
            }
        }
        r.shuffle(&mut more);
        more.insert(more.len() / 2, Op::Index(p.names[0].clone()));
        more.push(Op::Index(p.names[1].clone()));
        let mut m = m;
        for op in more {
            m = model_step(&m, &op).unwrap();
            ops.push((op, m.clone()));
        }
    }
    let path = dir.join("data");
    let mut l = Local::at(k, path, 0, true).map_err(|e| format!("open {e:?}"))?;
    let mut m = Model::new(k.order());
    let rep = Report::default();
    for (op, _) in &ops {
        if matches!(op, Op::Reopen(_)) && k == Kind::MemImg {
            continue;
        }
        step(&mut l, &mut m, op, &rep, false)?;
    }
    // (what the released version makes of its own data in a query is not always right; the check audits)
    if full {
        audit(l.d(), &m, true)?;
    }
    if k == Kind::MemImg {
        l.d().sync().map_err(|e| format!("{e:?}"))?;
    }
    std::fs::write(dir.join("model.json"), to_json(&m).to_string()).unwrap();
    let back: Value = serde_json::from_str(&std::fs::read_to_string(dir.join("model.json")).unwrap()).unwrap();
    let m2 = from_json(&back, k);
    if full {
        audit(l.d(), &m2, true).map_err(|e| format!("the written model differs: {e}"))?;
    }
    if a[4] == "leave" {
        std::mem::forget(l);
    }
    Ok(format!("ok {} v {} e {} p {} ix", m.v.len(), m.e.len(), m.vp.len() + m.ep.len(), m.ix.len()))
}
pub fn child(a: &[String]) -> i32 {
    match write(a) {
        Ok(s) => {
            println!("{s}");
            use std::io::Write;
            let _ = std::io::stdout().flush();
            unsafe { libc::_exit(0) }
        }
        Err(s) => {
            println!("not written: {s}");
            1
        }
    }
}
struct Fixture {
    name: String,
    file: PathBuf,
}
fn fixtures() -> Vec<Fixture> {
    let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/../fixtures");
    let mut v: Vec<Fixture> = std::fs::read_dir(dir)
        .map(|d| d.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "tgz")).map(|p| Fixture { name: p.file_stem().unwrap().to_string_lossy().into_owned(), file: p }).collect())
        .unwrap_or_default();
    v.sort_by(|a, b| a.name.cmp(&b.name));
    v
}
fn unpack(f: &Path, to: &Path) -> Result<(), String> {
    let o = Command::new("tar").args(["xzf", f.to_str().unwrap(), "-C", to.to_str().unwrap()]).output().map_err(|e| e.to_string())?;
    if o.status.success() {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&o.stderr).into_owned())
    }
}
/// The model's own material, so that a history goes on with what is there.
fn pools_of(m: &Model, r: &mut Rng) -> Pools {
    let mut p = fixture_pools(r, false);
    let mut ids: Vec<Id> = m.v.keys().copied().collect();
    r.shuffle(&mut ids);
    ids.truncate(9);
    p.ids.truncate(3);
    for i in ids {
        if !p.ids.contains(&i) {
            p.ids.push(i);
        }
    }
    let pick = |own: Vec<String>, v: &mut Vec<String>, r: &mut Rng| {
        let mut own: Vec<String> = own.into_iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        r.shuffle(&mut own);
        own.truncate(4);
        v.truncate(1);
        for x in own {
            if !v.contains(&x) {
                v.push(x);
            }
        }
    };
    pick(m.v.values().cloned().chain(m.e.iter().map(|e| e.t.clone())).collect(), &mut p.types, r);
    pick(m.vp.keys().map(|k| k.1.clone()).chain(m.ep.keys().map(|k| k.1.clone())).collect(), &mut p.names, r);
    let mut own: Vec<Value> = m.vp.values().chain(m.ep.values()).cloned().collect();
    r.shuffle(&mut own);
    own.truncate(6);
    p.values.truncate(3);
    p.values.extend(own);
    p
}
fn one(f: &Fixture, seed: u64, rep: &Report) {
    crate::progress::doing(&format!("C26 {} seed {seed}", f.name));
    let k = kind(f.name.split('-').next().unwrap());
    let dir = scratch();
    if let Err(e) = unpack(&f.file, dir.path()) {
        rep.inconclusive(format!("cannot unpack {}: {e}", f.name));
        return;
    }
    let mut log: Vec<String> = Vec::new();
    let res = (|| -> Result<(), String> {
        let mut r = Rng::new(seed);
        let j: Value = serde_json::from_str(&std::fs::read_to_string(dir.path().join("model.json")).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let mut m = from_json(&j, k);
        let opt = r.below(5) as u8;
        let mut l = Local::at(k, dir.path().join("data"), opt, false).map_err(|e| format!("cannot be opened (options {opt}): {e:?}"))?;
        audit(l.d(), &m, true).map_err(|e| format!("read as something else: {e}"))?;
        rep.eval((m.v.len() + m.e.len() + m.vp.len() + m.ep.len()) as u64);
        rep.count("elements_read", (m.v.len() + m.e.len() + m.vp.len() + m.ep.len()) as u64);
        rep.count("index_values_searched", (m.vp.keys().filter(|k| m.ix.contains(&k.1)).count() + m.ep.keys().filter(|k| m.ix.contains(&k.1)).count()) as u64);
        let p = pools_of(&m, &mut r);
        // names that were not indexed are not, those that were are
        for n in p.names.iter() {
            log.push(format!("presence of {n}"));
            step(&mut l, &mut m, &Op::Get(Q::VHas(n.clone())), rep, false)?;
        }
        let w = Weights { create_v: 8, create_vt: 1, create_e: 12, bulk: 5, set: 22, del_elems: 8, del_props: 8, index: 3, get: 20, sync: 1, reopen: 2, wild: 0, depth: 3 };
        for s in 0..70 {
            let op = gen_op(&p, &mut r, &m, &w);
            log.push(short(&op));
            step(&mut l, &mut m, &op, rep, r.chance(1, 2))?;
            rep.eval(1);
            rep.distinct(&(&f.name, opname(&op), m.v.len().min(3), m.ix.len().min(2)));
            if s % 14 == 13 {
                audit(l.d(), &m, true)?;
            }
        }
        for op in resurrection(&p, &m) {
            log.push(short(&op));
            step(&mut l, &mut m, &op, rep, false)?;
        }
        audit(l.d(), &m, true).map_err(|e| format!("after re-creating: {e}"))?;
        l.reopen(0).map_err(|e| format!("reopened: {e:?}"))?;
        audit(l.d(), &m, true).map_err(|e| format!("after reopening: {e}"))?;
        rep.distinct(&("state", &f.name, model_hash(&m)));
        Ok(())
    })();
    rep.count(&format!("opened_{}", k.name()), 1);
    if let Err(e) = res {
        rep.violation(&format!("C26:{}", k.name()), format!("[{}] step {} {}: {e}", f.name, log.len(), log.last().cloned().unwrap_or_default()), format!("fixture {} seed {seed}\n{e}\n{}", f.name, log.join("\n")));
    } else if seed % 9 == 0 {
        rep.sample(json!({"fixture": f.name, "seed": seed, "last": log.last()}));
    }
}
pub fn c26(cx: &Ctx, rep: &Report) {
    let fx = fixtures();
    if fx.len() < 10 {
        rep.inconclusive(format!("only {} fixtures", fx.len()));
        return;
    }
    rep.count("fixtures", fx.len() as u64);
    let (t0, next) = (Instant::now(), AtomicUsize::new(0));
    std::thread::scope(|s| {
        for _ in 0..cx.threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if rep.nviol() >= 6 || (k >= fx.len() && t0.elapsed() > cx.dur(90)) {
                        return;
                    }
                    one(&fx[k % fx.len()], h64(&(cx.seed, "c26", k)), rep);
                })
                .unwrap();
        }
    });
}
