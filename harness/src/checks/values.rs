//! C08: values come back unchanged over every write and read path.
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::grpc::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Instant;

enum Store {
    Local(Local),
    Mem(Srv<indradb::MemoryDatastore>, Grpc),
    Rocks(Srv<indradb::RocksdbDatastore>, Grpc),
}
struct Lane {
    name: &'static str,
    s: Store,
    /// what every (owner, name) holds
    v: BTreeMap<(Id, String), Value>,
    e: BTreeMap<(EK, String), Value>,
    ids: Vec<Id>,
    edges: Vec<EK>,
    names: Vec<String>,
    indexed: Vec<String>,
}
impl Lane {
    fn new(name: &'static str, r: &mut Rng) -> Lane {
        let s = match name {
            "memory" => Store::Local(Local::new(Kind::Mem).unwrap()),
            "memory-image" => Store::Local(Local::new(Kind::MemImg).unwrap()),
            "rocksdb" => Store::Local(Local::new(Kind::Rocks).unwrap()),
            "grpc-memory" => {
                let s = mem_srv();
                let c = s.client();
                Store::Mem(s, c)
            }
            _ => {
                let s = rocks_srv();
                let c = s.client();
                Store::Rocks(s, c)
            }
        };
        let p = Pools::new(r, 6, 2, 5, 1);
        let mut l = Lane { name, s, v: BTreeMap::new(), e: BTreeMap::new(), ids: p.ids.clone(), edges: vec![], names: p.names.clone(), indexed: vec![] };
        for i in &l.ids {
            l.d().create_vertex(*i, &p.types[0]).unwrap();
        }
        for _ in 0..5 {
            let e = EK::new(p.id(r), &p.t(r), p.id(r));
            l.d().create_edge(&e).unwrap();
            if !l.edges.contains(&e) {
                l.edges.push(e);
            }
        }
        for n in [p.names[0].clone(), p.names[1].clone()] {
            l.d().index(&n).unwrap();
            l.indexed.push(n);
        }
        l
    }
    fn d(&self) -> &dyn Db {
        match &self.s {
            Store::Local(l) => l.d(),
            Store::Mem(_, c) => c,
            Store::Rocks(_, c) => c,
        }
    }
    /// A second view of the same database, if there is one (the served database itself).
    fn direct(&self) -> Option<&dyn Db> {
        match &self.s {
            Store::Local(_) => None,
            Store::Mem(s, _) => Some(&*s.db),
            Store::Rocks(s, _) => Some(&*s.db),
        }
    }
    fn all_props(&self, d: &dyn Db, name: Option<String>) -> R<(BTreeMap<(Id, String), Value>, BTreeMap<(EK, String), Value>)> {
        let q = |inner| Q::Props { inner: Box::new(inner), name: name.clone() };
        let (mut v, mut e) = (BTreeMap::new(), BTreeMap::new());
        let (qv, qe) = if name.is_none() { (Q::AllV, Q::AllE) } else { (Q::SpecV(self.ids.clone()), Q::SpecE(self.edges.clone())) };
        for o in d.get(q(qv).raw())? {
            if let Out::VP(x) = o {
                for ((i, _), ps) in x {
                    for (n, val) in ps {
                        if v.insert((i, n), val).is_some() {
                            return Err(E::Other("property listed twice".into()));
                        }
                    }
                }
            }
        }
        for o in d.get(q(qe).raw())? {
            if let Out::EP(x) = o {
                for (i, ps) in x {
                    for (n, val) in ps {
                        e.insert((i.clone(), n), val);
                    }
                }
            }
        }
        Ok((v, e))
    }
}
fn size_class(v: &Value) -> String {
    fn depth(v: &Value) -> usize {
        match v {
            Value::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
            Value::Object(o) => 1 + o.values().map(depth).max().unwrap_or(0),
            _ => 0,
        }
    }
    let t = match v {
        Value::Null => "null",
        Value::Bool(_) => "bool",
        Value::Number(n) if n.is_f64() => "float",
        Value::Number(n) if n.is_u64() => "uint",
        Value::Number(_) => "int",
        Value::String(_) => "string",
        Value::Array(_) => "array",
        Value::Object(_) => "object",
    };
    format!("{t}/{}/{}", depth(v).min(20), (v.to_string().len() as f64).log2() as u32)
}
fn text_exact(v: &Value) -> bool {
    serde_json::from_str::<Value>(&v.to_string()).map(|b| same(&b, v)).unwrap_or(false)
}
/// A value of any shape; exactly representable as text.
pub fn rich_value(r: &mut Rng) -> Value {
    for _ in 0..50 {
        let v = match r.below(22) {
            0 => json!("x".repeat(r.range(0, 3) * 100_000 + r.below(1000))),
            1 => {
                let n = [255usize, 256, 4095, 4096, 65535, 65536, 70_000][r.below(7)];
                json!((0..n).map(|_| char::from_u32(r.range(0x20, 0x7e) as u32).unwrap()).collect::<String>())
            }
            2 => Value::Array((0..[15usize, 16, 17, 255, 256, 3000, 66_000][r.below(7)]).map(|k| json!(k % 7)).collect()),
            3 => Value::Object((0..[15usize, 16, 17, 300, 3000][r.below(5)]).map(|k| (format!("k{k}"), json!(k))).collect()),
            4 => {
                // deep
                let mut v = rand_value(r, 1);
                for k in 0..[20usize, 60, 100][r.below(3)] {
                    v = if (k + r.below(2)) % 2 == 0 { json!([v]) } else { json!({ "k": v }) };
                }
                v
            }
            5 => json!(f64::from_bits(r.next())),
            6 => json!(f64::from_bits(r.next() & !0xffff_ffff)),
            7 => json!((r.next() as f64) * 10f64.powi(r.below(600) as i32 - 300)),
            8 => json!(r.next() as i64),
            9 => json!(r.next()),
            10 => {
                // powers of two and their neighbours, all the places an encoding switches width
                let b = 1i128 << r.below(64);
                let x = (b + r.below(3) as i128 - 1) * [1, -1][r.below(2)];
                if x < 0 {
                    if x < i64::MIN as i128 {
                        continue;
                    }
                    json!(x as i64)
                } else {
                    json!(x as u64)
                }
            }
            11 => {
                // every kind of key
                let mut m = serde_json::Map::new();
                for k in ["", " ", "\u{0}", "\"", "\\", "é", "e\u{301}", "$", "__proto__", "\u{10ffff}", "$serde_json::private::Number", "$serde_json::private::RawValue", "0", "type", "value"] {
                    if r.chance(1, 2) {
                        m.insert(k.to_string(), rand_value(r, 1));
                    }
                }
                Value::Object(m)
            }
            12 => r.pick(&special_values()).clone(),
            13 => {
                let f = families();
                let g = r.pick(&f);
                r.pick(g).clone()
            }
            14 => json!((0..r.range(1, 2000)).map(|_| char::from_u32([r.below(0x80), r.below(0x800), r.below(0xd800), 0x10000 + r.below(0x100000)][r.below(4)] as u32).unwrap_or('x')).collect::<String>()),
            _ => rand_value(r, 5),
        };
        if text_exact(&v) {
            return v;
        }
    }
    Value::Null
}
fn diff<K: std::fmt::Debug + Ord>(a: &BTreeMap<K, Value>, b: &BTreeMap<K, Value>) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("{} = {} is missing", short(k), short(v))),
            Some(x) if !same(x, v) => return Some(format!("{} was written as {} and is read as {}", short(k), short(&v.to_string()), short(&x.to_string()))),
            _ => {}
        }
    }
    b.keys().find(|k| !a.contains_key(k)).map(|k| format!("{} was never written", short(k)))
}
fn lane(name: &'static str, seed: u64, cx: &Ctx, rep: &Report) {
    let mut r = Rng::new(seed);
    let t0 = Instant::now();
    let dur = cx.dur(85);
    let mut round = 0;
    let bad = |what: String, log: &[String]| {
        rep.violation(&format!("C08:{name}"), format!("[{name}] {what}"), format!("lane {name} seed {seed}\n{}", log.iter().rev().take(60).cloned().collect::<Vec<_>>().join("\n")));
    };
    while t0.elapsed() < dur && rep.nviol() < 6 {
        round += 1;
        let mut l = Lane::new(name, &mut r);
        let mut log: Vec<String> = Vec::new();
        for k in 0..r.range(20, 80) {
            if t0.elapsed() > dur {
                break;
            }
            crate::progress::doing(&format!("C08 {name} seed {seed} round {round} step {k}"));
            let val = rich_value(&mut r);
            let n = r.pick(&l.names).clone();
            let how = r.below(7);
            let vs: Vec<Id> = l.ids.iter().filter(|_| r.chance(1, 2)).cloned().collect();
            let es: Vec<EK> = l.edges.iter().filter(|_| r.chance(1, 2)).cloned().collect();
            log.push(format!("write way {how} name {n:?} value {}", short(&val.to_string())));
            let res = match how {
                0 => {
                    let i = *r.pick(&l.ids);
                    l.v.insert((i, n.clone()), val.clone());
                    l.d().set(Q::SpecV(vec![i]).raw(), &n, &val)
                }
                1 => {
                    let e = r.pick(&l.edges).clone();
                    l.e.insert((e.clone(), n.clone()), val.clone());
                    l.d().set(Q::SpecE(vec![e]).raw(), &n, &val)
                }
                2 => {
                    for i in &vs {
                        l.v.insert((*i, n.clone()), val.clone());
                    }
                    l.d().set(Q::SpecV(vs.clone()).raw(), &n, &val)
                }
                3 => {
                    for e in &es {
                        l.e.insert((e.clone(), n.clone()), val.clone());
                    }
                    l.d().set(Q::SpecE(es.clone()).raw(), &n, &val)
                }
                4 | 5 => {
                    let mut items = Vec::new();
                    for _ in 0..r.range(1, 4) {
                        let w = if r.chance(1, 2) { val.clone() } else { rich_value(&mut r) };
                        let n = r.pick(&l.names).clone();
                        if r.chance(1, 2) {
                            let i = *r.pick(&l.ids);
                            l.v.insert((i, n.clone()), w.clone());
                            items.push(Item::VP(i, n, w));
                        } else {
                            let e = r.pick(&l.edges).clone();
                            l.e.insert((e.clone(), n.clone()), w.clone());
                            items.push(Item::EP(e, n, w));
                        }
                    }
                    l.d().bulk(&items)
                }
                _ => {
                    // through properties of properties' owners: delete one property, or an owner, then write again
                    let i = *r.pick(&l.ids);
                    l.v.remove(&(i, n.clone()));
                    l.d().delete(Q::Props { inner: Box::new(Q::SpecV(vec![i])), name: Some(n.clone()) }.raw())
                }
            };
            if let Err(e) = res {
                bad(format!("write failed: {e:?} (way {how}, {})", short(&val.to_string())), &log);
                return;
            }
            rep.eval(1);
            rep.count(&format!("writes_{name}"), 1);
            rep.distinct(&(name, how, size_class(&val)));
            // read back, in several ways
            let mut views: Vec<(&str, &dyn Db)> = vec![("same path", l.d())];
            if let Some(d) = l.direct() {
                views.push(("directly", d));
            }
            let named = if r.chance(1, 2) { Some(n.clone()) } else { None };
            for (vn, d) in views {
                match l.all_props(d, named.clone()) {
                    Err(e) => bad(format!("read {vn} failed: {e:?}"), &log),
                    Ok((v, e)) => {
                        let (ev, ee): (BTreeMap<_, _>, BTreeMap<_, _>) = match &named {
                            None => (l.v.clone(), l.e.clone()),
                            Some(n) => (
                                l.v.iter().filter(|(k, _)| k.1 == *n).map(|(k, v)| (k.clone(), v.clone())).collect(),
                                l.e.iter().filter(|(k, _)| k.1 == *n).map(|(k, v)| (k.clone(), v.clone())).collect(),
                            ),
                        };
                        rep.count("values_read", (ev.len() + ee.len()) as u64);
                        if let Some(s) = diff(&ev, &v).or_else(|| diff(&ee, &e)) {
                            bad(format!("{vn}, {}: {s}", if named.is_some() { "named" } else { "all" }), &log);
                            return;
                        }
                    }
                }
            }
            if let (true, Some((key, v))) = (l.indexed.contains(&n), l.v.iter().find(|(k, _)| k.1 == n)) {
                // the value as a search key
                match l.d().get(Q::VVal(n.clone(), v.clone()).raw()) {
                    Ok(o) => {
                        if !matches!(&o[..], [Out::V(x)] if x.iter().any(|y| y.0 == key.0)) {
                            bad(format!("a query for the stored value does not find {:x}: {}", key.0, short(&v.to_string())), &log);
                        }
                    }
                    Err(e) => bad(format!("value query failed: {e:?}"), &log),
                }
            }
            if r.chance(1, 12) {
                if let Store::Local(x) = &mut l.s {
                    let opt = r.below(20) as u8;
                    log.push(format!("reopen {opt}"));
                    rep.count("reopens", 1);
                    if let Err(e) = x.reopen(opt) {
                        bad(format!("reopen failed: {e:?}"), &log);
                        return;
                    }
                    match l.all_props(l.d(), None) {
                        Ok((v, e)) => {
                            if let Some(s) = diff(&l.v, &v).or_else(|| diff(&l.e, &e)) {
                                bad(format!("after reopening: {s}"), &log);
                                return;
                            }
                        }
                        Err(e) => bad(format!("after reopening: {e:?}"), &log),
                    }
                }
            }
            if log.len() > 200 {
                log.drain(..100);
            }
        }
    }
    if name == "memory" || name == "rocksdb" {
        rep.sample(json!({"lane": name, "seed": seed, "rounds": round}));
    }
}
/// Values whose text form is not re-read exactly, and values nested more deeply than the text parser admits.
fn probes(name: &'static str, seed: u64, n: usize, rep: &Report) {
    let mut r = Rng::new(seed);
    let l = Lane::new(name, &mut r);
    let id = l.ids[0];
    let (q, e) = (Q::SpecV(vec![id]), Q::SpecE(vec![l.edges[0].clone()]));
    let read = |d: &dyn Db, edge: bool| -> Option<Value> {
        let q = if edge { e.clone() } else { q.clone() };
        let o = d.get(Q::Props { inner: Box::new(q), name: Some("probe".into()) }.raw()).ok()?;
        match &o[..] {
            [Out::VP(x)] if x.len() == 1 && x[0].1.len() == 1 => Some(x[0].1[0].1.clone()),
            [Out::EP(x)] if x.len() == 1 && x[0].1.len() == 1 => Some(x[0].1[0].1.clone()),
            _ => None,
        }
    };
    let mut k = 0;
    let mut tries = 0;
    while k < n && tries < 1_000_000 {
        tries += 1;
        let f = if k == 0 {
            31.245270191439438
        } else if r.chance(1, 2) {
            f64::from_bits(r.next())
        } else {
            // ordinary magnitudes
            (r.next() as f64 / u64::MAX as f64) * 10f64.powi(r.below(9) as i32)
        };
        let mut v = json!(f);
        if !f.is_finite() || text_exact(&v) {
            continue;
        }
        match r.below(4) {
            0 => v = json!([1, v, "x"]),
            1 => v = json!({"k": [v]}),
            _ => {}
        }
        // neighbours in the text's domain: each re-reading may move the value once
        let once: Value = serde_json::from_str(&v.to_string()).unwrap();
        k += 1;
        let edge = r.chance(1, 2);
        let target = if edge { e.clone() } else { q.clone() };
        let res = if r.chance(1, 2) {
            l.d().set(target.raw(), "probe", &v)
        } else if edge {
            l.d().bulk(&[Item::EP(l.edges[0].clone(), "probe".into(), v.clone())])
        } else {
            l.d().bulk(&[Item::VP(id, "probe".into(), v.clone())])
        };
        rep.eval(1);
        rep.count("float_probes", 1);
        rep.distinct(&("float", name, v.to_string()));
        if let Err(x) = res {
            rep.violation(&format!("C08:{name}"), format!("[{name}] writing {v} failed: {x:?}"), String::new());
            continue;
        }
        let got = read(l.d(), edge);
        // each text hop re-reads: store, request, answer
        let mut chain = vec![once.clone()];
        for _ in 0..3 {
            let nx: Value = serde_json::from_str(&chain.last().unwrap().to_string()).unwrap();
            chain.push(nx);
        }
        match &got {
            Some(g) if same(g, &v) => rep.count("floats_exact", 1),
            Some(g) if name != "memory" && name != "memory-image" && chain.iter().any(|c| same(c, g)) => {
                rep.count("floats_off_by_one_ulp", 1);
                rep.violation(
                    &format!("C08:float-text:{name}"),
                    format!("[{name}] {v} is read back as {g} (serde_json's default float parser is not exact)"),
                    format!("seed {seed}: {v} -> {g}"),
                );
            }
            g => rep.violation(&format!("C08:{name}"), format!("[{name}] {v} is read back as {g:?}"), format!("seed {seed}")),
        }
    }
    // accepted => returned; refusing is fine
    for depth in [120usize, 126, 127, 128, 129, 150, 300] {
        let mut v = json!(depth);
        for _ in 0..depth {
            v = json!([v]);
        }
        let res = l.d().set(q.raw(), "probe", &v);
        rep.eval(1);
        match res {
            Err(E::Panic(p)) => rep.violation(&format!("C08:{name}"), format!("[{name}] writing a value of depth {depth} panics: {p}"), String::new()),
            Err(_) => rep.count("deep_values_refused", 1),
            Ok(()) => {
                rep.count("deep_values_stored", 1);
                let d: &dyn Db = l.d();
                match read(d, false) {
                    Some(g) if same(&g, &v) => {}
                    g => rep.violation(&format!("C08:{name}"), format!("[{name}] a value of depth {depth} was accepted and is read back as {}", short(&g.map(|x| x.to_string()))), String::new()),
                }
            }
        }
    }
}
pub fn c08(cx: &Ctx, rep: &Report) {
    let lanes = ["memory", "memory-image", "rocksdb", "grpc-memory", "grpc-rocksdb"];
    std::thread::scope(|s| {
        for (k, n) in lanes.iter().chain(&["rocksdb", "memory-image"]).enumerate() {
            let seed = h64(&(cx.seed, k, n));
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    if k < lanes.len() {
                        probes(n, seed ^ 7, if cx.thorough { 5000 } else { 300 }, rep);
                    }
                    lane(n, seed, cx, rep);
                })
                .unwrap();
        }
    });
}
