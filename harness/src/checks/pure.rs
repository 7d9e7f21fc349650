//! Checks of the pure parts: id scans, JSON laws, key encoding, identifiers, id generation.
use super::Ctx;
use crate::db::*;
use crate::engine::{bucket, short};
use crate::gen::*;
use crate::model::*;
use crate::report::{h64, Report};
use crate::rng::Rng;
use crate::types::*;
use indradb::util::{self, Component};
use indradb::{Identifier, Json};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Cursor;
use std::time::{Duration, Instant};

/// Repeats `f(iteration seed)` on all threads until the time is over.
pub fn repeat(cx: &Ctx, salt: u64, dur: Duration, rep: &Report, f: impl Fn(u64) + Sync) {
    let t0 = Instant::now();
    let next = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..cx.threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if (k > 0 && t0.elapsed() > dur) || rep.nviol() >= 6 {
                        break;
                    }
                    f(h64(&(cx.seed, salt, k)));
                })
                .unwrap();
        }
    });
}

// ---- C06 ---------------------------------------------------------------------------
pub fn c06(cx: &Ctx, rep: &Report) {
    for (share, kind) in [(40, Kind::Mem), (10, Kind::MemImg), (50, Kind::Rocks)] {
        repeat(cx, kind as u64 + 600, cx.dur(share), rep, |seed| {
            crate::progress::doing(&format!("C06 {} seed {seed}", kind.name()));
            if let Err(s) = scans(kind, seed, rep) {
                rep.violation(&format!("C06:{}:scan", kind.name()), format!("[{}] {}", kind.name(), s), format!("seed {seed}: {s}"));
            }
        });
    }
}
fn scan_ids(r: &mut Rng) -> BTreeSet<Id> {
    let n = [0, 1, 2, 5, 17, 60, 200, 400][r.below(8)];
    let sp = special_ids();
    let base = r.u128();
    let step = [1u128, 1, 255, 256, 1 << 64, 1 << 120][r.below(6)];
    let mut s = BTreeSet::new();
    for k in 0..n {
        s.insert(match r.below(8) {
            0 | 1 => *r.pick(&sp),
            2 => r.u128(),
            3 => (r.below(256) as u128) << (8 * r.below(16)),
            4 => !((r.below(256) as u128) << (8 * r.below(16))),
            _ => base.wrapping_add(step.wrapping_mul(k as u128)),
        });
    }
    if n > 0 && r.chance(1, 3) {
        s.insert(u128::MAX);
    }
    if n > 0 && r.chance(1, 3) {
        s.insert(0);
    }
    s
}
fn scans(kind: Kind, seed: u64, rep: &Report) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let mut l = Local::new(kind).map_err(|e| format!("open: {e:?}"))?;
    let si = special_idents();
    let types: Vec<String> = (0..r.range(1, 4)).map(|_| r.pick(&si).clone()).collect::<BTreeSet<_>>().into_iter().collect();
    let ids: Vec<Id> = {
        let mut v: Vec<Id> = scan_ids(&mut r).into_iter().collect();
        r.shuffle(&mut v);
        v
    };
    let mut m: BTreeMap<Id, String> = BTreeMap::new();
    let e = |what: &str, e: E| format!("{what}: {e:?}");
    if r.chance(1, 2) {
        let items: Vec<Item> = ids.iter().map(|i| Item::V(*i, types[(*i % types.len() as u128) as usize].clone())).collect();
        l.d().bulk(&items).map_err(|x| e("bulk", x))?;
        m.extend(ids.iter().map(|i| (*i, types[(*i % types.len() as u128) as usize].clone())));
    } else {
        for i in &ids {
            let t = r.pick(&types).clone();
            l.d().create_vertex(*i, &t).map_err(|x| e("create", x))?;
            m.insert(*i, t);
        }
    }
    // edges between a few of the vertices
    let mut es: BTreeSet<EK> = BTreeSet::new();
    if !ids.is_empty() {
        for _ in 0..r.below(60) {
            let k = EK { o: *r.pick(&ids), t: r.pick(&types).clone(), i: *r.pick(&ids) };
            l.d().create_edge(&k).map_err(|x| e("edge", x))?;
            es.insert(k);
        }
    }
    if !ids.is_empty() && r.chance(1, 2) {
        let gone: Vec<Id> = (0..r.below(ids.len().min(30))).map(|_| *r.pick(&ids)).collect();
        l.d().delete(Q::SpecV(gone.clone()).raw()).map_err(|x| e("delete", x))?;
        for g in gone {
            m.remove(&g);
            es.retain(|x| x.o != g && x.i != g);
        }
    }
    if r.chance(1, 3) {
        l.reopen(seed as u8).map_err(|x| e("reopen", x))?;
    }
    let d = l.d();
    let page = |start: Option<Id>, limit: u32, t: &Option<String>| -> Result<Vec<(Id, String)>, String> {
        let q = Q::RangeV { limit, t: t.clone(), start };
        let q = if limit % 2 == 0 { q.raw() } else { q.built().map_err(|x| format!("{x}"))? };
        match d.get(q).map_err(|x| e("range query", x))?.pop() {
            Some(Out::V(v)) => Ok(v),
            o => Err(format!("range query answered {o:?}")),
        }
    };
    let expect = |start: Option<Id>, limit: u32, t: &Option<String>| -> Vec<(Id, String)> {
        m.range(start.unwrap_or(0)..)
            .filter(|(_, x)| t.as_ref().map_or(true, |t| t == *x))
            .take(limit as usize)
            .map(|(i, t)| (*i, t.clone()))
            .collect()
    };
    // single scans
    let near = |r: &mut Rng| -> Id {
        let base = match r.below(4) {
            0 => r.u128(),
            1 => *r.pick(&special_ids()),
            _ if !m.is_empty() => *m.keys().nth(r.below(m.len())).unwrap(),
            _ => r.u128(),
        };
        match r.below(4) {
            0 => base.wrapping_add(1),
            1 => base.wrapping_sub(1),
            _ => base,
        }
    };
    for _ in 0..30 {
        let t = match r.below(4) {
            0 => Some(r.pick(&types).clone()),
            1 => Some(r.pick(&si).clone()),
            _ => None,
        };
        let start = if r.chance(4, 5) { Some(near(&mut r)) } else { None };
        let limit = match r.below(8) {
            0 => 0,
            1 => 1,
            2 => m.len() as u32,
            3 => m.len() as u32 + 1,
            4 => (m.len() as u32).saturating_sub(1),
            5 => u32::MAX,
            _ => r.below(m.len() + 3) as u32,
        };
        let got = page(start, limit, &t)?;
        let exp = expect(start, limit, &t);
        rep.eval(1);
        if got != exp {
            return Err(format!("range query start {start:x?} limit {limit} type {t:?} over {} vertices gave {}, expected {}", m.len(), short(&got), short(&exp)));
        }
        if !exp.is_empty() {
            rep.distinct(&("scan", kind.name(), bucket(exp.len()), start.map(|s| m.contains_key(&s)), t.is_some(), limit.min(4), exp[0].0 == 0, exp.last().unwrap().0 == u128::MAX));
        }
    }
    // paging through everything
    for _ in 0..4 {
        let size = [1usize, 2, 3, 7, 50, m.len().max(1), m.len() + 1, m.len().saturating_sub(1).max(1)][r.below(8)];
        let t = if r.chance(1, 3) { Some(r.pick(&types).clone()) } else { None };
        let mut seen: Vec<(Id, String)> = Vec::new();
        let mut start: Option<Id> = if r.chance(1, 2) { None } else { Some(0) };
        loop {
            let got = page(start, size as u32, &t)?;
            let n = got.len();
            if n > size {
                return Err(format!("page of size {size} has {n} vertices"));
            }
            seen.extend(got);
            if n < size {
                break;
            }
            if seen.len() > m.len() + 5 {
                return Err(format!("paging with size {size} does not end: saw {} of {} vertices", seen.len(), m.len()));
            }
            match util::next_uuid(uid(seen.last().unwrap().0)) {
                Ok(u) => start = Some(did(u)),
                Err(_) if seen.last().unwrap().0 == u128::MAX => break,
                Err(x) => return Err(format!("no successor of {:032x}: {x}", seen.last().unwrap().0)),
            }
        }
        let exp = expect(None, u32::MAX, &t);
        rep.eval(1);
        rep.count("pagings", 1);
        rep.distinct(&("paging", kind.name(), bucket(size), bucket(exp.len()), t.is_some()));
        if seen != exp {
            return Err(format!("paging with size {size} type {t:?} visited {}, expected {}", short(&seen), short(&exp)));
        }
    }
    // trait-level scans
    for _ in 0..10 {
        let from = near(&mut r);
        let got = d.range_v(from).map_err(|x| e("range_vertices", x))?.unwrap();
        let exp: Vec<Id> = m.range(from..).map(|(i, _)| *i).collect();
        rep.eval(1);
        if got != exp {
            return Err(format!("range_vertices({from:032x}) gave {}, expected {}", short(&got), short(&exp)));
        }
        rep.distinct(&("range_v", kind.name(), bucket(exp.len()), m.contains_key(&from)));
        let off = if !es.is_empty() && r.chance(2, 3) {
            let x = es.iter().nth(r.below(es.len())).unwrap().clone();
            match r.below(5) {
                0 => EK { i: x.i.wrapping_add(1), ..x },
                1 => EK { i: x.i.wrapping_sub(1), ..x },
                2 => EK { t: r.pick(&si).clone(), ..x },
                3 => x.rev(),
                _ => x,
            }
        } else {
            EK { o: near(&mut r), t: r.pick(&si).clone(), i: near(&mut r) }
        };
        for reversed in [false, true] {
            let got = d.range_e(&off, reversed).map_err(|x| e("range_edges", x))?.unwrap();
            let mut exp: Vec<EK> = es.iter().map(|x| if reversed { x.rev() } else { x.clone() }).collect();
            let key = |x: &EK| match kind.order() {
                EdgeOrder::Plain => (x.o, 0, x.t.clone(), x.i),
                EdgeOrder::LenPrefixed => (x.o, x.t.len(), x.t.clone(), x.i),
            };
            exp.retain(|x| key(x) >= key(&off));
            exp.sort_by_key(key);
            rep.eval(1);
            if got != exp {
                return Err(format!("range edges (reversed={reversed}) from {off:?} gave {}, expected {}", short(&got), short(&exp)));
            }
            if !exp.is_empty() {
                rep.distinct(&("range_e", kind.name(), reversed, bucket(exp.len()), es.contains(&off)));
            }
        }
    }
    if seed % 11 == 0 {
        rep.sample(json!({"store": kind.name(), "vertices": m.len(), "edges": es.len(), "types": types.len(), "first": m.keys().next().map(|i| format!("{i:032x}")), "last": m.keys().last().map(|i| format!("{i:032x}"))}));
    }
    Ok(())
}

// ---- C07 ---------------------------------------------------------------------------
fn h_of(j: &Json) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    j.hash(&mut h);
    h.finish()
}
/// Records what is fed to it.
#[derive(Default)]
struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn bytes_of(j: &Json) -> Vec<u8> {
    let mut b = Bytes::default();
    j.hash(&mut b);
    b.0
}
fn variant(v: &Value) -> u8 {
    match v {
        Value::Null => 0,
        Value::Bool(_) => 1,
        Value::Number(_) => 2,
        Value::String(_) => 3,
        Value::Array(_) => 4,
        Value::Object(_) => 5,
    }
}
/// Different beyond number representation: some type, string, length, key or boolean differs.
fn differs(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let int = |n: &serde_json::Number| n.as_i64().map(i128::from).or(n.as_u64().map(i128::from));
            match (int(x), int(y)) {
                (Some(x), Some(y)) => x != y,
                (None, None) => x.as_f64() != y.as_f64(),
                // whether an integer equals the float of the same value is left open
                (Some(i), None) => y.as_f64().unwrap() != i as f64,
                (None, Some(i)) => x.as_f64().unwrap() != i as f64,
            }
        }
        (Value::Array(x), Value::Array(y)) => x.len() != y.len() || x.iter().zip(y).any(|(p, q)| differs(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() != y.len() || x.iter().zip(y).any(|((k, p), (l, q))| k != l || differs(p, q)),
        _ => variant(a) != variant(b) || a != b,
    }
}
fn rebuild(v: &Value) -> Value {
    match v {
        Value::Array(x) => {
            // the same contents in an allocation of another size
            let mut y = Vec::with_capacity(x.len() * 2 + [0, 3, 70, 500][x.len() % 4]);
            y.extend(x.iter().map(rebuild));
            Value::Array(y)
        }
        Value::Object(x) => Value::Object(x.iter().rev().map(|(k, v)| (k.clone(), rebuild(v))).collect()),
        Value::String(x) => {
            let mut y = String::with_capacity(x.len() * 3 + [0, 3, 70, 500][x.len() % 4]);
            y.push_str(x);
            Value::String(y)
        }
        x => x.clone(),
    }
}
fn numbers(r: &mut Rng) -> Value {
    let i = (r.next() >> r.below(64)) as i64;
    match r.below(8) {
        0 => json!(i),
        1 => json!(i as f64),
        2 => json!(-(i as f64)),
        3 => json!(i as u64),
        4 => json!((i as f64) + 0.5),
        5 => {
            let f = f64::from_bits(r.next());
            if f.is_finite() {
                json!(f)
            } else {
                json!(0)
            }
        }
        6 => json!((1u64 << r.below(64)).wrapping_add(r.below(3) as u64).wrapping_sub(1)),
        _ => json!(((1u64 << r.below(64)) as f64) * [1.0, -1.0][r.below(2)]),
    }
}
fn mutate(r: &mut Rng, v: &Value) -> Value {
    match (r.below(6), v) {
        (0, _) => json!([v]),
        (1, _) => json!({ "a": v }),
        (2, Value::Number(n)) => n.as_f64().map(|f| json!(f)).unwrap_or(json!(0)),
        (2, Value::Array(x)) if !x.is_empty() => {
            let mut x = x.clone();
            let k = r.below(x.len());
            x[k] = mutate(r, &x[k].clone());
            Value::Array(x)
        }
        (2, Value::Object(x)) if !x.is_empty() => {
            let mut x = x.clone();
            let k = x.keys().nth(r.below(x.len())).unwrap().clone();
            let y = mutate(r, &x[&k].clone());
            x.insert(k, y);
            Value::Object(x)
        }
        (3, Value::Array(x)) => Value::Array(x.iter().rev().cloned().collect()),
        (3, Value::String(s)) => json!(format!("{s}\u{0}")),
        (4, Value::Array(x)) => {
            let mut x = x.clone();
            x.push(rand_value(r, 1));
            Value::Array(x)
        }
        (4, Value::Object(x)) => {
            let mut x = x.clone();
            x.insert(rand_string(r), rand_value(r, 1));
            Value::Object(x)
        }
        (5, Value::String(s)) => json!(s.to_uppercase()),
        (5, Value::Bool(b)) => json!(!b),
        _ => rand_value(r, 2),
    }
}
/// A large value and near copies of it, each different in a single place.
fn large_family(r: &mut Rng) -> Vec<Value> {
    let n = 1usize << r.range(4, 13);
    let n = n + r.below(n);
    let mut out = Vec::new();
    match r.below(4) {
        0 => {
            let base: Vec<Value> = (0..n).map(|k| if r.chance(1, 9) { rand_value(r, 1) } else { json!(k) }).collect();
            out.push(Value::Array(base.clone()));
            for _ in 0..3 {
                let mut x = base.clone();
                let k = *r.pick(&[0, n - 1, n / 2]);
                let k = if r.chance(1, 2) { r.below(n) } else { k };
                x[k] = if r.chance(1, 2) { json!(format!("{}", x[k])) } else { mutate(r, &x[k].clone()) };
                out.push(Value::Array(x));
            }
            let mut x = base.clone();
            x.push(Value::Null);
            out.push(Value::Array(x));
            out.push(Value::Array(base[..n - 1].to_vec()));
        }
        1 => {
            let base: Vec<u8> = (0..n).map(|k| b'a' + (k % 23) as u8).collect();
            let st = |b: &[u8]| json!(String::from_utf8_lossy(b));
            out.push(st(&base));
            for k in [0, n - 1, n / 2, r.below(n), r.below(n)] {
                let mut x = base.clone();
                x[k] = b'Z';
                out.push(st(&x));
            }
            out.push(st(&base[..n - 1]));
            out.push(json!(format!("{} ", String::from_utf8_lossy(&base))));
            out.push(json!(format!("{}\u{0}", String::from_utf8_lossy(&base))));
        }
        2 => {
            let n = n.min(2000);
            let base: serde_json::Map<String, Value> = (0..n).map(|k| (format!("k{k}"), json!(k))).collect();
            out.push(Value::Object(base.clone()));
            for _ in 0..3 {
                let mut x = base.clone();
                let k = format!("k{}", if r.chance(1, 3) { n - 1 } else { r.below(n) });
                if r.chance(1, 2) {
                    let v = x.remove(&k).unwrap();
                    x.insert(format!("{k}x"), v);
                } else {
                    x.insert(k, json!("other"));
                }
                out.push(Value::Object(x));
            }
            let mut x = base.clone();
            x.insert("zz".into(), Value::Null);
            out.push(Value::Object(x));
        }
        _ => {
            let depth = n.min(400);
            for core in [json!(1), json!(1.0), json!("1"), json!([]), json!({}), json!(null), json!(true)] {
                let mut v = core;
                for k in 0..depth {
                    v = if k % 5 == 4 { json!({ "a": v }) } else { json!([v]) };
                }
                out.push(v);
            }
        }
    }
    out
}
pub fn c07(cx: &Ctx, rep: &Report) {
    // the fixed pool first: every pair and triple
    let mut pool = special_values();
    pool.retain(|v| v.to_string().len() < 2000);
    for f in families() {
        pool.extend(f);
    }
    // tricky numbers alone and inside structures
    for b in [53u32, 62, 63, 64] {
        for d in [-1i128, 0, 1] {
            let n = (1i128 << b) + d;
            for n in [n, -n] {
                if let Ok(x) = i64::try_from(n) {
                    pool.push(json!(x));
                } else if let Ok(x) = u64::try_from(n) {
                    pool.push(json!(x));
                }
                pool.push(json!(n as f64));
            }
        }
    }
    for f in [f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::EPSILON, 1e308, -1e308, 1e-308] {
        pool.push(json!(f));
    }
    law_check(&pool, rep, "pool");
    repeat(cx, 700, cx.dur(95), rep, |seed| {
        crate::progress::doing(&format!("C07 seed {seed}"));
        let mut r = Rng::new(seed);
        let mut vs: Vec<Value> = Vec::new();
        let large = r.chance(1, 12);
        if large {
            vs = large_family(&mut r);
            rep.count("large_families", 1);
        }
        let n = if large { vs.len() + 2 } else { r.range(8, 40) };
        while vs.len() < n {
            let v = match r.below(5) {
                0 => r.pick(&pool).clone(),
                1 => rand_value(&mut r, 3),
                2 => numbers(&mut r),
                _ if !vs.is_empty() => {
                    let v = r.pick(&vs).clone();
                    mutate(&mut r, &v)
                }
                _ => rand_value(&mut r, 2),
            };
            vs.push(v);
        }
        law_check(&vs, rep, &format!("seed {seed}"));
        if seed % 97 == 0 {
            rep.sample(json!({"seed": seed, "values": vs.iter().take(6).map(|v| v.to_string().chars().take(80).collect::<String>()).collect::<Vec<_>>()}));
        }
    });
}
fn law_check(vs: &[Value], rep: &Report, src: &str) {
    let js: Vec<Json> = vs.iter().map(|v| Json::new(v.clone())).collect();
    let twin: Vec<Json> = vs.iter().map(|v| Json::new(rebuild(v))).collect();
    let n = js.len();
    let bad = |law: &str, ix: &[usize]| {
        let what = format!("{law}: {}", ix.iter().map(|i| short(&vs[*i].to_string())).collect::<Vec<_>>().join(" | "));
        rep.violation(&format!("C07:{}", law.split(':').next().unwrap()), what.clone(), format!("{src}: {what}"));
    };
    let hs: Vec<u64> = js.iter().map(h_of).collect();
    let bs: Vec<Vec<u8>> = js.iter().map(bytes_of).collect();
    let mut c = vec![vec![None; n]; n];
    let mut eq = vec![vec![false; n]; n];
    for i in 0..n {
        if js[i] != twin[i] || js[i].partial_cmp(&twin[i]) != Some(Ordering::Equal) {
            bad("reflexivity: a value does not equal its copy", &[i]);
        }
        if hs[i] != h_of(&twin[i]) || bs[i] != bytes_of(&twin[i]) {
            bad("hash: a value and its copy hash differently", &[i]);
        }
        for k in 0..n {
            eq[i][k] = js[i] == js[k];
            c[i][k] = js[i].partial_cmp(&js[k]);
        }
    }
    for i in 0..n {
        for k in 0..n {
            rep.distinct(&("pair", variant(&vs[i]), variant(&vs[k]), eq[i][k], c[i][k].map(|o| o as i8), h64(&(vs[i].to_string(), vs[k].to_string())) % 5000));
            if eq[i][k] != eq[k][i] {
                bad("symmetry of equality", &[i, k]);
            }
            if c[i][k] != c[k][i].map(|o| o.reverse()) {
                bad("antisymmetry of comparison", &[i, k]);
            }
            if eq[i][k] != (c[i][k] == Some(Ordering::Equal)) {
                bad("equality and comparison disagree", &[i, k]);
            }
            if (js[i] < js[k]) != (c[i][k] == Some(Ordering::Less)) || (js[i] >= js[k]) != matches!(c[i][k], Some(Ordering::Greater | Ordering::Equal)) {
                bad("operators and comparison disagree", &[i, k]);
            }
            if eq[i][k] && (hs[i] != hs[k] || bs[i] != bs[k]) {
                bad("hash: equal values hash differently", &[i, k]);
            }
            if eq[i][k] && variant(&vs[i]) != variant(&vs[k]) {
                bad("types: values of different types are equal", &[i, k]);
            }
            if eq[i][k] && differs(&vs[i], &vs[k]) {
                bad("structure: different values are equal", &[i, k]);
            }
        }
    }
    rep.eval((n * n) as u64);
    rep.count("pairs", (n * n) as u64);
    use Ordering::*;
    for i in 0..n {
        for k in 0..n {
            let x = c[i][k];
            if x.is_none() {
                continue;
            }
            for l in 0..n {
                let want = match (x, c[k][l]) {
                    (Some(Equal), y) => y,
                    (x, Some(Equal)) => x,
                    (Some(Less), Some(Less)) => Some(Less),
                    (Some(Greater), Some(Greater)) => Some(Greater),
                    _ => continue,
                };
                if c[i][l] != want {
                    bad("transitivity of comparison", &[i, k, l]);
                }
            }
        }
    }
    rep.count("triples", (n * n * n) as u64);
}

// ---- C09 ---------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Part {
    U(Id),
    I(String),
    /// unterminated string, only at the end
    S(String),
    /// index into the value pool
    J(usize),
}
fn comp<'a>(p: &'a Part, js: &'a [Json]) -> Component<'a> {
    match p {
        Part::U(i) => Component::Uuid(uid(*i)),
        Part::I(s) => Component::Identifier(ident(s)),
        Part::S(s) => Component::FixedLengthString(s),
        Part::J(k) => Component::Json(&js[*k]),
    }
}
fn shapes() -> Vec<Vec<u8>> {
    // U uuid, I identifier, S string, J json: the shapes used for keys, and some others
    ["U", "I", "UIU", "US", "UIUS", "IJ", "IJU", "IJUIU", "UI", "UU", "II", "IU", "UUI", "IIU", "JU", "IS", "UIIU"].iter().map(|s| s.bytes().collect()).collect()
}
pub fn c09(cx: &Ctx, rep: &Report) {
    let vals: Vec<Json> = special_values().into_iter().map(Json::new).collect();
    let vtxt: Vec<String> = vals.iter().map(|v| v.to_string()).collect();
    let sp = special_ids();
    let si = special_idents();
    // across processes: what one process wrote another must find
    cross_process(rep);
    let ids = |r: &mut Rng| match r.below(5) {
        0..=2 => *r.pick(&sp),
        3 => (r.below(3) as u128) << (8 * r.below(16)),
        _ => r.u128(),
    };
    let idn = |r: &mut Rng| if r.chance(3, 4) { r.pick(&si).clone() } else { rand_ident(r) };
    repeat(cx, 900, cx.dur(95), rep, |seed| {
        crate::progress::doing(&format!("C09 seed {seed}"));
        let mut r = Rng::new(seed);
        let sh = shapes();
        let shape = sh[r.below(sh.len())].clone();
        let name = String::from_utf8(shape.clone()).unwrap();
        // a small pool of each component, so that sequences share prefixes
        let pi: Vec<Id> = (0..4).map(|_| ids(&mut r)).collect();
        let pn: Vec<String> = (0..6).map(|_| idn(&mut r)).collect();
        let mut by_bytes: HashMap<Vec<u8>, Vec<Part>> = HashMap::new();
        let mut all: Vec<(Vec<Part>, Vec<u8>)> = Vec::new();
        for _ in 0..60 {
            let parts: Vec<Part> = shape
                .iter()
                .map(|c| match c {
                    b'U' => Part::U(*r.pick(&pi)),
                    b'I' => Part::I(r.pick(&pn).clone()),
                    b'S' => Part::S(r.pick(&pn).clone()),
                    _ => Part::J(r.below(vals.len())),
                })
                .collect();
            let comps: Vec<Component> = parts.iter().map(|p| comp(p, &vals)).collect();
            let len: usize = comps.iter().map(|c| c.byte_len()).sum();
            let b = util::build(&comps);
            rep.eval(1);
            let v = |what: &str| rep.violation(&format!("C09:{}", what.split(':').next().unwrap()), format!("{what} (shape {name}, {})", short(&parts)), format!("seed {seed} {parts:?} -> {b:02x?}"));
            if b.len() != len {
                v(&format!("length: byte_len says {len}, built {} bytes", b.len()));
            }
            // reading back
            let mut cur = Cursor::new(&b);
            for p in &parts {
                let ok = match p {
                    Part::U(i) => util::read_uuid(&mut cur).map(|u| did(u) == *i).unwrap_or(false),
                    Part::I(s) => unsafe { util::read_identifier(&mut cur) }.map(|t| t.as_str() == s && t == ident(s)).unwrap_or(false),
                    Part::S(s) => util::read_fixed_length_string(&mut cur).map(|t| t == *s).unwrap_or(false),
                    Part::J(k) => util::read_u64(&mut cur).map(|h| h == u64::from_be_bytes(util::build(&[Component::Json(&vals[*k])]).try_into().unwrap())).unwrap_or(false),
                };
                if !ok {
                    v(&format!("readback: component {} reads back differently", short(p)));
                    break;
                }
            }
            if cur.position() as usize != b.len() {
                v("readback: bytes left over after reading every component");
            }
            // truncated input must be an error, not a panic or an answer
            if r.chance(1, 4) && !b.is_empty() && !matches!(shape.last(), Some(b'S')) {
                let cut = r.below(b.len());
                let mut cur = Cursor::new(&b[..cut]);
                let res = guard(|| {
                    let mut ok = true;
                    for p in &parts {
                        ok = ok
                            && match p {
                                Part::U(_) => util::read_uuid(&mut cur).is_ok(),
                                Part::I(_) => unsafe { util::read_identifier(&mut cur) }.is_ok(),
                                Part::S(_) => true,
                                Part::J(_) => util::read_u64(&mut cur).is_ok(),
                            };
                    }
                    Ok(ok)
                });
                match res {
                    Ok(false) => rep.count("truncated_rejected", 1),
                    Ok(true) => v("truncated: a truncated encoding was decoded"),
                    Err(x) => v(&format!("truncated: decoding a truncated encoding panicked {x:?}")),
                }
            }
            let has_json = shape.contains(&b'J');
            if !has_json {
                match by_bytes.get(&b) {
                    Some(other) if *other != parts => v(&format!("distinctness: same encoding as {}", short(other))),
                    _ => {
                        by_bytes.insert(b.clone(), parts.clone());
                    }
                }
            }
            rep.distinct(&(&name, h64(&b)));
            all.push((parts, b));
        }
        // owners: vertices (U) and edges (UIU): no encoding is a proper prefix of another
        if name == "U" || name == "UIU" || name == "I" || name == "UI" || name == "IU" {
            for (p, a) in &all {
                for (q, b) in &all {
                    if p != q && b.starts_with(a) {
                        rep.violation("C09:prefix", format!("the encoding of {} is a prefix of that of {}", short(p), short(q)), format!("seed {seed}"));
                    }
                }
            }
            rep.count("prefix_pairs", (all.len() * all.len()) as u64);
        }
        if name == "U" {
            for (p, a) in &all {
                for (q, b) in &all {
                    if let (Part::U(x), Part::U(y)) = (&p[0], &q[0]) {
                        if x.cmp(y) != a.cmp(b) {
                            rep.violation("C09:order", format!("byte order of {x:032x} and {y:032x} differs from id order"), format!("seed {seed}"));
                        }
                    }
                }
            }
            rep.count("order_pairs", (all.len() * all.len()) as u64);
        }
        // equal values encode alike, however they came to be
        let k = r.below(vals.len());
        let enc = |j: &Json| util::build(&[Component::Json(j)]);
        let twin = Json::new(rebuild(&vals[k]));
        let parsed: Json = vtxt[k].parse().unwrap();
        for t in [&twin, &parsed] {
            if *t == vals[k] && enc(t) != enc(&vals[k]) {
                rep.violation("C09:json", format!("equal values encode differently: {}", short(&vtxt[k])), format!("seed {seed}"));
            }
        }
        if seed % 101 == 0 {
            rep.sample(json!({"shape": name, "encoded": all.iter().take(2).map(|(p, b)| format!("{} -> {} bytes", short(p), b.len())).collect::<Vec<_>>()}));
        }
    });
    // id order over many pairs
    let mut r = Rng::new(cx.seed ^ 0x909);
    let mut xs: Vec<Id> = sp.clone();
    xs.extend((0..2000).map(|_| r.u128()));
    let mut by_id = xs.clone();
    by_id.sort();
    xs.sort_by_key(|i| util::build(&[Component::Uuid(uid(*i))]));
    rep.eval(xs.len() as u64);
    if xs != by_id {
        rep.violation("C09:order", "sorting ids by encoding differs from sorting by value".into(), "".into());
    }
}
fn encode_pool() -> String {
    let mut s = String::new();
    for v in special_values().into_iter().chain(families().into_iter().flatten()) {
        let b = util::build(&[Component::Identifier(ident("n")), Component::Json(&Json::new(v)), Component::Uuid(uid(7))]);
        s.push_str(&b.iter().map(|x| format!("{x:02x}")).collect::<String>());
        s.push('\n');
    }
    s
}
pub fn print_encodings() {
    print!("{}", encode_pool());
}
fn cross_process(rep: &Report) {
    let Ok(me) = std::env::current_exe() else { return };
    let mine = encode_pool();
    for _ in 0..3 {
        match std::process::Command::new(&me).arg("encodings").output() {
            Ok(o) if o.status.success() => {
                rep.eval(1);
                rep.count("cross_process_encodings", mine.lines().count() as u64);
                if o.stdout != mine.as_bytes() {
                    rep.violation("C09:json-process", "the same JSON values are encoded differently by another process".into(), String::from_utf8_lossy(&o.stdout).chars().take(2000).collect());
                }
            }
            o => rep.inconclusive(format!("helper process: {o:?}")),
        }
    }
}

// ---- C10 (the in-process entry points; gRPC and command line are in net.rs) ---------
pub fn valid_ident(s: &str) -> bool {
    s.len() <= 255 && s.chars().all(|c| c == '-' || c == '_' || c.is_alphanumeric())
}
fn entries(s: &str) -> Vec<(&'static str, Result<String, bool>)> {
    use std::str::FromStr;
    // Err(true): a validation error; Err(false): any other failure
    let ok = |r: Result<Identifier, indradb::ValidationError>| match r {
        Ok(i) => Ok(i.as_str().to_string()),
        Err(indradb::ValidationError::InvalidValue | indradb::ValidationError::ValueTooLong) => Err(true),
        Err(_) => Err(false),
    };
    fn serde<T: for<'a> serde::Deserialize<'a>>(v: &Value, f: impl FnOnce(T) -> Identifier) -> Result<String, bool> {
        match serde_json::from_str(&v.to_string()).or_else(|_| serde_json::from_value(v.clone())) {
            Ok(x) => Ok(f(x).as_str().to_string()),
            Err(_) => Err(true),
        }
    }
    let conv = |r: Result<Identifier, indradb_proto::ConversionError>| match r {
        Ok(i) => Ok(i.as_str().to_string()),
        Err(indradb_proto::ConversionError::Validation { .. }) => Err(true),
        Err(_) => Err(false),
    };
    vec![
        ("new", ok(Identifier::new(s))),
        ("serde", serde(&serde_json::Value::String(s.to_string()), |i: Identifier| i)),
        ("serde edge", serde(&json!({"outbound_id": uid(1).to_string(), "t": s, "inbound_id": uid(2).to_string()}), |e: indradb::Edge| e.t)),
        ("new(String)", ok(Identifier::new(s.to_string()))),
        ("from_str", ok(Identifier::from_str(s))),
        ("try_from", ok(Identifier::try_from(s.to_string()))),
        ("proto", conv(indradb_proto::Identifier { value: s.to_string() }.try_into())),
        ("proto index", conv(indradb_proto::IndexPropertyRequest { name: Some(indradb_proto::Identifier { value: s.to_string() }) }.try_into())),
    ]
}
pub fn check_ident(s: &str, rep: &Report, all: bool) {
    let want = valid_ident(s);
    let e = if all { entries(s) } else { entries(s).into_iter().take(1).collect() };
    rep.eval(e.len() as u64);
    for (n, got) in e {
        let bad = match &got {
            Ok(x) => !want || x != s,
            Err(validation) => want || !validation,
        };
        if bad {
            rep.violation(&format!("C10:entry:{n}"), format!("{n}({:?}) gave {:?}, the string is {}", short(&s.to_string()), got, if want { "valid" } else { "invalid" }), format!("{:?} ({} bytes)", s, s.len()));
        }
    }
}
pub fn c10(cx: &Ctx, rep: &Report) {
    // every Unicode scalar value: alone, and in the middle, first and last among valid ones
    let next = std::sync::atomic::AtomicU32::new(0);
    let classes = std::sync::Mutex::new((0u64, 0u64));
    std::thread::scope(|s| {
        for _ in 0..cx.threads {
            s.spawn(|| {
                let (mut y, mut n) = (0, 0);
                loop {
                    let b = next.fetch_add(0x400, std::sync::atomic::Ordering::Relaxed);
                    if b >= 0x110000 || rep.nviol() > 10 {
                        break;
                    }
                    crate::progress::doing(&format!("C10 scalars from {b:x}"));
                    for c in b..b + 0x400 {
                        let Some(c) = char::from_u32(c) else { continue };
                        if valid_ident(&c.to_string()) {
                            y += 1
                        } else {
                            n += 1
                        }
                        check_ident(&c.to_string(), rep, true);
                        check_ident(&format!("a{c}"), rep, c < '\u{3000}');
                        check_ident(&format!("{c}b"), rep, c < '\u{3000}');
                        check_ident(&format!("a{c}b"), rep, c < '\u{3000}');
                        if c < '\u{1000}' {
                            check_ident(&format!("{c}{c}"), rep, true);
                        }
                        rep.distinct(&c);
                    }
                }
                let mut l = classes.lock().unwrap();
                l.0 += y;
                l.1 += n;
            });
        }
    });
    let l = classes.lock().unwrap();
    rep.note("unicode_scalars", json!({"accepted_alone": l.0, "rejected_alone": l.1}));
    drop(l);
    // lengths around the limit, for characters of every width
    for c in ["a", "é", "日", "𝔸", "-", "_", "9"] {
        for n in 0..=600 / c.len() {
            let s = c.repeat(n);
            check_ident(&s, rep, true);
            rep.distinct(&s);
            for pad in 1..4 {
                check_ident(&format!("{s}{}", "x".repeat(pad)), rep, true);
                check_ident(&format!("{s}{}", " ".repeat(pad)), rep, true);
            }
        }
    }
    for n in [1000, 4096, 65535, 65536, 65791, 1 << 20] {
        check_ident(&"x".repeat(n), rep, true);
    }
    check_ident("", rep, true);
    // random strings, identity and order, concurrently interned
    let shared: std::sync::Mutex<HashMap<String, usize>> = Default::default();
    repeat(cx, 1000, cx.dur(50), rep, |seed| {
        crate::progress::doing(&format!("C10 seed {seed}"));
        let mut r = Rng::new(seed);
        let pool: Vec<String> = (0..40).map(|_| if r.chance(1, 2) { rand_ident(&mut r) } else { r.pick(&special_idents()).clone() }).collect();
        let idents: Vec<Identifier> = pool.iter().map(|s| Identifier::new(s.clone()).unwrap_or_default()).collect();
        for i in 0..pool.len() {
            for k in 0..pool.len() {
                rep.eval(1);
                if (idents[i] == idents[k]) != (pool[i] == pool[k]) || idents[i].cmp(&idents[k]) != pool[i].cmp(&pool[k]) || idents[i].partial_cmp(&idents[k]) != pool[i].partial_cmp(&pool[k]) {
                    rep.violation("C10:identity", format!("identifiers of {:?} and {:?} compare differently from the strings", short(&pool[i]), short(&pool[k])), format!("seed {seed}"));
                }
                if pool[i] == pool[k] && h64(&idents[i]) != h64(&idents[k]) {
                    rep.violation("C10:identity", format!("equal identifiers of {:?} hash differently", short(&pool[i])), format!("seed {seed}"));
                }
            }
            if idents[i].as_str() != pool[i] || idents[i].to_string() != pool[i] || **idents[i] != *pool[i] {
                rep.violation("C10:readback", format!("{:?} reads back as {:?}", short(&pool[i]), short(&idents[i].as_str())), format!("seed {seed}"));
            }
        }
        // the same string always is the same identifier, whoever made it (common strings shared by all threads)
        for s in special_idents().iter().take(20) {
            let i = Identifier::new(s.clone()).unwrap();
            let h = h64(&i) as usize;
            let mut l = shared.lock().unwrap();
            if *l.entry(s.clone()).or_insert(h) != h {
                rep.violation("C10:identity", format!("two identifiers of {s:?} made on different threads hash differently"), format!("seed {seed}"));
            }
        }
        // random invalid and nearly valid strings
        for _ in 0..60 {
            let s = match r.below(4) {
                0 => rand_string(&mut r),
                1 => {
                    let mut s = rand_ident(&mut r);
                    s.push(*r.pick(&[' ', '$', '.', '/', '\u{0}', '\u{301}', '\u{200d}', '\n', '–', '‿', '٪']));
                    s
                }
                2 => "é".repeat(r.range(120, 135)) + &"x".repeat(r.below(4)),
                _ => rand_ident(&mut r),
            };
            check_ident(&s, rep, true);
            rep.distinct(&s);
        }
        if seed % 53 == 0 {
            rep.sample(json!({"seed": seed, "strings": pool.iter().take(5).map(|s| short(s)).collect::<Vec<_>>()}));
        }
    });
    if cx.arg.as_deref() == Some("net") {
        super::net::c10_net(cx, rep);
    }
}

// ---- C11 ---------------------------------------------------------------------------
pub fn c11(cx: &Ctx, rep: &Report) {
    // successor
    let succ = |i: Id| {
        rep.eval(1);
        let got = guard(|| Ok(util::next_uuid(uid(i))));
        let ok = match &got {
            Ok(Ok(u)) => i != u128::MAX && did(*u) == i + 1,
            Ok(Err(indradb::ValidationError::CannotIncrementUuid)) => i == u128::MAX,
            _ => false,
        };
        if !ok {
            rep.violation("C11:successor", format!("successor of {i:032x} is {got:?}"), format!("{i:032x}"));
        }
        rep.distinct(&("succ", i.trailing_ones(), (i >> 120) as u8));
    };
    for i in special_ids() {
        for d in 0..3u128 {
            succ(i.wrapping_add(d));
            succ(i.wrapping_sub(d));
        }
    }
    for k in 0..128 {
        // runs of ones at the end, with every byte around the carry
        let ones = if k == 0 { 0 } else { u128::MAX >> (128 - k) };
        succ(ones);
        for top in [0u128, 1, 0x7f, 0x80, 0xfe] {
            if k <= 120 {
                succ(ones | (top << k));
            }
        }
    }
    let mut r = Rng::new(cx.seed);
    for _ in 0..20000 {
        let i = r.u128();
        succ(i);
        succ(i | ((1u128 << r.below(128)) - 1));
    }
    // generation: all threads at once, in bursts that start together
    let rounds = std::sync::Mutex::new(HashSet::<Id>::new());
    let t0 = Instant::now();
    let bar = std::sync::Barrier::new(cx.threads);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let per = if cx.thorough { 400_000 } else { 120_000 };
    std::thread::scope(|s| {
        for t in 0..cx.threads {
            let (bar, stop, rounds) = (&bar, &stop, &rounds);
            s.spawn(move || {
                let mut k = 0;
                loop {
                    if t == 0 && (t0.elapsed() > cx.dur(60) || rounds.lock().unwrap().len() > 60_000_000) {
                        stop.store(true, std::sync::atomic::Ordering::SeqCst);
                    }
                    bar.wait();
                    if stop.load(std::sync::atomic::Ordering::SeqCst) {
                        break;
                    }
                    bar.wait();
                    let v: Vec<Id> = if k % 2 == 0 {
                        (0..per).map(|_| did(util::generate_uuid_v1())).collect()
                    } else {
                        (0..per).map(|_| did(indradb::Vertex::new(Identifier::default()).id)).collect()
                    };
                    crate::progress::tick();
                    let mut l = rounds.lock().unwrap();
                    for x in &v {
                        if !l.insert(*x) {
                            rep.violation("C11:duplicate", format!("id {x:032x} was generated twice"), format!("thread {t} burst {k}"));
                        }
                    }
                    drop(l);
                    rep.eval(v.len() as u64);
                    rep.distinct(&("burst", t, k));
                    rep.count("ids_generated", v.len() as u64);
                    k += 1;
                }
            });
        }
    });
    let some: Vec<String> = rounds.lock().unwrap().iter().take(3).map(|i| format!("{i:032x}")).collect();
    rep.sample(json!({"generated_ids": some}));
    drop(rounds);
    // through the databases
    for kind in [Kind::Mem, Kind::Rocks] {
        let l = match Local::new(kind) {
            Ok(l) => l,
            Err(e) => {
                rep.violation("C11:open", format!("{e:?}"), "".into());
                continue;
            }
        };
        let t0 = Instant::now();
        let d = l.d();
        let all: Vec<Id> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..cx.threads)
                .map(|t| {
                    s.spawn(move || {
                        let mut v = Vec::new();
                        while t0.elapsed() < cx.dur(18) && v.len() < 200_000 {
                            match d.create_vertex_t("t") {
                                Ok(id) => v.push(id),
                                Err(e) => {
                                    rep.violation("C11:create", format!("[{}] creating a vertex by type failed: {e:?}", kind.name()), format!("thread {t} after {}", v.len()));
                                    break;
                                }
                            }
                            if v.len() % 1024 == 0 {
                                crate::progress::tick();
                            }
                        }
                        v
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        rep.eval(all.len() as u64);
        rep.count(&format!("vertices_created_by_type_{}", kind.name()), all.len() as u64);
        let set: BTreeSet<Id> = all.iter().cloned().collect();
        if set.len() != all.len() {
            rep.violation("C11:duplicate", format!("[{}] {} vertices created by type got only {} ids", kind.name(), all.len(), set.len()), "".into());
        }
        match d.get(Q::AllV.raw()).map(|mut o| o.pop()) {
            Ok(Some(Out::V(v))) if v.len() == set.len() && v.iter().all(|(i, t)| set.contains(i) && t == "t") => {}
            o => rep.violation("C11:stored", format!("[{}] {} created vertices, the database holds {}", kind.name(), set.len(), short(&o)), "".into()),
        }
    }
}
