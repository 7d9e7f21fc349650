//! Online monitor: drives a local database and the reference graph with the same history and compares every answer.
use crate::db::*;
use crate::gen::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use serde_json::json;
use std::time::{Duration, Instant};

/// Everything that differs between the database and the model right now.
pub fn audit(d: &dyn Db, m: &Model, full_index: bool) -> Result<(), String> {
    let get = |q: Q| -> Result<Out, String> {
        let mut o = d.get(q.raw()).map_err(|e| format!("audit query {:?} failed: {:?}", q, e))?;
        if o.len() != 1 {
            return Err(format!("audit query {:?} gave {} outputs", q, o.len()));
        }
        Ok(o.pop().unwrap())
    };
    let pipe = |inner: Q, dir| Q::Pipe { inner: Box::new(inner), dir, limit: u32::MAX, t: None };
    let props = |inner: Q| Q::Props { inner: Box::new(inner), name: None };
    let mut qs = vec![
        Q::AllV,
        Q::AllE,
        Q::Count(Box::new(Q::AllV)),
        Q::Count(Box::new(Q::AllE)),
        pipe(Q::AllV, Dir::Out),
        pipe(Q::AllV, Dir::In),
        props(Q::AllV),
        props(Q::AllE),
    ];
    for n in &m.ix {
        qs.push(Q::VHas(n.clone()));
        qs.push(Q::EHas(n.clone()));
        if full_index {
            let mut vals: Vec<&serde_json::Value> = Vec::new();
            for v in m.vp.iter().filter(|((_, x), _)| x == n).map(|(_, v)| v).chain(m.ep.iter().filter(|((_, x), _)| x == n).map(|(_, v)| v)) {
                if !vals.iter().any(|x| same(x, v)) {
                    vals.push(v);
                }
            }
            for v in vals {
                qs.push(Q::VVal(n.clone(), v.clone()));
                qs.push(Q::EVal(n.clone(), v.clone()));
            }
        }
    }
    for q in qs {
        let got = get(q.clone())?;
        let exp = m.eval(&q, None).map_err(|e| format!("model error {:?} on {:?}", e, q))?.pop().unwrap();
        compare(&exp, &got).map_err(|e| format!("audit {:?}: {}", q, e))?;
    }
    if let Some(r) = d.raw().map_err(|e| format!("raw dump failed: {:?}", e))? {
        let vs: Vec<_> = m.v.iter().map(|(i, t)| (*i, t.clone())).collect();
        let es = m.all_edges();
        let mut rs: Vec<EK> = m.e.iter().map(|e| e.rev()).collect();
        m.sort_edges(&mut rs);
        if r.vertices != vs || r.vcount as usize != vs.len() {
            return Err(format!("transaction view: vertices {:?} (count {}) expected {:?}", r.vertices, r.vcount, vs));
        }
        if r.edges != es || r.ecount as usize != es.len() {
            return Err(format!("transaction view: edges {:?} (count {}) expected {:?}", r.edges, r.ecount, es));
        }
        if r.redges != rs {
            return Err(format!("transaction view: reversed edges {:?} expected {:?}", r.redges, rs));
        }
    }
    Ok(())
}

fn ek_match(e: &E, possible: &std::collections::BTreeSet<MErr>) -> bool {
    match e {
        E::NotIndexed => possible.contains(&MErr::NotIndexed),
        E::BadQuery => possible.contains(&MErr::BadQuery),
        // over gRPC errors arrive as text
        E::Other(_) => true,
        _ => false,
    }
}

/// Applies one operation to both; `Err` describes the disagreement. `Ok(false)`: skipped (outside the domain).
pub fn step(l: &mut Local, m: &mut Model, op: &Op, rep: &Report, built: bool) -> Result<bool, String> {
    if let Op::Reopen(n) = op {
        return match l.reopen(*n) {
            Ok(()) => Ok(true),
            Err(e) => Err(format!("reopen failed: {:?}", e)),
        };
    }
    step_db(l.d(), m, op, rep, built)
}
pub fn conv_q(q: &Q, built: bool, rep: &Report) -> Result<Option<indradb::Query>, String> {
    // use the fluent builders where the composition is legal, the plain structs otherwise
    if built {
        match q.built() {
            Ok(b) => {
                if b != q.raw() {
                    return Err(format!("builder produced a different query: {:?} vs {:?}", b, q.raw()));
                }
                if well_typed(q) {
                    Ok(Some(b))
                } else {
                    // e.g. pipes whose final element kind makes the next step meaningless must be rejected early
                    Err(format!("builder accepted a meaningless composition {:?}", q))
                }
            }
            Err(e) => {
                if well_typed(q) {
                    Err(format!("builder rejected a legal composition {:?}: {:?}", q, e))
                } else {
                    rep.count("builder_rejections", 1);
                    Ok(None)
                }
            }
        }
    } else {
        Ok(Some(q.raw()))
    }
}
pub fn step_db(d: &dyn Db, m: &mut Model, op: &Op, rep: &Report, built: bool) -> Result<bool, String> {
    let un = |what: &str, e: E| format!("{} failed unexpectedly: {:?}", what, e);
    match op {
        Op::CreateV(id, t) => {
            let g = d.create_vertex(*id, t).map_err(|e| un("create_vertex", e))?;
            let x = m.create_v(*id, t);
            if g != x {
                return Err(format!("create_vertex returned {}, expected {}", g, x));
            }
        }
        Op::CreateVT(t) => {
            let id = d.create_vertex_t(t).map_err(|e| un("create_vertex_from_type", e))?;
            if !m.create_v(id, t) {
                return Err(format!("create_vertex_from_type returned existing id {:032x}", id));
            }
        }
        Op::CreateE(e) => {
            let g = d.create_edge(e).map_err(|e| un("create_edge", e))?;
            let x = m.create_e(e);
            if g != x {
                return Err(format!("create_edge returned {}, expected {}", g, x));
            }
        }
        Op::Bulk(items) => {
            let mut m2 = m.clone();
            if !m2.bulk(items) {
                return Ok(false);
            }
            d.bulk(items).map_err(|e| un("bulk_insert", e))?;
            *m = m2;
        }
        Op::Index(n) => {
            d.index(n).map_err(|e| un("index_property", e))?;
            m.ix.insert(n.clone());
        }
        Op::Sync => d.sync().map_err(|e| un("sync", e))?,
        Op::Get(q) => {
            let Some(iq) = conv_q(q, built, rep)? else { return Ok(true) };
            match d.get(iq) {
                Ok(got) => {
                    let exp = m.eval(q, Some(&got)).map_err(|e| format!("query answered {:?} instead of failing with {:?}", short(&got), e))?;
                    if exp.len() != got.len() {
                        return Err(format!("{} outputs, expected {}: {:?}", got.len(), exp.len(), short(&got)));
                    }
                    for (k, (e, g)) in exp.iter().zip(&got).enumerate() {
                        compare(e, g).map_err(|s| format!("output {} of {}: {}", k, got.len(), s))?;
                    }
                    rep.count(&format!("result_elems_{}", bucket(got.last().map(|o| o.len()).unwrap_or(0))), 1);
                }
                Err(e @ E::Panic(_)) => return Err(un("get", e)),
                Err(e) => match m.eval(q, None) {
                    Ok(_) => return Err(un("get", e)),
                    Err(_) if ek_match(&e, &m.possible_errors(q)) => rep.count("expected_errors", 1),
                    Err(x) => return Err(format!("get failed with {:?}, expected {:?}", e, x)),
                },
            }
        }
        Op::Delete(q) | Op::Set(q, _, _) => {
            let exp = m.eval(q, None);
            let exp = match exp {
                Ok(mut v) => {
                    let last = v.pop().unwrap();
                    if matches!(last.c, Cert::Sub(_)) {
                        return Ok(false);
                    }
                    let mut m2 = m.clone();
                    match op {
                        Op::Delete(_) => m2.apply_delete(&last),
                        Op::Set(_, n, v) => m2.apply_set(&last, n, v),
                        _ => unreachable!(),
                    }
                    .map(|_| m2)
                }
                Err(e) => Err(e),
            };
            let Some(iq) = conv_q(q, built, rep)? else { return Ok(true) };
            let got = match op {
                Op::Delete(_) => d.delete(iq),
                Op::Set(_, n, v) => d.set(iq, n, v),
                _ => unreachable!(),
            };
            match (got, exp) {
                (Ok(()), Ok(m2)) => *m = m2,
                (Ok(()), Err(x)) => return Err(format!("succeeded, expected error {:?}", x)),
                (Err(e), Ok(_)) => return Err(un("write", e)),
                (Err(e), Err(_)) => {
                    let mut p = m.possible_errors(q);
                    p.insert(MErr::BadQuery);
                    if !ek_match(&e, &p) {
                        return Err(format!("failed with {:?}, expected one of {:?}", e, p));
                    }
                    rep.count("expected_errors", 1);
                }
            }
        }
        Op::Reopen(_) => unreachable!(),
    }
    Ok(true)
}
pub fn bucket(n: usize) -> &'static str {
    match n {
        0 => "0",
        1 => "1",
        2..=5 => "2-5",
        6..=20 => "6-20",
        21..=100 => "21-100",
        _ => ">100",
    }
}
pub fn short<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{:?}", t);
    if s.len() > 600 {
        format!("{}…", s.chars().take(580).collect::<String>())
    } else {
        s
    }
}
pub fn opname(op: &Op) -> String {
    match op {
        Op::CreateV(..) => "create_vertex".into(),
        Op::CreateVT(..) => "create_vertex_from_type".into(),
        Op::CreateE(..) => "create_edge".into(),
        Op::Bulk(i) => format!("bulk[{}]", bucket(i.len())),
        Op::Set(q, ..) => format!("set:{}", q.shape()),
        Op::Delete(q) => format!("delete:{}", q.shape()),
        Op::Index(_) => "index".into(),
        Op::Get(q) => format!("get:{}", q.shape()),
        Op::Sync => "sync".into(),
        Op::Reopen(_) => "reopen".into(),
    }
}
pub fn model_hash(m: &Model) -> u64 {
    h64(&format!("{:?}", m))
}

pub struct Cfg {
    pub prop: &'static str,
    pub kind: Kind,
    pub w: Weights,
    pub len: usize,
    /// full audit every this many steps (and at the end)
    pub audit_every: usize,
    pub pools: (usize, usize, usize, usize),
    pub full_index: bool,
    /// initial population through plain calls
    pub warm: usize,
    /// now and then re-create everything that does not exist and audit: nothing may reappear with it
    pub resurrect: bool,
}
/// One random history. Returns the number of steps executed.
pub fn history(cfg: &Cfg, seed: u64, rep: &Report) -> usize {
    crate::progress::doing(&format!("{} {} history seed {}", cfg.prop, cfg.kind.name(), seed));
    let mut r = Rng::new(seed);
    let p = Pools::new(&mut r, cfg.pools.0, cfg.pools.1, cfg.pools.2, cfg.pools.3);
    let mut l = match Local::new(cfg.kind) {
        Ok(l) => l,
        Err(e) => {
            rep.violation(&format!("{}:{}:open", cfg.prop, cfg.kind.name()), format!("could not create a fresh database: {:?}", e), format!("seed {}", seed));
            return 0;
        }
    };
    let mut m = Model::new(cfg.kind.order());
    let mut log: Vec<Op> = Vec::new();
    let warm = Weights { create_v: 10, create_vt: 1, create_e: 20, bulk: 2, set: 12, del_elems: 0, del_props: 0, index: 1, get: 0, sync: 0, reopen: 0, wild: 0, depth: 1 };
    let mut n = 0;
    for k in 0..cfg.len {
        let w = if k < cfg.warm { &warm } else { &cfg.w };
        let op = gen_op(&p, &mut r, &m, w);
        let built = r.chance(1, 2);
        log.push(op.clone());
        let before = (matches!(op, Op::Get(_))).then(|| ());
        let res = step(&mut l, &mut m, &op, rep, built);
        match res {
            Ok(true) => {
                n += 1;
                rep.eval(1);
                if before.is_none() || !m.v.is_empty() {
                    rep.distinct(&(opname(&op), m.v.len().min(3), m.e.len().min(4), m.ix.len().min(2)));
                }
            }
            Ok(false) => {
                log.pop();
                rep.count("skipped_out_of_domain", 1);
                continue;
            }
            Err(s) => {
                fail(cfg, seed, &log, rep, &s, built);
                return n;
            }
        }
        if cfg.resurrect && (k + 1 == cfg.len || (k > cfg.warm && r.chance(1, 40))) {
            rep.count("resurrection_probes", 1);
            for op in resurrection(&p, &m) {
                log.push(op.clone());
                if let Err(s) = step(&mut l, &mut m, &op, rep, false) {
                    fail(cfg, seed, &log, rep, &s, built);
                    return n;
                }
                n += 1;
                rep.eval(1);
            }
            if let Err(s) = audit(l.d(), &m, true) {
                fail(cfg, seed, &log, rep, &format!("after re-creating: {}", s), built);
                return n;
            }
        }
        if (k + 1) % cfg.audit_every == 0 || k + 1 == cfg.len || matches!(op, Op::Reopen(_)) {
            rep.count("full_audits", 1);
            if let Err(s) = audit(l.d(), &m, cfg.full_index) {
                fail(cfg, seed, &log, rep, &s, built);
                return n;
            }
        }
    }
    rep.count("histories", 1);
    rep.count(&format!("final_edges_{}", bucket(m.e.len())), 1);
    rep.count(&format!("final_props_{}", bucket(m.vp.len() + m.ep.len())), 1);
    rep.distinct(&("state", model_hash(&m)));
    if seed % 7 == 0 {
        rep.sample(json!({"store": cfg.kind.name(), "seed": seed, "last_ops": log.iter().rev().take(4).map(|o| short(o)).collect::<Vec<_>>()}));
    }
    n
}
/// Creates every missing pool vertex and pool edge and indexes every name.
pub fn resurrection(p: &Pools, m: &Model) -> Vec<Op> {
    let mut ops: Vec<Op> = p.names.iter().map(|n| Op::Index(n.clone())).collect();
    for id in &p.ids {
        if !m.v.contains_key(id) {
            ops.push(Op::CreateV(*id, p.types[0].clone()));
        }
    }
    for o in &p.ids {
        for i in &p.ids {
            for t in &p.types {
                let e = EK::new(*o, t, *i);
                if !m.e.contains(&e) {
                    ops.push(Op::CreateE(e));
                }
            }
        }
    }
    ops
}
fn fail(cfg: &Cfg, seed: u64, log: &[Op], rep: &Report, s: &str, built: bool) {
    let last = log.last().map(opname).unwrap_or_default();
    let kind = last.split(':').next().unwrap_or("").split('[').next().unwrap_or("").to_string();
    let mut txt = format!(
        "property {} store {} history seed {} built={} step {}\nDISAGREEMENT: {}\nlast operation: {:?}\n--- history ---\n",
        cfg.prop,
        cfg.kind.name(),
        seed,
        built,
        log.len(),
        s,
        log.last()
    );
    for (i, o) in log.iter().enumerate() {
        txt.push_str(&format!("{:4} {}\n", i, short(o)));
    }
    rep.violation(
        &format!("{}:{}:history:{}", cfg.prop, cfg.kind.name(), kind),
        format!("[{}] step {} {}: {}", cfg.kind.name(), log.len(), log.last().map(|o| short(o)).unwrap_or_default(), s),
        txt,
    );
}

/// Runs histories on all cores until the time budget or the count is exhausted.
pub fn campaign(cfg: &Cfg, seed: u64, max: usize, budget: Duration, threads: usize, rep: &Report) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if k >= max || t0.elapsed() > budget || rep.nviol() >= 6 {
                        break;
                    }
                    let hs = seed.wrapping_mul(0x1000_0001).wrapping_add(k as u64).wrapping_mul(0x9E37_79B9) ^ h64(cfg.kind.name()) ^ h64(cfg.prop);
                    history(cfg, hs, rep);
                })
                .unwrap();
        }
    });
}
/// What an operation does to the reference graph alone. `None`: its outcome is not determined by the model (skip it).
pub fn model_step(m: &Model, op: &Op) -> Option<Model> {
    let mut m2 = m.clone();
    match op {
        Op::CreateV(id, t) => {
            m2.create_v(*id, t);
        }
        Op::CreateVT(_) => return None,
        Op::CreateE(e) => {
            m2.create_e(e);
        }
        Op::Bulk(items) => {
            if !m2.bulk(items) {
                return None;
            }
        }
        Op::Index(n) => {
            m2.ix.insert(n.clone());
        }
        Op::Sync | Op::Reopen(_) | Op::Get(_) => {}
        Op::Delete(q) | Op::Set(q, _, _) => match m.eval(q, None) {
            Err(_) => {}
            Ok(mut v) => {
                let last = v.pop().unwrap();
                if matches!(last.c, Cert::Sub(_)) {
                    return None;
                }
                let _ = match op {
                    Op::Delete(_) => m2.apply_delete(&last),
                    Op::Set(_, n, v) => m2.apply_set(&last, n, v),
                    _ => unreachable!(),
                };
            }
        },
    }
    Some(m2)
}
/// Random operations whose outcome the model determines, and the states after each.
pub fn plan_ops(p: &Pools, r: &mut Rng, m0: &Model, w: &Weights, n: usize) -> Vec<(Op, Model)> {
    let mut v: Vec<(Op, Model)> = Vec::new();
    let mut m = m0.clone();
    let mut tries = 0;
    while v.len() < n && tries < n * 20 {
        tries += 1;
        let op = gen_op(p, r, &m, w);
        if let Some(m2) = model_step(&m, &op) {
            m = m2;
            v.push((op, m.clone()));
        }
    }
    v
}
