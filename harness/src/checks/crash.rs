//! C16: kills during RocksDB histories. C17: interrupted creation and opening, double opening, repair.
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::fault::{self, Act, Ev};
use crate::gen::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use indradb::{Database, RocksdbDatastore};
use serde_json::json;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

fn weights() -> Weights {
    Weights { create_v: 10, create_vt: 0, create_e: 14, bulk: 7, set: 18, del_elems: 8, del_props: 6, index: 3, get: 1, sync: 2, reopen: 1, wild: 0, depth: 2 }
}
/// The operations of one round; deterministic in (seed, state before).
pub(super) fn round_ops(seed: u64, base: u64, m: &Model) -> Vec<(Op, Model)> {
    let mut r = Rng::new(seed);
    // the pools belong to the whole series of rounds
    let p = Pools::new(&mut Rng::new(base), 7, 3, 3, 6);
    let n = r.range(8, 40);
    let mut v: Vec<(Op, Model)> = Vec::new();
    let mut m = m.clone();
    if r.chance(1, 4) {
        return large_ops(&mut r, &p, m);
    }
    let mut tries = 0;
    while v.len() < n && tries < 1000 {
        tries += 1;
        let op = match r.below(20) {
            0 => {
                // a large unit
                let k = [150usize, 400, 1500][r.below(3)];
                let mut items = p.bulk(&mut r, &m, 20);
                for j in 0..k {
                    items.push(Item::V((0xb16 << 64) + j as u128, p.types[0].clone()));
                    items.push(Item::VP((0xb16 << 64) + j as u128, p.names[j % 3].clone(), if j % 9 == 0 { json!("w".repeat(800)) } else { json!(j % 5) }));
                }
                items.push(Item::V(p.ids[0], p.types[0].clone()));
                items.push(Item::E(EK::new(0xb16 << 64, &p.types[1], p.ids[0])));
                Op::Bulk(items)
            }
            1 => Op::Set(Q::AllV, p.name(&mut r), p.val(&mut r)),
            2 => Op::Delete(Q::RangeV { limit: u32::MAX, t: Some(p.t(&mut r)), start: None }),
            3 => Op::Delete(Q::AllE),
            _ => gen_op(&p, &mut r, &m, &weights()),
        };
        if let Some(m2) = model_step(&m, &op) {
            m = m2;
            v.push((op, m.clone()));
        }
    }
    v
}
/// A few operations that each concern thousands of records: a unit must stay one however large it is.
fn large_ops(r: &mut Rng, p: &Pools, mut m: Model) -> Vec<(Op, Model)> {
    let mut v: Vec<(Op, Model)> = Vec::new();
    let k = [700usize, 1300, 2600][r.below(3)];
    let base = (0xb17u128 << 64) + ((r.below(3) as u128) << 32);
    let mut items = Vec::new();
    for j in 0..k as u128 {
        items.push(Item::V(base + j, p.types[0].clone()));
        items.push(Item::VP(base + j, p.names[0].clone(), json!(j as u64 % 3)));
        if j % 2 == 0 {
            let e = EK::new(base + j, &p.types[1], base);
            items.push(Item::E(e.clone()));
            items.push(Item::EP(e, p.names[if j % 4 == 0 { 0 } else { 1 }].clone(), json!(j as u64 % 2)));
        }
    }
    let mut ops = vec![Op::Bulk(items)];
    for _ in 0..r.range(2, 6) {
        let n = p.names[r.below(2)].clone();
        let some = Q::RangeV { limit: [u32::MAX, k as u32 / 2, 600][r.below(3)], t: None, start: Some(base) };
        let edges = Q::Pipe { inner: Box::new(some.clone()), dir: if r.chance(1, 2) { Dir::Out } else { Dir::In }, limit: u32::MAX, t: None };
        ops.push(match r.below(12) {
            0..=2 => Op::Index(n),
            3 => Op::Index(p.names[2].clone()),
            4 => Op::Set(some, n, p.val(r)),
            5 => Op::Set(edges, n, p.val(r)),
            6 => Op::Delete(Q::Props { inner: Box::new(some), name: if r.chance(1, 2) { Some(n) } else { None } }),
            7 => Op::Delete(Q::Props { inner: Box::new(edges), name: None }),
            8 => Op::Delete(edges),
            9 => Op::Delete(some),
            10 => Op::Sync,
            _ => Op::Delete(Q::SpecV(vec![base])),
        });
    }
    for op in ops {
        if let Some(m2) = model_step(&m, &op) {
            m = m2;
            v.push((op, m.clone()));
        }
    }
    v
}
pub(super) fn say(s: &str) {
    unsafe {
        libc::write(1, s.as_ptr() as *const _, s.len());
    }
}
/// Applies one operation for its effect; Err only if it fails although the model says it is fine.
pub(super) fn apply(db: &Database<RocksdbDatastore>, op: &Op, m: &Model) -> Result<(), String> {
    let rep = Report::default();
    let mut m = m.clone();
    step_db(db, &mut m, op, &rep, false).map(|_| ())
}
/// child rocks <dir> <base> <seed:n,...> <opt> <event|0> <act> <finish: close|exit>
fn child_rocks(a: &[String]) -> i32 {
    let dir = PathBuf::from(&a[0]);
    let base: u64 = a[1].parse().unwrap();
    let rounds: Vec<(u64, usize)> = a[2].split(',').map(|x| x.split_once(':').map(|(s, n)| (s.parse().unwrap(), n.parse().unwrap())).unwrap()).collect();
    let opt: u8 = a[3].parse().unwrap();
    // "N": the N-th event; "N@K": the N-th event from the start of operation K (from 0) on
    let (n, from) = match a[4].split_once('@') {
        Some((n, k)) => (n.parse::<u64>().unwrap(), Some(k.parse::<usize>().unwrap())),
        None => (a[4].parse().unwrap(), None),
    };
    let cur = AtomicUsize::new(0);
    let act = super::images::act_parse(&a[5]);
    let mut m = Model::new(EdgeOrder::LenPrefixed);
    for (s, n) in &rounds[..rounds.len() - 1] {
        let ops = round_ops(*s, base, &m);
        if *n > 0 {
            m = ops[*n - 1].1.clone();
        }
    }
    let ops = round_ops(rounds.last().unwrap().0, base, &m);
    let go = || -> i32 {
        let mut db = match open_rocks(&dir, opt) {
            Ok(d) => Some(d),
            Err(e) => {
                say(&format!("F open {e:?}\n"));
                return 1;
            }
        };
        say("O\n");
        let mut before = m.clone();
        for (k, (op, after)) in ops.iter().enumerate() {
            cur.store(k + 1, Ordering::SeqCst);
            let res = match op {
                Op::Reopen(o) => {
                    db = None;
                    match open_rocks(&dir, *o) {
                        Ok(d) => {
                            db = Some(d);
                            Ok(())
                        }
                        Err(e) => Err(format!("reopen {e:?}")),
                    }
                }
                op => apply(db.as_ref().unwrap(), op, &before),
            };
            if let Err(e) = res {
                say(&format!("F {k} {} {}\n", opname(op), e.replace('\n', " ")));
                return 1;
            }
            say(&format!("{}\n", k + 1));
            before = after.clone();
        }
        if a[6] == "close" {
            drop(db);
        } else {
            std::mem::forget(db);
        }
        say("END\n");
        0
    };
    if n == 0 {
        // killed from outside
        let c = std::thread::Builder::new().stack_size(64 << 20).spawn(|| {});
        let _ = c.map(|c| c.join());
        let r = go();
        unsafe { libc::_exit(r) }
    }
    let mut seen = 0;
    let decide = |e: &Ev| match from {
        None if e.n == n => act.clone(),
        Some(k) if cur.load(Ordering::SeqCst) > k => {
            seen += 1;
            if seen == n {
                act.clone()
            } else {
                Act::Pass
            }
        }
        _ => Act::Pass,
    };
    let r = fault::watch(&dir, decide, || {
        let r = go();
        unsafe { libc::_exit(r) }
        #[allow(unreachable_code)]
        r
    });
    if let Err(s) = r {
        say(&format!("N {s}\n"));
    }
    0
}
pub(super) fn spawn_child(args: &[String]) -> std::process::Child {
    Command::new(std::env::current_exe().unwrap()).arg("child").args(args).stdout(Stdio::piped()).stderr(Stdio::null()).env_remove("VH_PROGRESS").spawn().unwrap()
}
/// Whether a database holds exactly a model's graph, indexes and marks of indexed properties.
fn holds(db: &Database<RocksdbDatastore>, m: &Model, p: &Pools) -> Result<(), String> {
    for n in p.names.iter().chain(&m.ix) {
        // an index that answers must have been asked for; one that was is examined by the audit
        let r = Db::get(db, Q::VHas(n.clone()).raw());
        if r.is_ok() != m.ix.contains(n) {
            return Err(format!("property {} is {}indexed", short(n), if r.is_ok() { "" } else { "not " }));
        }
    }
    audit(db, m, true)
}
/// The model state the database holds, among candidates.
pub(super) fn find_state(db: &Database<RocksdbDatastore>, cands: &[(usize, &Model)], p: &Pools) -> Result<usize, String> {
    let mut errs = Vec::new();
    for (k, m) in cands {
        match holds(db, m, p) {
            Ok(()) => return Ok(*k),
            Err(s) => errs.push(format!("not the state after {k} operations: {}", s.chars().take(700).collect::<String>())),
        }
    }
    Err(errs.join("\n"))
}
/// Everything hidden below the visible state: indexes that should not answer, leftovers that come back with their owner.
fn deep_check(db: &Database<RocksdbDatastore>, m: &mut Model, p: &Pools, rep: &Report) -> Result<(), String> {
    for n in &p.names {
        for q in [Q::VHas(n.clone()), Q::EHas(n.clone())] {
            step_db(db, m, &Op::Get(q), rep, false)?;
        }
    }
    for op in resurrection(p, m) {
        step_db(db, m, &op, rep, false).map_err(|s| format!("{}: {s}", short(&op)))?;
    }
    audit(db, m, true).map_err(|s| format!("after re-creating everything: {s}"))
}
fn c16_series(seed: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    let tmp = scratch();
    let dir = tmp.path().join("db");
    let p = Pools::new(&mut Rng::new(seed), 7, 3, 3, 6);
    let mut m = Model::new(EdgeOrder::LenPrefixed);
    let mut rounds: Vec<(u64, usize)> = Vec::new();
    let mut hist: Vec<String> = Vec::new();
    let n_rounds = r.range(1, 4);
    for round in 0..n_rounds {
        let s = r.next() >> 1;
        let ops = round_ops(s, seed, &m);
        rounds.push((s, 0));
        let spec = rounds.iter().map(|(s, n)| format!("{s}:{n}")).collect::<Vec<_>>().join(",");
        let opt = r.below(20) as u8;
        let timed = r.chance(1, 4);
        let n = if timed {
            "0".to_string()
        } else if r.chance(1, 2) {
            format!("{}@{}", [1, 2, r.range(1, 6), r.range(1, 20)][r.below(4)], r.below(ops.len().max(1)))
        } else {
            [r.range(1, 40), r.range(1, 120), r.range(30, 260)][r.below(3)].to_string()
        };
        let act = match r.below(6) {
            0 | 1 => format!("t{}", [0, 100, 500, 900, 1000][r.below(5)]),
            2 => format!("s{}", [1, 500, 999][r.below(3)]),
            _ => "k0".to_string(),
        };
        let finish = if r.chance(1, 2) { "close" } else { "exit" };
        crate::progress::doing(&format!("C16 seed {seed} round {round}"));
        let args: Vec<String> = vec!["rocks".into(), dir.to_str().unwrap().into(), seed.to_string(), spec.clone(), opt.to_string(), n.clone(), act.clone(), finish.into()];
        let mut ch = spawn_child(&args);
        let mut out = ch.stdout.take().unwrap();
        let mut text = String::new();
        if timed {
            // from its first acknowledgement on, at a random time
            let mut b = [0u8; 1];
            while !text.contains('\n') {
                match out.read(&mut b) {
                    Ok(1) => text.push(b[0] as char),
                    _ => break,
                }
            }
            let us = [r.below(500), r.below(5000), r.below(60_000)][r.below(3)];
            std::thread::sleep(Duration::from_micros(us as u64));
            let _ = ch.kill();
        }
        let mut rest = Vec::new();
        let _ = out.read_to_end(&mut rest);
        text += &String::from_utf8_lossy(&rest);
        let st = ch.wait().unwrap();
        let killed = st.signal() == Some(libc::SIGKILL);
        hist.push(format!("round {round}: {} operations planned, child {args:?} said {:?}, {st:?}", ops.len(), text.lines().rev().take(2).collect::<Vec<_>>()));
        let bad = |kind: &str, what: String, extra: &[(Op, Model)], hist: &[String]| {
            rep.violation(
                &format!("C16:{kind}"),
                format!("round {round} ({}): {what}", if timed { "killed at a random time".into() } else { format!("{act} at event {n}") }),
                format!("C16 seed {seed}\n{}\noperations of this round:\n{}", hist.join("\n"), extra.iter().enumerate().map(|(k, o)| format!("{:3} {}", k + 1, short(&o.0))).collect::<Vec<_>>().join("\n")),
            );
        };
        if let Some(l) = text.lines().find(|l| l.starts_with("N ")) {
            rep.inconclusive(l.to_string());
            return;
        }
        if let Some(l) = text.lines().find(|l| l.starts_with("F ")) {
            return bad("failed", format!("an operation failed although nothing was wrong: {l}"), &ops, &hist);
        }
        if !killed && !st.success() {
            return bad("died", format!("the process died: {st:?}"), &ops, &hist);
        }
        let acked = text.lines().filter_map(|l| l.parse::<usize>().ok()).max().unwrap_or(0);
        rep.eval(1);
        rep.count(if killed { "kills" } else { "survived" }, 1);
        rep.count("acknowledged_operations", acked as u64);
        if !text.contains('O') {
            rep.count("killed_while_opening", 1);
        }
        let db = match open_rocks(&dir, r.below(20) as u8) {
            Ok(d) => d,
            Err(e) => return bad("reopen", format!("cannot be opened after the kill: {e:?}"), &ops, &hist),
        };
        let state = |k: usize| if k == 0 { &m } else { &ops[k - 1].1 };
        let mut cands = vec![(acked, state(acked))];
        if acked < ops.len() && killed {
            cands.push((acked + 1, state(acked + 1)));
        }
        let j = match find_state(&db, &cands, &p) {
            Ok(j) => j,
            Err(s) => {
                let older = (0..acked).rev().find(|k| holds(&db, state(*k), &p).is_ok());
                return bad(
                    if older.is_some() { "lost" } else { "state" },
                    format!("{acked} operations were acknowledged, but the database holds {}\n{s}", older.map(|k| format!("the state after {k}")).unwrap_or("no prefix state".into())),
                    &ops,
                    &hist,
                );
            }
        };
        let inflight = ops.get(acked).map(|o| opname(&o.0)).unwrap_or_default();
        rep.distinct(&(timed, &act, inflight.split(':').next(), j - acked, text.contains('O'), acked.min(30)));
        rep.distinct(&("ev", &n, &act, &inflight));
        rep.count(&format!("inflight_{}", inflight.split(':').next().unwrap_or("")), 1);
        rep.count(if j > acked { "unacknowledged_but_applied" } else { "exactly_acknowledged" }, 1);
        rounds.last_mut().unwrap().1 = j;
        m = state(j).clone();
        if round + 1 == n_rounds {
            if let Err(s) = deep_check(&db, &mut m.clone(), &p, rep) {
                return bad("leftovers", s, &ops, &hist);
            }
        }
    }
    rep.count("series", 1);
    if seed % 17 == 0 {
        rep.sample(json!({"seed": seed, "rounds": hist}));
    }
}
pub(super) fn parallel(cx: &Ctx, percent: u64, threads: usize, rep: &Report, f: impl Fn(usize, u64) + Sync) {
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if t0.elapsed() > cx.dur(percent) || rep.nviol() >= 6 {
                        return;
                    }
                    f(k, h64(&(cx.seed, percent, k)));
                })
                .unwrap();
        }
    });
}
pub fn c16(cx: &Ctx, rep: &Report) {
    parallel(cx, 95, cx.threads, rep, |_, seed| c16_series(seed, rep));
}

// ---- C17 ---------------------------------------------------------------------------
/// child open <dir> <opt> <event> <act>: opens (creating if missing), says so, exits without closing.
fn child_open(a: &[String]) -> i32 {
    let dir = PathBuf::from(&a[0]);
    let opt: u8 = a[1].parse().unwrap();
    let n: u64 = a[2].parse().unwrap();
    let act = super::images::act_parse(&a[3]);
    let watched = dir.parent().unwrap().to_path_buf();
    let last = AtomicUsize::new(0);
    let r = fault::watch(
        &watched,
        |e: &Ev| {
            last.store(e.n as usize, Ordering::SeqCst);
            if e.n == n {
                act.clone()
            } else {
                Act::Pass
            }
        },
        || {
            match open_rocks(&dir, opt) {
                Ok(d) => {
                    say(&format!("opened {}\n", last.load(Ordering::SeqCst)));
                    if a.get(4).map(String::as_str) == Some("close") {
                        drop(d);
                    } else {
                        std::mem::forget(d);
                    }
                }
                Err(e) => say(&format!("refused {} {e:?}\n", last.load(Ordering::SeqCst)).replace("\n\n", "\n")),
            }
            unsafe { libc::_exit(0) }
            #[allow(unreachable_code)]
            ()
        },
    );
    if let Err(s) = r {
        say(&format!("N {s}\n"));
    }
    0
}
fn run_open(dir: &Path, opt: u8, n: u64, act: &str, finish: &str) -> (String, std::process::ExitStatus) {
    let mut ch = spawn_child(&["open".into(), dir.to_str().unwrap().into(), opt.to_string(), n.to_string(), act.into(), finish.into()]);
    let mut text = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut text);
    (text, ch.wait().unwrap())
}
pub(super) fn copy_dir(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap().flatten() {
        if e.path().is_dir() {
            copy_dir(&e.path(), &b.join(e.file_name()));
        } else {
            std::fs::copy(e.path(), b.join(e.file_name())).unwrap();
        }
    }
}
/// The directory opens and works as database of the given content.
fn usable(dir: &Path, m: &Model, p: &Pools, r: &mut Rng, rep: &Report) -> Result<(), String> {
    let db = open_rocks(dir, r.below(20) as u8).map_err(|e| format!("cannot be opened: {e:?}"))?;
    audit(&db, m, true)?;
    let mut m2 = m.clone();
    let w = Weights { reopen: 0, ..Weights::default() };
    for _ in 0..12 {
        let op = gen_op(p, r, &m2, &w);
        step_db(&db, &mut m2, &op, rep, false).map_err(|s| format!("{}: {s}", short(&op)))?;
    }
    audit(&db, &m2, true)?;
    drop(db);
    let db = open_rocks(dir, r.below(20) as u8).map_err(|e| format!("cannot be opened a second time: {e:?}"))?;
    audit(&db, &m2, true).map_err(|s| format!("after reopening: {s}"))
}
/// A populated, closed database and what is in it.
fn populated(dir: &Path, seed: u64, rep: &Report) -> Result<(Model, Pools), String> {
    let mut r = Rng::new(seed);
    let p = Pools::new(&mut r, 6, 3, 3, 6);
    let mut m = Model::new(EdgeOrder::LenPrefixed);
    let n = r.range(10, 60);
    {
        let mut db = Some(open_rocks(dir, r.below(20) as u8).map_err(|e| format!("{e:?}"))?);
        for op in [Op::Index(p.names[0].clone()), Op::CreateV(p.ids[0], p.types[0].clone()), Op::CreateV(p.ids[1], p.types[1].clone())] {
            step_db(db.as_ref().unwrap(), &mut m, &op, rep, false)?;
        }
        for _ in 0..n {
            let op = gen_op(&p, &mut r, &m, &Weights { reopen: 1, get: 2, sync: 2, ..Weights::default() });
            if let Op::Reopen(o) = op {
                db = None;
                db = Some(open_rocks(dir, o).map_err(|e| format!("{e:?}"))?);
                continue;
            }
            step_db(db.as_ref().unwrap(), &mut m, &op, rep, false).map_err(|s| format!("{}: {s}", short(&op)))?;
        }
        drop(db);
    }
    Ok((m, p))
}
fn c17_interrupted(seed: u64, k: usize, rep: &Report) {
    let mut r = Rng::new(seed);
    let tmp = scratch();
    let dir = if r.chance(1, 5) { tmp.path().join("deeper").join("db") } else { tmp.path().join("db") };
    let _ = std::fs::create_dir_all(dir.parent().unwrap());
    let fresh = r.chance(2, 3);
    let (m, p) = if fresh {
        (Model::new(EdgeOrder::LenPrefixed), Pools::new(&mut r, 6, 3, 3, 6))
    } else {
        match populated(&dir, seed, rep) {
            Ok(x) => x,
            Err(s) => return rep.violation("C17:setup", s, format!("C17 interrupted seed {seed}")),
        }
    };
    let mut log = Vec::new();
    for _ in 0..[1, 1, 2, 3][r.below(4)] {
        // an opening makes roughly 60 to 150 calls: walk through them
        let n = if r.chance(1, 2) { 1 + (k / 2 % 150) as u64 } else { r.range(1, 160) as u64 };
        let act = match r.below(8) {
            0 => format!("t{}", [0, 500, 999][r.below(3)]),
            1 => format!("e{}", [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE][r.below(4)]),
            _ => "k0".to_string(),
        };
        let finish = if r.chance(1, 2) { "close" } else { "exit" };
        crate::progress::doing(&format!("C17 seed {seed} {act} at {n}"));
        let (text, st) = run_open(&dir, r.below(20) as u8, n, &act, finish);
        log.push(format!("{act} at event {n}: {text:?} {st:?}"));
        if text.starts_with('N') {
            rep.inconclusive(text);
            return;
        }
        rep.eval(1);
        let killed = st.signal() == Some(libc::SIGKILL);
        rep.distinct(&(fresh, n, &act, killed, text.split(' ').next().map(|s| s.to_string())));
        rep.count(if killed { if fresh { "killed_creations" } else { "killed_reopenings" } } else if text.starts_with("opened") { "opened" } else { "refused_with_error" }, 1);
        if !killed && !st.success() {
            rep.violation("C17:died", format!("opening died: {st:?} ({act} at event {n})"), format!("C17 interrupted seed {seed}\n{}", log.join("\n")));
            return;
        }
        if text.starts_with("refused") && (act == "k0" || act.starts_with('t')) {
            rep.violation("C17:refused", format!("after an interrupted {}, opening fails: {text}", if fresh { "creation" } else { "opening" }), format!("C17 interrupted seed {seed}\n{}", log.join("\n")));
            return;
        }
    }
    if let Err(s) = usable(&dir, &m, &p, &mut r, rep) {
        rep.violation(
            "C17:interrupted",
            format!("after interrupted {}: {s}", if fresh { "creation" } else { "opening of a populated database" }),
            format!("C17 interrupted seed {seed} fresh {fresh}\n{}", log.join("\n")),
        );
    }
    if seed % 19 == 0 {
        rep.sample(json!({"seed": seed, "fresh": fresh, "attempts": log}));
    }
}
fn c17_double(seed: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    let tmp = scratch();
    let dir = tmp.path().join("db");
    crate::progress::doing(&format!("C17 double open seed {seed}"));
    let (mut m, p) = match populated(&dir, seed, rep) {
        Ok(x) => x,
        Err(s) => return rep.violation("C17:setup", s, format!("C17 double seed {seed}")),
    };
    let bad = |kind: &str, what: String| rep.violation(&format!("C17:double:{kind}"), what, format!("C17 double seed {seed}"));
    let db = match open_rocks(&dir, r.below(20) as u8) {
        Ok(d) => d,
        Err(e) => return bad("open", format!("{e:?}")),
    };
    let w = Weights { reopen: 0, ..Weights::default() };
    for _ in 0..r.range(1, 5) {
        for _ in 0..r.below(6) {
            let op = gen_op(&p, &mut r, &m, &w);
            if let Err(s) = step_db(&db, &mut m, &op, rep, false) {
                return bad("history", s);
            }
        }
        let other = r.chance(1, 2);
        let refused = if other {
            let (text, _) = run_open(&dir, r.below(20) as u8, 0, "p0", "close");
            if text.starts_with('N') {
                rep.inconclusive(text);
                continue;
            }
            text.starts_with("refused")
        } else {
            match open_rocks(&dir, r.below(20) as u8) {
                Ok(_) => false,
                Err(E::Panic(s)) => return bad("panic", s),
                Err(_) => true,
            }
        };
        rep.eval(1);
        rep.distinct(&("double", other, m.v.len().min(4), model_hash(&m)));
        rep.count(if other { "second_open_other_process" } else { "second_open_same_process" }, 1);
        if !refused {
            return bad("accepted", format!("a second opening of a live database ({}) succeeded", if other { "other process" } else { "same process" }));
        }
        if let Err(s) = audit(&db, &m, true) {
            return bad("harmed", format!("after a refused second opening: {s}"));
        }
    }
    drop(db);
    if let Err(s) = usable(&dir, &m, &p, &mut r, rep) {
        bad("after", s);
    }
}
fn c17_repair(seed: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    let tmp = scratch();
    let dir = tmp.path().join("db");
    crate::progress::doing(&format!("C17 repair seed {seed}"));
    let (mut m, p) = match populated(&dir, seed, rep) {
        Ok(x) => x,
        Err(s) => return rep.violation("C17:setup", s, format!("C17 repair seed {seed}")),
    };
    let mut log: Vec<String> = Vec::new();
    for _ in 0..r.range(1, 3) {
        let n = r.below(20) as u8;
        let opts = if r.chance(1, 2) { RocksdbDatastore::get_options(None) } else { rocks_opts(n) };
        log.push("repair".into());
        let res = guard(|| RocksdbDatastore::repair(&dir, &opts).map_err(err));
        rep.eval(1);
        rep.count("repairs", 1);
        rep.distinct(&("repair", model_hash(&m)));
        if let Err(e) = res {
            return rep.violation("C17:repair:failed", format!("repair of a closed database failed: {e:?}"), format!("C17 repair seed {seed}"));
        }
        let db = match open_rocks(&dir, r.below(20) as u8) {
            Ok(d) => d,
            Err(e) => return rep.violation("C17:repair:open", format!("after repair: {e:?}"), format!("C17 repair seed {seed}")),
        };
        if let Err(s) = audit(&db, &m, true).and_then(|_| deep_check(&db, &mut m.clone(), &p, rep)) {
            return rep.violation("C17:repair:content", format!("after repair: {s}"), format!("C17 repair seed {seed}\n{}", log.join("\n")));
        }
        // deep_check re-created things: take them over
        for op in resurrection(&p, &m.clone()) {
            if let Some(x) = model_step(&m, &op) {
                m = x;
            }
        }
        for _ in 0..r.range(0, 10) {
            let op = gen_op(&p, &mut r, &m, &Weights { reopen: 0, ..Weights::default() });
            log.push(short(&op));
            if let Err(s) = step_db(&db, &mut m, &op, rep, false) {
                return rep.violation("C17:repair:history", s, format!("C17 repair seed {seed}\n{}", log.join("\n")));
            }
        }
    }
    if let Err(s) = usable(&dir, &m, &p, &mut r, rep) {
        rep.violation("C17:repair:after", s, format!("C17 repair seed {seed}\n{}", log.join("\n")));
    }
}
/// A name of exactly `n` bytes, different for different `k`.
fn long_name(k: usize, n: usize) -> String {
    let s = format!("n{k}-");
    format!("{s}{}", "x".repeat(n.saturating_sub(s.len())))
}
/// Many indexes, long names and many types across reopenings and repairs: what the database keeps about itself has no
/// size at which it stops being readable.
fn c17_many(seed: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    let tmp = scratch();
    let dir = tmp.path().join("db");
    crate::progress::doing(&format!("C17 many indexes seed {seed}"));
    let count = super::scale::boundary(&mut r, 300);
    let style = r.below(3);
    let names: Vec<String> = (0..count)
        .map(|k| match style {
            0 => format!("n{k}"),
            1 => long_name(k, 255),
            _ => long_name(k, r.range(1, 255)),
        })
        .collect();
    let types: Vec<String> = (0..r.range(1, 40)).map(|k| long_name(k, if r.chance(1, 3) { 255 } else { 20 })).collect();
    let mut m = Model::new(EdgeOrder::LenPrefixed);
    let mut log: Vec<String> = Vec::new();
    let mut db = match open_rocks(&dir, r.below(20) as u8) {
        Ok(d) => Some(d),
        Err(e) => return rep.violation("C17:many:open", format!("{e:?}"), format!("C17 many seed {seed}")),
    };
    let ids: Vec<Id> = (0..r.range(2, 60)).map(|_| r.u128()).collect();
    for (k, id) in ids.iter().enumerate() {
        let op = Op::CreateV(*id, types[k % types.len()].clone());
        if let Err(s) = step_db(db.as_ref().unwrap(), &mut m, &op, rep, false) {
            return rep.violation("C17:many:history", s, format!("C17 many seed {seed}"));
        }
    }
    let mut at: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(count + 1)).collect();
    at.push(count);
    for k in 0..=count {
        let mut ops = Vec::new();
        if at.contains(&k) {
            let repair = r.chance(1, 4);
            log.push(format!("after {k} indexes: {}reopen", if repair { "repair, " } else { "" }));
            db = None;
            if repair {
                if let Err(e) = guard(|| RocksdbDatastore::repair(&dir, &RocksdbDatastore::get_options(None)).map_err(err)) {
                    return rep.violation("C17:many:repair", format!("with {k} indexes: repair failed: {e:?}"), format!("C17 many seed {seed}\n{}", log.join("\n")));
                }
            }
            db = match open_rocks(&dir, r.below(20) as u8) {
                Ok(d) => Some(d),
                Err(e) => return rep.violation("C17:many:reopen", format!("a closed database with {k} indexes cannot be opened: {e:?}"), format!("C17 many seed {seed}\n{}", log.join("\n"))),
            };
            rep.eval(1);
            rep.count("reopened_with_many_indexes", 1);
            rep.distinct(&("many", style, k, repair));
            if let Err(s) = audit(db.as_ref().unwrap(), &m, k == count) {
                return rep.violation("C17:many:content", format!("reopened with {k} indexes: {s}"), format!("C17 many seed {seed}\n{}", log.join("\n")));
            }
        }
        let Some(n) = names.get(k) else { break };
        if r.chance(1, 3) {
            ops.push(Op::Set(Q::SpecV(vec![*r.pick(&ids)]), n.clone(), json!(k % 3)));
        }
        ops.push(Op::Index(n.clone()));
        if r.chance(1, 3) {
            ops.push(Op::Set(Q::SpecV(vec![*r.pick(&ids)]), names[r.below(k + 1)].clone(), json!(k % 3)));
        }
        for op in ops {
            if let Err(s) = step_db(db.as_ref().unwrap(), &mut m, &op, rep, false) {
                return rep.violation("C17:many:history", format!("with {k} indexes: {}: {s}", short(&op)), format!("C17 many seed {seed}\n{}", log.join("\n")));
            }
        }
    }
}
/// Directories that are no database, or belong to somebody else: refused or created, never a panic.
fn c17_odd(seed: u64, rep: &Report) {
    let mut r = Rng::new(seed);
    let tmp = scratch();
    let d = tmp.path();
    std::fs::write(d.join("file"), "x").unwrap();
    std::fs::create_dir(d.join("empty")).unwrap();
    std::fs::create_dir(d.join("junk")).unwrap();
    std::fs::write(d.join("junk/readme.txt"), "hello").unwrap();
    for (p, must) in [("file", Some(false)), ("empty", Some(true)), ("junk", Some(true)), ("new \u{e9} dir", Some(true)), ("file/db", Some(false))] {
        let path = d.join(p);
        let res = open_rocks(&path, r.below(20) as u8);
        rep.eval(1);
        rep.distinct(&("odd", p));
        match (&res, must) {
            (Err(E::Panic(s)), _) => rep.violation("C17:odd:panic", format!("{p}: {s}"), String::new()),
            (Ok(_), Some(false)) => rep.violation("C17:odd:accepted", format!("{p} was opened"), String::new()),
            (Err(e), Some(true)) => rep.violation("C17:odd:refused", format!("{p}: {e:?}"), String::new()),
            _ => {}
        }
        drop(res);
        if must == Some(true) {
            let pools = Pools::new(&mut r, 6, 3, 3, 6);
            if let Err(s) = usable(&path, &Model::new(EdgeOrder::LenPrefixed), &pools, &mut r, rep) {
                rep.violation("C17:odd:unusable", format!("{p}: {s}"), format!("seed {seed}"));
            }
        }
    }
    if std::fs::read(d.join("file")).unwrap() != b"x" || std::fs::read(d.join("junk/readme.txt")).unwrap() != b"hello" {
        rep.violation("C17:odd:harmed", "files that are no database were changed".into(), String::new());
    }
}
pub fn c17(cx: &Ctx, rep: &Report) {
    parallel(cx, 95, cx.threads, rep, |k, seed| match k % 10 {
        0 | 1 => c17_double(seed, rep),
        2 | 3 => c17_repair(seed, rep),
        4 if k < 20 => c17_odd(seed, rep),
        4 | 5 => c17_many(seed, rep),
        _ => c17_interrupted(seed, k, rep),
    });
}
pub fn child(a: &[String]) -> i32 {
    match a[0].as_str() {
        "rocks" => child_rocks(&a[1..]),
        "open" => child_open(&a[1..]),
        _ => 7,
    }
}
