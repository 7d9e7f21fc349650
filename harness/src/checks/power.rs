//! C32: power failures. A history runs in a process whose file operations are watched; at chosen ones a copy of the
//! database is put aside as a power failure at that instant would leave it: names as they are, of every file what was
//! there when it was last synchronized (fsync, fdatasync) and at most a part of what was written since. Each copy is
//! opened afterwards and its contents compared with the states of the history.
use super::crash::{apply, find_state, parallel, round_ops, say, spawn_child};
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::fault::{self, Act, Ev};
use crate::gen::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use indradb::{Database, MemoryDatastore, RocksdbDatastore};
use serde_json::json;
use std::collections::HashMap;
use std::io::Read;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// What of a file would survive: inode -> contents when it was last synchronized.
struct Disk {
    kept: HashMap<u64, Vec<u8>>,
    fresh: Vec<PathBuf>,
    syncs: u64,
}
impl Disk {
    /// Before a call takes effect.
    fn before(&mut self, e: &Ev) {
        let kept = &mut self.kept;
        self.fresh.retain(|p| match std::fs::metadata(p) {
            Ok(m) => {
                kept.remove(&m.ino());
                false
            }
            Err(_) => true,
        });
        match e.call {
            "open" | "openat" | "creat" if !e.path.exists() => self.fresh.push(e.path.clone()),
            _ => {}
        }
    }
    /// The call is about to be made; from now on it counts as done.
    fn sync(&mut self, e: &Ev) {
        if e.call == "fsync" || e.call == "fdatasync" {
            if let Ok(m) = std::fs::metadata(&e.path) {
                if m.is_file() {
                    if let Ok(b) = std::fs::read(&e.path) {
                        self.syncs += 1;
                        self.kept.insert(m.ino(), b);
                    }
                }
            }
        }
    }
    fn image(&self, from: &Path, to: &Path, r: &mut Rng, mode: u8) {
        let _ = std::fs::create_dir_all(to);
        let Ok(d) = std::fs::read_dir(from) else { return };
        for f in d.flatten() {
            let (p, q) = (f.path(), to.join(f.file_name()));
            let Ok(m) = std::fs::metadata(&p) else { continue };
            if m.is_dir() {
                self.image(&p, &q, r, mode);
                continue;
            }
            let mut b = self.kept.get(&m.ino()).cloned().unwrap_or_default();
            if mode > 0 {
                // some of what came later had been written back already
                if let Ok(now) = std::fs::read(&p) {
                    if now.len() > b.len() && now.starts_with(&b) {
                        let more = match mode {
                            1 => r.below(now.len() - b.len() + 1),
                            _ => now.len() - b.len(),
                        };
                        b = now[..b.len() + more].to_vec();
                    }
                }
            }
            let _ = std::fs::write(&q, b);
        }
    }
}
fn order(kind: &str) -> EdgeOrder {
    if kind == "rocks" { EdgeOrder::LenPrefixed } else { EdgeOrder::Plain }
}
/// The operations with the syncs in between.
fn plan(kind: &str, seed: u64) -> Vec<(Op, Model)> {
    let mut r = Rng::new(seed ^ 0x5157);
    let m = Model::new(order(kind));
    let mut v: Vec<(Op, Model)> = vec![];
    for (op, after) in round_ops(seed, seed, &m) {
        if kind != "rocks" && matches!(op, Op::Reopen(_)) {
            continue;
        }
        v.push((op, after.clone()));
        if r.chance(1, 4) {
            v.push((Op::Sync, after));
        }
    }
    if kind != "rocks" || r.chance(1, 2) {
        let last = v.last().map(|l| l.1.clone()).unwrap_or(m);
        v.push((Op::Sync, last));
    }
    v
}
const WRITERS: usize = 3;
/// What writer w's j-th operation puts there: a vertex, its property and an edge from the vertex before it, as a unit.
fn unit(w: usize, j: usize) -> Vec<Item> {
    let id = |j: usize| ((w as u128 + 1) << 64) + j as u128;
    let mut v = vec![Item::V(id(j), "t".into()), Item::VP(id(j), "n".into(), json!([w, j, "x".repeat(j * 37 % 400)]))];
    if j > 0 {
        v.push(Item::E(EK::new(id(j - 1), "next", id(j))));
    }
    v
}
/// child power-threads <dir> <out> <seed> <opt>: writers at work while the database is synced again and again; prints
/// "I <image> <synced of each writer> <begun by each writer> <event>"
fn child_threads(a: &[String]) -> i32 {
    let (dir, out) = (PathBuf::from(&a[0]), PathBuf::from(&a[1]));
    let (seed, opt): (u64, u8) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let counters = || (0..WRITERS).map(|_| AtomicUsize::new(0)).collect::<Vec<_>>();
    let (done, begun, synced) = (counters(), counters(), counters());
    let get = |c: &[AtomicUsize]| c.iter().map(|x| x.load(Ordering::SeqCst)).collect::<Vec<_>>();
    let text = |v: Vec<usize>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut r = Rng::new(seed);
    let mut disk = Disk { kept: HashMap::new(), fresh: vec![], syncs: 0 };
    let place = dir.join("db");
    let mut images = 0;
    let mut r2 = Rng::new(seed ^ 7);
    let decide = |e: &Ev| {
        disk.before(e);
        if images < 20 && r2.chance(1, if e.call.contains("sync") { 3 } else { 12 }) {
            let s = get(&synced);
            disk.image(&place, &out.join(images.to_string()), &mut r2, 0);
            say(&format!("I {images} {} {} {}\n", text(s), text(get(&begun)), e.call));
            images += 1;
        }
        disk.sync(e);
        Act::Pass
    };
    let mut go = || -> i32 {
        let db = match open_rocks(&place, opt) {
            Ok(d) => d,
            Err(e) => {
                say(&format!("F open {e:?}\n"));
                return 1;
            }
        };
        let stop = std::sync::atomic::AtomicBool::new(false);
        let code = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for w in 0..WRITERS {
                let (db, done, begun, stop, code) = (&db, &done, &begun, &stop, &code);
                sc.spawn(move || {
                    for j in 0..400 {
                        if stop.load(Ordering::SeqCst) {
                            return;
                        }
                        begun[w].store(j + 1, Ordering::SeqCst);
                        if let Err(e) = Db::bulk(db, &unit(w, j)) {
                            say(&format!("F bulk {e:?}\n"));
                            code.store(1, Ordering::SeqCst);
                            return;
                        }
                        done[w].store(j + 1, Ordering::SeqCst);
                    }
                });
            }
            for _ in 0..r.range(2, 9) {
                let d = get(&done);
                if let Err(e) = Db::sync(&db) {
                    say(&format!("F sync {e:?}\n"));
                    code.store(1, Ordering::SeqCst);
                    break;
                }
                for (c, d) in synced.iter().zip(d) {
                    c.store(d, Ordering::SeqCst);
                }
                std::thread::sleep(std::time::Duration::from_micros(r.below(3000) as u64));
            }
            stop.store(true, Ordering::SeqCst);
        });
        std::mem::forget(db);
        code.load(Ordering::SeqCst) as i32
    };
    let res = fault::watch(&dir, decide, || {
        let c = go();
        say("END\n");
        unsafe { libc::_exit(c) }
        #[allow(unreachable_code)]
        c
    });
    if let Err(s) = res {
        say(&format!("N {s}\n"));
    }
    0
}
fn threads(seed: u64, rep: &Report) {
    let mut r = Rng::new(seed ^ 1);
    let tmp = scratch();
    let (dir, out) = (tmp.path().join("live"), tmp.path().join("after"));
    let _ = std::fs::create_dir(&dir);
    let _ = std::fs::create_dir(&out);
    crate::progress::doing(&format!("C32 threads seed {seed}"));
    let opt = r.below(20) as u8;
    let mut ch = spawn_child(&["power-threads".into(), dir.to_str().unwrap().into(), out.to_str().unwrap().into(), seed.to_string(), opt.to_string()]);
    let mut text = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut text);
    let st = ch.wait().unwrap();
    let bad = |what: String| rep.violation("C32:threads", what.clone(), format!("C32 threads seed {seed} option {opt}\n{what}"));
    if let Some(l) = text.lines().find(|l| l.starts_with("N ")) {
        rep.inconclusive(l.to_string());
        return;
    }
    if let Some(l) = text.lines().find(|l| l.starts_with("F ")) {
        return bad(format!("an operation failed although nothing was wrong: {l}"));
    }
    if !text.contains("END") {
        return bad(format!("the process died: {st:?}"));
    }
    rep.count("histories_threads", 1);
    for l in text.lines().filter(|l| l.starts_with("I ")) {
        let f: Vec<&str> = l.split(' ').collect();
        let nums = |s: &str| s.split(',').map(|x| x.parse::<usize>().unwrap_or(0)).collect::<Vec<_>>();
        let (img, synced, begun) = (out.join(f[1]), nums(f[2]), nums(f[3]));
        rep.eval(1);
        rep.count("power_failures_threads", 1);
        rep.distinct(&("threads", f[2], f[3], f[4]));
        let at = format!("power failed before {} with {begun:?} operations begun and {synced:?} synced by the writers", f[4]);
        let o2 = r.below(20) as u8;
        let db = match open_rocks(&img, o2) {
            Ok(d) => d,
            Err(e) => return bad(format!("{at}: the database cannot be opened (option {o2}): {e:?}")),
        };
        let n = match Db::get(&db, Q::AllV.raw()) {
            Ok(o) if o.len() == 1 => match &o[0] {
                Out::V(v) => (0..WRITERS).map(|w| v.iter().filter(|x| x.0 >> 64 == w as u128 + 1).count()).collect::<Vec<_>>(),
                o => return bad(format!("{at}: {o:?}")),
            },
            o => return bad(format!("{at}: the vertices are {o:?}")),
        };
        let mut m = Model::new(EdgeOrder::LenPrefixed);
        for (w, n) in n.iter().enumerate() {
            for j in 0..*n {
                m.bulk(&unit(w, j));
            }
        }
        if let Err(s) = audit(&db, &m, true) {
            return bad(format!("{at}: the operations that survived are not {n:?} first ones, each as a whole: {}", s.chars().take(700).collect::<String>()));
        }
        for w in 0..WRITERS {
            if n[w] < synced[w] || n[w] > begun[w] {
                return bad(format!("{at}: of writer {w} {} are there", n[w]));
            }
            rep.count("operations_of_writers_lost", (begun[w] - n[w]) as u64);
        }
    }
}
/// child power <kind> <dir> <out> <seed> <opt>: prints "I <image> <done> <begun> <synced> <mode> <event>" for every copy
pub fn child(a: &[String]) -> i32 {
    if a[0] == "power-threads" {
        return child_threads(&a[1..]);
    }
    let (kind, dir, out) = (a[1].clone(), PathBuf::from(&a[2]), PathBuf::from(&a[3]));
    let (seed, opt): (u64, u8) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let ops = plan(&kind, seed);
    let (done, begun, synced) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let r = Mutex::new(Rng::new(seed ^ 0xf00d));
    let disk = Mutex::new(Disk { kept: HashMap::new(), fresh: vec![], syncs: 0 });
    let rate = [3usize, 8, 25][r.lock().unwrap().below(3)];
    // in some histories the disk refuses something while the database is being synced
    let faulty = seed % 2 == 0;
    let mut refusals = if faulty { 1 + r.lock().unwrap().below(2) } else { 0 };
    let refused = AtomicUsize::new(0);
    let (mut images, mut last_synced) = (0, usize::MAX);
    let place = dir.join("db");
    let decide = |e: &Ev| {
        let mut r = r.lock().unwrap();
        let mut disk = disk.lock().unwrap();
        disk.before(e);
        let (d, b, s) = (done.load(Ordering::SeqCst), begun.load(Ordering::SeqCst), synced.load(Ordering::SeqCst));
        // the first instant after a sync counts most
        let now = s != last_synced && s > 0;
        let mark = e.path.ends_with("mark");
        if images < 14 && (r.chance(1, rate) || now || mark) || images < 24 && (now || mark) {
            let mode = if now { 0 } else { [0, 0, 1, 2][r.below(4)] };
            disk.image(&place, &out.join(images.to_string()), &mut r, mode);
            say(&format!("I {images} {d} {b} {s} {mode} {} {}\n", e.call, e.path.file_name().map(|f| f.to_string_lossy().into_owned()).unwrap_or_default()));
            images += 1;
            last_synced = s;
        }
        let syncing = b > d && matches!(ops.get(b - 1), Some((Op::Sync, _)));
        if refusals > 0 && syncing && !mark && r.chance(1, 6) && !e.call.contains("unlink") && !e.path.ends_with("LOG") {
            refusals -= 1;
            refused.fetch_add(1, Ordering::SeqCst);
            let no = if r.chance(1, 2) { libc::EIO } else { libc::ENOSPC };
            say(&format!("R {b} {} {} {no}\n", e.call, e.path.file_name().map(|f| f.to_string_lossy().into_owned()).unwrap_or_default()));
            return Act::Errno(no);
        }
        disk.sync(e);
        Act::Pass
    };
    let go = || -> i32 {
        let mut m = Model::new(order(&kind));
        let fail = |k: usize, s: String| {
            say(&format!("F {k} {}\n", s.replace('\n', " ")));
            1
        };
        let mem: Option<Database<MemoryDatastore>> = (kind == "image").then(|| {
            let _ = std::fs::create_dir(&place);
            MemoryDatastore::create_msgpack_db(place.join("image"))
        });
        let mut db: Option<Database<RocksdbDatastore>> = None;
        if mem.is_none() {
            db = match open_rocks(&place, opt) {
                Ok(d) => Some(d),
                Err(e) => return fail(0, format!("open {e:?}")),
            };
        }
        for (k, (op, after)) in ops.iter().enumerate() {
            begun.store(k + 1, Ordering::SeqCst);
            let before = refused.load(Ordering::SeqCst);
            let res = match (op, &mem) {
                (Op::Reopen(o), _) => {
                    drop(db.take());
                    match open_rocks(&place, *o) {
                        Ok(d) => {
                            db = Some(d);
                            Ok(())
                        }
                        Err(e) => Err(format!("reopen {e:?}")),
                    }
                }
                (Op::Sync, Some(x)) => Db::sync(x).map_err(|e| format!("{e:?}")),
                (op, Some(x)) => {
                    let rep = Report::default();
                    step_db(x, &mut m.clone(), op, &rep, false).map(|_| ())
                }
                (op, None) => apply(db.as_ref().unwrap(), op, &m),
            };
            if let Err(s) = res {
                if refused.load(Ordering::SeqCst) > 0 {
                    say(&format!("E {}\n", opname(op)));
                    // a refused sync changes nothing; what other operations do after the disk failed is not pursued
                    if matches!(op, Op::Sync) {
                        done.store(k + 1, Ordering::SeqCst);
                        continue;
                    }
                    break;
                }
                return fail(k, format!("{} {s}", opname(op)));
            }
            if matches!(op, Op::Sync) && refused.load(Ordering::SeqCst) > before {
                say("S\n");
            }
            done.store(k + 1, Ordering::SeqCst);
            if matches!(op, Op::Sync) {
                synced.store(k + 1, Ordering::SeqCst);
                // gives the monitor its chance
                let _ = std::fs::create_dir(dir.join("mark"));
                let _ = std::fs::remove_dir(dir.join("mark"));
            }
            m = after.clone();
        }
        let _ = std::fs::create_dir(dir.join("mark"));
        std::mem::forget(db);
        0
    };
    let res = fault::watch(&dir, decide, || {
        let c = go();
        say("END\n");
        unsafe { libc::_exit(c) }
        #[allow(unreachable_code)]
        c
    });
    if let Err(s) = res {
        say(&format!("N {s}\n"));
    }
    0
}
fn series(kind: &str, seed: u64, rep: &Report) {
    let mut r = Rng::new(seed ^ 1);
    let tmp = scratch();
    let (dir, out) = (tmp.path().join("live"), tmp.path().join("after"));
    let _ = std::fs::create_dir(&dir);
    let _ = std::fs::create_dir(&out);
    crate::progress::doing(&format!("C32 {kind} seed {seed}"));
    let opt = r.below(20) as u8;
    let mut ch = spawn_child(&["power".into(), kind.into(), dir.to_str().unwrap().into(), out.to_str().unwrap().into(), seed.to_string(), opt.to_string()]);
    let mut text = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut text);
    let st = ch.wait().unwrap();
    let ops = plan(kind, seed);
    let hist = || ops.iter().enumerate().map(|(k, o)| format!("{:3} {}", k + 1, short(&o.0))).collect::<Vec<_>>().join("\n");
    if let Some(l) = text.lines().find(|l| l.starts_with("N ")) {
        rep.inconclusive(l.to_string());
        return;
    }
    if let Some(l) = text.lines().find(|l| l.starts_with("F ")) {
        return rep.violation("C32:failed", format!("an operation failed although nothing was wrong: {l}"), format!("C32 {kind} seed {seed}\n{}", hist()));
    }
    if !text.contains("END") {
        return rep.violation("C32:died", format!("the process died: {st:?}"), format!("C32 {kind} seed {seed}\n{}", hist()));
    }
    let p = Pools::new(&mut Rng::new(seed), 7, 3, 3, 6);
    let start = Model::new(order(kind));
    let state = |k: usize| if k == 0 { &start } else { &ops[k - 1].1 };
    rep.count(&format!("histories_{kind}"), 1);
    for (c, name) in [('R', "refused_by_the_disk"), ('E', "operations_failed_on_a_refusing_disk"), ('S', "syncs_succeeded_on_a_refusing_disk")] {
        rep.count(&format!("{name}_{kind}"), text.lines().filter(|l| l.starts_with(c) && l.len() < 200).count() as u64);
    }
    for l in text.lines().filter(|l| l.starts_with("I ")) {
        let f: Vec<&str> = l.splitn(8, ' ').collect();
        let n: Vec<usize> = f[1..6].iter().map(|x| x.parse().unwrap_or(0)).collect();
        let (img, done, begun, synced, mode) = (out.join(n[0].to_string()), n[1], n[2], n[3], n[4]);
        rep.eval(1);
        rep.count(&format!("power_failures_{kind}"), 1);
        rep.count(&format!("power_failure_at_{}", f[6]), 1);
        if synced == done && synced > 0 {
            rep.count("right_after_a_sync", 1);
        }
        if matches!(ops.get(begun.max(1) - 1), Some((Op::Sync, _))) && begun > done {
            rep.count("during_a_sync", 1);
        }
        rep.distinct(&(kind, f[6], mode, model_hash(state(done)), begun - done, done - synced));
        let bad = |what: String| {
            rep.violation(
                &format!("C32:{kind}"),
                format!("power failed after {done} operations ({begun} begun, {synced} synced), before {} of {}, {}: {what}", f[6], f[7], ["no unsynchronized data survived", "some unsynchronized data survived", "unsynchronized data survived"][mode]),
                format!("C32 {kind} seed {seed} option {opt}\n{what}\n{}\n{text}", hist()),
            );
        };
        if kind == "image" {
            let path = img.join("image");
            // the state a sync in progress writes
            let later = match ops.get(begun.max(1) - 1) {
                Some((Op::Sync, m)) if begun > done => Some(m),
                _ => None,
            };
            if !path.exists() {
                if synced > 0 {
                    return bad("there is no image".into());
                }
                continue;
            }
            let old = (synced > 0).then(|| state(synced));
            match guard(|| MemoryDatastore::read_msgpack_db(&path).map_err(|e| E::Other(e.to_string()))) {
                Err(e) => return bad(format!("the image cannot be read: {e:?}")),
                Ok(db) => {
                    let errs: Vec<String> = old.into_iter().chain(later).filter_map(|m| audit(&db, m, true).err()).collect();
                    if errs.len() == old.is_some() as usize + later.is_some() as usize {
                        return bad(format!("the image is neither the old nor the new state: {}", errs.join("; ").chars().take(700).collect::<String>()));
                    }
                }
            }
            continue;
        }
        let o2 = r.below(20) as u8;
        let db = match open_rocks(&img, o2) {
            Ok(d) => d,
            Err(e) => return bad(format!("the database cannot be opened (option {o2}): {e:?}")),
        };
        // the likely ones first
        let mut ks: Vec<usize> = vec![synced, begun, done];
        ks.extend((synced..=begun).rev());
        let mut cands: Vec<(usize, &Model)> = vec![];
        for k in ks {
            if cands.iter().all(|c| *c.1 != *state(k)) {
                cands.push((k, state(k)));
            }
        }
        match find_state(&db, &cands, &p) {
            Ok(k) => {
                rep.count("operations_lost", (done - k.min(done)) as u64);
                if k < done {
                    rep.count("lost_unsynchronized_operations", 1);
                }
            }
            Err(s) => {
                let k = find_state(&db, &(0..synced).map(|k| (k, state(k))).collect::<Vec<_>>(), &p);
                return bad(match k {
                    Ok(k) => format!("only the first {k} operations are there"),
                    Err(_) => format!("what is there is no state between the last sync and now: {}", s.chars().take(1500).collect::<String>()),
                });
            }
        }
        drop(db);
        let _ = std::fs::remove_dir_all(&img);
    }
    if seed % 5 == 0 {
        rep.sample(json!({"kind": kind, "seed": seed, "operations": ops.len(), "said": text.lines().rev().take(3).collect::<Vec<_>>()}));
    }
}
pub fn c32(cx: &Ctx, rep: &Report) {
    parallel(cx, 95, cx.threads, rep, |k, seed| match k % 6 {
        0 => threads(seed, rep),
        2 | 5 => series("image", seed, rep),
        _ => series("rocks", seed, rep),
    });
}
