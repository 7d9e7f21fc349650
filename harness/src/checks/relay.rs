//! One history carried by several processes in turn: what a process stored, any later process must read, find and
//! change the same way. (Anything in the stored data that depends on the process that wrote it shows here.)
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use std::io::Read;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Instant;

fn weights(index: bool) -> Weights {
    if index {
        Weights { create_v: 8, create_vt: 0, create_e: 10, bulk: 6, set: 24, del_elems: 5, del_props: 8, index: 4, get: 14, sync: 1, reopen: 1, wild: 0, depth: 2 }
    } else {
        Weights { create_v: 10, create_vt: 0, create_e: 14, bulk: 5, set: 16, del_elems: 6, del_props: 6, index: 2, get: 14, sync: 1, reopen: 1, wild: 0, depth: 3 }
    }
}
fn kind(s: &str) -> Kind {
    match s {
        "rocksdb" => Kind::Rocks,
        _ => Kind::MemImg,
    }
}
fn plan(seed: u64, k: Kind, index: bool, n: usize) -> (Pools, Vec<(Op, Model)>) {
    let mut r = Rng::new(seed);
    let p = if index { Pools::new(&mut r, 5, 2, 3, 7) } else { Pools::new(&mut r, 7, 3, 3, 5) };
    let ops = plan_ops(&p, &mut r, &Model::new(k.order()), &weights(index), n);
    (p, ops)
}
/// child relay <path> <kind> <index 0|1> <seed> <total> <from> <to> <opt> <first|later> <close|leave>
fn run(a: &[String]) -> Result<String, String> {
    let num = |k: usize| a[k].parse::<u64>().unwrap();
    let (path, k, index, seed, total, from, to, opt) = (PathBuf::from(&a[0]), kind(&a[1]), a[2] == "1", num(3), num(4) as usize, num(5) as usize, num(6) as usize, num(7) as u8);
    let (_, ops) = plan(seed, k, index, total);
    let to = to.min(ops.len());
    let mut m = if from == 0 { Model::new(k.order()) } else { ops[from.min(ops.len()) - 1].1.clone() };
    let mut l = Local::at(k, path, opt, a[8] == "first").map_err(|e| format!("open: {e:?}"))?;
    audit(l.d(), &m, true).map_err(|s| format!("on opening at operation {from}: {s}"))?;
    let rep = Report::default();
    for (j, (op, after)) in ops.iter().enumerate().take(to).skip(from) {
        step(&mut l, &mut m, op, &rep, j % 2 == 0).map_err(|s| format!("operation {j} {}: {s}", short(op)))?;
        if matches!(op, Op::Delete(_) | Op::Set(..)) && j % 3 == 0 {
            audit(l.d(), after, true).map_err(|s| format!("after operation {j} {}: {s}", short(op)))?;
        }
    }
    audit(l.d(), &m, true).map_err(|s| format!("before leaving at operation {to}: {s}"))?;
    if k == Kind::MemImg {
        l.d().sync().map_err(|e| format!("sync: {e:?}"))?;
    }
    if a[9] == "leave" {
        std::mem::forget(l);
    }
    Ok(format!("{} v {} e {} p {} i", m.v.len(), m.e.len(), m.vp.len() + m.ep.len(), m.ix.len()))
}
pub fn child(a: &[String]) -> i32 {
    let (s, c) = match run(a) {
        Ok(s) => (format!("ok {s}\n"), 0),
        Err(s) => (format!("BAD {s}\n"), 1),
    };
    use std::io::Write;
    let mut o = std::io::stdout();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
    unsafe { libc::_exit(c) }
}
fn one(prop: &str, k: Kind, index: bool, seed: u64, rep: &Report) {
    crate::progress::doing(&format!("{prop} relay seed {seed}"));
    let mut r = Rng::new(seed);
    let dir = scratch();
    let path = dir.path().join("data");
    let total = r.range(40, 160);
    let legs = r.range(2, 5);
    let mut at = 0;
    for leg in 0..legs {
        let to = if leg + 1 == legs { total } else { (at + r.range(5, 2 * total / legs)).min(total) };
        let args: Vec<String> = [
            "child".to_string(),
            "relay".into(),
            path.to_str().unwrap().into(),
            k.name().into(),
            (index as u8).to_string(),
            seed.to_string(),
            total.to_string(),
            at.to_string(),
            to.to_string(),
            r.below(5).to_string(),
            if leg == 0 { "first" } else { "later" }.into(),
            if r.chance(1, 3) { "leave" } else { "close" }.into(),
        ]
        .to_vec();
        let mut ch = Command::new(std::env::current_exe().unwrap()).args(&args).stdout(Stdio::piped()).stderr(Stdio::null()).env_remove("VH_PROGRESS").spawn().unwrap();
        let mut text = String::new();
        let _ = ch.stdout.take().unwrap().read_to_string(&mut text);
        let st = ch.wait().unwrap();
        if !text.starts_with("ok ") {
            let (_, ops) = plan(seed, k, index, total);
            let mut log = format!("history of {} seed {seed}; leg {} of {legs}: operations {at}..{to} in a process of its own: {text}{st}\narguments: {args:?}\n--- history ---\n", k.name(), leg + 1);
            for (j, (o, _)) in ops.iter().enumerate().take(to) {
                log.push_str(&format!("{j:4} {}\n", short(o)));
            }
            rep.violation(&format!("{prop}:{}:relay", k.name()), format!("[{}] process {} of {legs}, operations {at}..{to}: {} ({st})", k.name(), leg + 1, text.trim()), log);
            return;
        }
        rep.eval((to - at) as u64);
        rep.count("relay_processes", 1);
        rep.distinct(&("relay", text.clone(), k.name()));
        at = to;
        if leg == 1 && seed % 5 == 0 {
            rep.sample(serde_json::json!({"relay": k.name(), "seed": seed, "legs": legs, "leg": leg, "state": text.trim()}));
        }
    }
    rep.count("relays", 1);
}
pub fn campaign(cx: &Ctx, prop: &str, kinds: &[Kind], index: bool, percent: u64, rep: &Report) {
    let kinds: Vec<Kind> = kinds.iter().copied().filter(|k| *k != Kind::Mem).collect();
    let (t0, next) = (Instant::now(), AtomicUsize::new(0));
    std::thread::scope(|s| {
        for _ in 0..cx.threads {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if t0.elapsed() > cx.dur(percent) || rep.nviol() >= 6 {
                    return;
                }
                one(prop, kinds[k % kinds.len()], index, h64(&(cx.seed, "relay", prop, k)), rep);
            });
        }
    });
}
