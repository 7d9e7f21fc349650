//! Recording of concurrent histories and the search for a sequential order that explains them.
use crate::db::*;
use crate::engine::*;
use crate::model::*;
use crate::types::*;
use std::collections::HashSet;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum LR {
    Bool(bool),
    NewId(Id),
    Outs(Vec<Out>),
    Unit,
    Err(E),
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub thread: usize,
    pub op: Op,
    /// nanoseconds
    pub call: u64,
    /// None: cancelled or lost; it may have taken effect any time later, or never
    pub ret: Option<(u64, LR)>,
}
pub fn observe(d: &dyn Db, op: &Op) -> LR {
    let u = |r: R<()>| match r {
        Ok(()) => LR::Unit,
        Err(e) => LR::Err(e),
    };
    match op {
        Op::CreateV(id, t) => d.create_vertex(*id, t).map(LR::Bool).unwrap_or_else(LR::Err),
        Op::CreateVT(t) => d.create_vertex_t(t).map(LR::NewId).unwrap_or_else(LR::Err),
        Op::CreateE(e) => d.create_edge(e).map(LR::Bool).unwrap_or_else(LR::Err),
        Op::Bulk(items) => u(d.bulk(items)),
        Op::Set(q, n, v) => u(d.set(q.raw(), n, v)),
        Op::Delete(q) => u(d.delete(q.raw())),
        Op::Index(n) => u(d.index(n)),
        Op::Get(q) => d.get(q.raw()).map(LR::Outs).unwrap_or_else(LR::Err),
        Op::Sync => u(d.sync()),
        Op::Reopen(_) => LR::Unit,
    }
}
/// The state after `op` if `res` (None: unknown) is a possible answer in state `m`.
pub fn judge(m: &Model, op: &Op, res: Option<&LR>) -> Option<Model> {
    let mut n = m.clone();
    match op {
        Op::CreateV(id, t) => {
            let x = n.create_v(*id, t);
            matches!(res, None).then_some(()).or((res == Some(&LR::Bool(x))).then_some(()))?;
        }
        Op::CreateVT(t) => match res {
            Some(LR::NewId(id)) => {
                if !n.create_v(*id, t) {
                    return None;
                }
            }
            _ => return None,
        },
        Op::CreateE(e) => {
            let x = n.create_e(e);
            matches!(res, None).then_some(()).or((res == Some(&LR::Bool(x))).then_some(()))?;
        }
        Op::Bulk(items) => {
            if !n.bulk(items) || !matches!(res, None | Some(LR::Unit)) {
                return None;
            }
        }
        Op::Index(name) => {
            n.ix.insert(name.clone());
            matches!(res, None | Some(LR::Unit)).then_some(())?;
        }
        Op::Sync => {
            matches!(res, None | Some(LR::Unit)).then_some(())?;
        }
        Op::Get(q) => match res {
            None => {}
            Some(LR::Outs(got)) => {
                let exp = m.eval(q, Some(got)).ok()?;
                if exp.len() != got.len() || exp.iter().zip(got).any(|(e, g)| compare(e, g).is_err()) {
                    return None;
                }
            }
            Some(LR::Err(E::Panic(_))) => return None,
            Some(LR::Err(e)) => {
                if m.eval(q, None).is_ok() || !err_ok(e, m, q, false) {
                    return None;
                }
            }
            _ => return None,
        },
        Op::Delete(q) | Op::Set(q, _, _) => {
            let exp = m.eval(q, None).and_then(|mut v| {
                let last = v.pop().unwrap();
                match op {
                    Op::Delete(_) => n.apply_delete(&last),
                    Op::Set(_, nm, v) => n.apply_set(&last, nm, v),
                    _ => unreachable!(),
                }
            });
            match (exp, res) {
                (Ok(()), None | Some(LR::Unit)) => {}
                (Err(_), None) => return Some(m.clone()),
                (Err(_), Some(LR::Err(E::Panic(_)))) => return None,
                (Err(_), Some(LR::Err(e))) if err_ok(e, m, q, true) => return Some(m.clone()),
                _ => return None,
            }
        }
        Op::Reopen(_) => {}
    }
    Some(n)
}
fn err_ok(e: &E, m: &Model, q: &Q, write: bool) -> bool {
    match e {
        E::NotIndexed => m.possible_errors(q).contains(&MErr::NotIndexed),
        E::BadQuery => write || m.possible_errors(q).contains(&MErr::BadQuery),
        E::Other(_) => true,
        _ => false,
    }
}
pub enum Verdict {
    /// the order found
    Ok(Vec<usize>),
    /// how many operations the best attempt explained, and the ones it could not place next
    Bad(usize, Vec<usize>),
    Unknown,
}
/// Searches for a linearization. At most 128 events.
pub fn check(init: &Model, evs: &[Ev], max_nodes: usize) -> Verdict {
    assert!(evs.len() <= 128);
    let n = evs.len();
    let must: u128 = evs.iter().enumerate().filter(|(_, e)| e.ret.is_some()).fold(0, |a, (i, _)| a | 1 << i);
    let mut seen: HashSet<(u128, u64)> = HashSet::new();
    let mut best = (0usize, vec![]);
    let mut nodes = 0usize;
    // explicit stack of (done mask, model, next candidate list)
    struct F {
        done: u128,
        m: Model,
        cand: Vec<usize>,
        next: usize,
        by: usize,
    }
    let cands = |done: u128| -> Vec<usize> {
        let lim = (0..n).filter(|i| done & (1 << i) == 0).filter_map(|i| evs[i].ret.as_ref().map(|r| r.0)).min().unwrap_or(u64::MAX);
        let mut c: Vec<usize> = (0..n).filter(|i| done & (1 << i) == 0 && evs[*i].call <= lim).collect();
        // operations known to be complete first, in order of their return
        c.sort_by_key(|i| evs[*i].ret.as_ref().map(|r| r.0).unwrap_or(u64::MAX));
        c
    };
    if must == 0 {
        return Verdict::Ok(vec![]);
    }
    let mut stack = vec![F { done: 0, m: init.clone(), cand: cands(0), next: 0, by: usize::MAX }];
    while let Some(f) = stack.last_mut() {
        if f.next >= f.cand.len() {
            let d = (f.done & must).count_ones() as usize;
            if d >= best.0 {
                best = (d, f.cand.clone());
            }
            stack.pop();
            continue;
        }
        let i = f.cand[f.next];
        f.next += 1;
        nodes += 1;
        if nodes > max_nodes {
            return Verdict::Unknown;
        }
        let Some(m2) = judge(&f.m, &evs[i].op, evs[i].ret.as_ref().map(|r| &r.1)) else { continue };
        let done = f.done | 1 << i;
        if done & must == must {
            let mut order: Vec<usize> = stack.iter().skip(1).map(|f| f.by).collect();
            order.push(i);
            return Verdict::Ok(order);
        }
        if !seen.insert((done, model_hash(&m2))) {
            continue;
        }
        let cand = cands(done);
        stack.push(F { done, m: m2, cand, next: 0, by: i });
    }
    Verdict::Bad(best.0, best.1)
}
/// Writes whose outcome the specification leaves open (limits over unordered selections) cannot be judged.
pub fn determinate(q: &Q) -> bool {
    fn has_index(q: &Q) -> bool {
        matches!(q, Q::VHas(_) | Q::VVal(..) | Q::EHas(_) | Q::EVal(..)) || q.inner().is_some_and(has_index)
    }
    fn limited(q: &Q) -> bool {
        matches!(q, Q::Pipe { limit, .. } if *limit != u32::MAX) || q.inner().is_some_and(limited)
    }
    !(has_index(q) && limited(q))
}
pub fn nanos(t0: &Instant) -> u64 {
    t0.elapsed().as_nanos() as u64
}
pub fn describe(init: &Model, evs: &[Ev], best: usize, next: &[usize]) -> String {
    let mut s = format!("best attempt explains {best} operations, none of these fits next: {next:?}\ninitial state: {init:?}\n");
    let mut ix: Vec<usize> = (0..evs.len()).collect();
    ix.sort_by_key(|i| evs[*i].call);
    for i in ix {
        let e = &evs[i];
        s.push_str(&format!("#{i} t{} [{}..{}] {} -> {}\n", e.thread, e.call, e.ret.as_ref().map(|r| r.0.to_string()).unwrap_or("?".into()), short(&e.op), e.ret.as_ref().map(|r| short(&r.1)).unwrap_or("unknown".into())));
    }
    s
}
