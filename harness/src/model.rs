//! The reference property graph and its query evaluator: naive, full scans, no sharing with the code under test.
use crate::types::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EdgeOrder {
    /// by (outbound, type string, inbound)
    Plain,
    /// by (outbound, type length, type bytes, inbound)
    LenPrefixed,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub v: BTreeMap<Id, String>,
    pub e: BTreeSet<EK>,
    pub vp: BTreeMap<(Id, String), Value>,
    pub ep: BTreeMap<(EK, String), Value>,
    pub ix: BTreeSet<String>,
    pub order: EdgeOrder,
}
pub type VP = ((Id, String), Vec<(String, Value)>);
pub type EP = (EK, Vec<(String, Value)>);
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    V(Vec<(Id, String)>),
    E(Vec<EK>),
    VP(Vec<VP>),
    EP(Vec<EP>),
    C(u64),
}
impl Out {
    pub fn len(&self) -> usize {
        match self {
            Out::V(v) => v.len(),
            Out::E(v) => v.len(),
            Out::VP(v) => v.len(),
            Out::EP(v) => v.len(),
            Out::C(_) => 1,
        }
    }
    fn keys(&self) -> Vec<String> {
        fn pr(p: &[(String, Value)]) -> String {
            let mut v: Vec<String> = p.iter().map(|(n, v)| format!("{:?}={}", n, v)).collect();
            v.sort();
            v.join(";")
        }
        match self {
            Out::V(v) => v.iter().map(|(i, t)| format!("{:032x}:{:?}", i, t)).collect(),
            Out::E(v) => v.iter().map(|e| format!("{:032x}-{:?}-{:032x}", e.o, e.t, e.i)).collect(),
            Out::VP(v) => v.iter().map(|((i, t), p)| format!("{:032x}:{:?}:{}", i, t, pr(p))).collect(),
            Out::EP(v) => v.iter().map(|(e, p)| format!("{:032x}-{:?}-{:032x}:{}", e.o, e.t, e.i, pr(p))).collect(),
            Out::C(n) => vec![format!("#{}", n)],
        }
    }
    fn kind(&self) -> u8 {
        match self {
            Out::V(_) => 0,
            Out::E(_) => 1,
            Out::VP(_) => 2,
            Out::EP(_) => 3,
            Out::C(_) => 4,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cert {
    /// exactly this list
    Exact,
    /// exactly these elements, in unspecified order
    Perm,
    /// some sub-multiset (of the given size, if known)
    Sub(Option<usize>),
}
#[derive(Clone, Debug)]
pub struct Res {
    pub out: Out,
    pub c: Cert,
    /// for counts of uncertain lists: upper bound only
    pub upper: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MErr {
    NotIndexed,
    BadQuery,
}

pub fn compare(exp: &Res, got: &Out) -> Result<(), String> {
    if exp.out.kind() != got.kind() {
        return Err(format!("output kind differs: expected {:?}, got {:?}", exp.out, got));
    }
    if let (Out::C(a), Out::C(b)) = (&exp.out, got) {
        return if (exp.upper && b <= a) || (!exp.upper && a == b) {
            Ok(())
        } else {
            Err(format!("count: expected {}{}, got {}", if exp.upper { "<=" } else { "" }, a, b))
        };
    }
    let e = exp.out.keys();
    let g = got.keys();
    match exp.c {
        Cert::Exact => {
            if e == g {
                Ok(())
            } else {
                Err(diff("list", &e, &g))
            }
        }
        Cert::Perm => {
            let (mut e2, mut g2) = (e, g);
            e2.sort();
            g2.sort();
            if e2 == g2 {
                Ok(())
            } else {
                Err(diff("multiset", &e2, &g2))
            }
        }
        Cert::Sub(n) => {
            if let Some(n) = n {
                if g.len() != n {
                    return Err(format!("expected {} elements, got {}", n, g.len()));
                }
            }
            let mut m: BTreeMap<&String, i64> = BTreeMap::new();
            for x in &e {
                *m.entry(x).or_default() += 1;
            }
            for x in &g {
                let c = m.entry(x).or_default();
                *c -= 1;
                if *c < 0 {
                    return Err(format!("unexpected element {} (possible: {:?})", x, e));
                }
            }
            Ok(())
        }
    }
}
fn diff(what: &str, e: &[String], g: &[String]) -> String {
    let es: BTreeSet<&String> = e.iter().collect();
    let gs: BTreeSet<&String> = g.iter().collect();
    let miss: Vec<_> = es.difference(&gs).take(6).collect();
    let extra: Vec<_> = gs.difference(&es).take(6).collect();
    format!(
        "{} differs: expected {} elements, got {}; missing {:?}; unexpected {:?}; expected head {:?}; got head {:?}",
        what,
        e.len(),
        g.len(),
        miss,
        extra,
        &e[..e.len().min(6)],
        &g[..g.len().min(6)]
    )
}

impl Model {
    pub fn new(order: EdgeOrder) -> Model {
        Model {
            v: BTreeMap::new(),
            e: BTreeSet::new(),
            vp: BTreeMap::new(),
            ep: BTreeMap::new(),
            ix: BTreeSet::new(),
            order,
        }
    }
    pub fn sort_edges(&self, v: &mut Vec<EK>) {
        match self.order {
            EdgeOrder::Plain => v.sort(),
            EdgeOrder::LenPrefixed => v.sort_by(|a, b| {
                (a.o, a.t.len(), a.t.as_bytes(), a.i).cmp(&(b.o, b.t.len(), b.t.as_bytes(), b.i))
            }),
        }
    }
    pub fn edges_of(&self, id: Id, d: Dir) -> Vec<EK> {
        // sorted in traversal-key order (for inbound: key is the reversed edge)
        let mut v: Vec<EK> = match d {
            Dir::Out => self.e.range(EK { o: id, t: String::new(), i: 0 }..).take_while(|e| e.o == id).cloned().collect(),
            Dir::In => self.e.iter().filter(|e| e.i == id).map(|e| e.rev()).collect(),
        };
        self.sort_edges(&mut v);
        if d == Dir::In {
            v = v.iter().map(|e| e.rev()).collect();
        }
        v
    }
    pub fn all_edges(&self) -> Vec<EK> {
        let mut v: Vec<EK> = self.e.iter().cloned().collect();
        self.sort_edges(&mut v);
        v
    }
    pub fn vprops(&self, id: Id) -> Vec<(String, Value)> {
        self.vp.range((id, String::new())..).take_while(|((i, _), _)| *i == id).map(|((_, n), v)| (n.clone(), v.clone())).collect()
    }
    pub fn eprops(&self, e: &EK) -> Vec<(String, Value)> {
        self.ep.range((e.clone(), String::new())..).take_while(|((x, _), _)| x == e).map(|((_, n), v)| (n.clone(), v.clone())).collect()
    }

    // ---- mutations -----------------------------------------------------------------
    pub fn create_v(&mut self, id: Id, t: &str) -> bool {
        if self.v.contains_key(&id) {
            return false;
        }
        self.v.insert(id, t.to_string());
        true
    }
    pub fn create_e(&mut self, e: &EK) -> bool {
        if !self.v.contains_key(&e.o) || !self.v.contains_key(&e.i) {
            return false;
        }
        self.e.insert(e.clone());
        true
    }
    pub fn del_edge(&mut self, e: &EK) {
        self.e.remove(e);
        let ks: Vec<_> = self.eprops(e);
        for (n, _) in ks {
            self.ep.remove(&(e.clone(), n));
        }
    }
    pub fn del_vertex(&mut self, id: Id) {
        self.v.remove(&id);
        let ks: Vec<_> = self.vprops(id);
        for (n, _) in ks {
            self.vp.remove(&(id, n));
        }
        let es: Vec<_> = self.e.iter().filter(|e| e.o == id || e.i == id).cloned().collect();
        for e in es {
            self.del_edge(&e);
        }
    }
    /// Bulk insertion in order. Items whose owners do not exist are outside the specified domain; `false` if any.
    pub fn bulk(&mut self, items: &[Item]) -> bool {
        let mut ok = true;
        for it in items {
            match it {
                Item::V(id, t) => {
                    self.create_v(*id, t);
                }
                Item::E(e) => {
                    if !self.create_e(e) {
                        ok = false;
                    }
                }
                Item::VP(id, n, v) => {
                    if self.v.contains_key(id) {
                        self.vp.insert((*id, n.clone()), v.clone());
                    } else {
                        ok = false;
                    }
                }
                Item::EP(e, n, v) => {
                    if self.e.contains(e) {
                        self.ep.insert((e.clone(), n.clone()), v.clone());
                    } else {
                        ok = false;
                    }
                }
            }
        }
        ok
    }
    pub fn apply_delete(&mut self, last: &Res) -> Result<(), MErr> {
        match &last.out {
            Out::V(v) => {
                for (id, _) in v.clone() {
                    self.del_vertex(id)
                }
            }
            Out::E(v) => {
                for e in v.clone() {
                    self.del_edge(&e)
                }
            }
            Out::VP(v) => {
                for ((id, _), ps) in v {
                    for (n, _) in ps {
                        self.vp.remove(&(*id, n.clone()));
                    }
                }
            }
            Out::EP(v) => {
                for (e, ps) in v {
                    for (n, _) in ps {
                        self.ep.remove(&(e.clone(), n.clone()));
                    }
                }
            }
            Out::C(_) => return Err(MErr::BadQuery),
        }
        Ok(())
    }
    pub fn apply_set(&mut self, last: &Res, name: &str, value: &Value) -> Result<(), MErr> {
        match &last.out {
            Out::V(v) => {
                for (id, _) in v {
                    self.vp.insert((*id, name.to_string()), value.clone());
                }
            }
            Out::E(v) => {
                for e in v {
                    self.ep.insert((e.clone(), name.to_string()), value.clone());
                }
            }
            _ => return Err(MErr::BadQuery),
        }
        Ok(())
    }

    // ---- queries -------------------------------------------------------------------
    /// Evaluates a query. `hints` are the outputs the system actually produced: where the specification leaves an
    /// order open and the system exposed its choice through an include, later steps are judged from that choice.
    pub fn eval(&self, q: &Q, hints: Option<&[Out]>) -> Result<Vec<Res>, MErr> {
        let mut outs = Vec::new();
        self.ev(q, hints, &mut outs)?;
        Ok(outs)
    }
    /// All error kinds any evaluation order of this query could meet first.
    pub fn possible_errors(&self, q: &Q) -> BTreeSet<MErr> {
        let mut s = BTreeSet::new();
        let mut cur = Some(q);
        while let Some(x) = cur {
            if let Q::VHas(n) | Q::VVal(n, _) | Q::EHas(n) | Q::EVal(n, _) = x {
                if !self.ix.contains(n) {
                    s.insert(MErr::NotIndexed);
                }
            }
            if let Q::Has { name, .. } | Q::Val { name, .. } = x {
                if !self.ix.contains(name) {
                    s.insert(MErr::NotIndexed);
                }
            }
            if !well_typed(x) {
                s.insert(MErr::BadQuery);
            }
            cur = x.inner();
        }
        s
    }
    fn ev(&self, q: &Q, hints: Option<&[Out]>, outs: &mut Vec<Res>) -> Result<(), MErr> {
        let exact = |out| Res { out, c: Cert::Exact, upper: false };
        let r = match q {
            Q::AllV => exact(Out::V(self.v.iter().map(|(i, t)| (*i, t.clone())).collect())),
            Q::RangeV { limit, t, start } => exact(Out::V(
                self.v
                    .iter()
                    .filter(|(i, vt)| start.map_or(true, |s| **i >= s) && t.as_ref().map_or(true, |t| t == *vt))
                    .take(*limit as usize)
                    .map(|(i, t)| (*i, t.clone()))
                    .collect(),
            )),
            Q::SpecV(ids) => exact(Out::V(ids.iter().filter_map(|i| self.v.get(i).map(|t| (*i, t.clone()))).collect())),
            Q::AllE => exact(Out::E(self.all_edges())),
            Q::SpecE(es) => exact(Out::E(es.iter().filter(|e| self.e.contains(e)).cloned().collect())),
            Q::VHas(n) => {
                self.need_ix(n)?;
                Res {
                    out: Out::V(self.v.iter().filter(|(i, _)| self.vp.contains_key(&(**i, n.clone()))).map(|(i, t)| (*i, t.clone())).collect()),
                    c: Cert::Perm,
                    upper: false,
                }
            }
            Q::VVal(n, val) => {
                self.need_ix(n)?;
                Res {
                    out: Out::V(self.v.iter().filter(|(i, _)| self.vp.get(&(**i, n.clone())).is_some_and(|x| same(x, val))).map(|(i, t)| (*i, t.clone())).collect()),
                    c: Cert::Perm,
                    upper: false,
                }
            }
            Q::EHas(n) => {
                self.need_ix(n)?;
                Res {
                    out: Out::E(self.e.iter().filter(|e| self.ep.contains_key(&((*e).clone(), n.clone()))).cloned().collect()),
                    c: Cert::Perm,
                    upper: false,
                }
            }
            Q::EVal(n, val) => {
                self.need_ix(n)?;
                Res {
                    out: Out::E(self.e.iter().filter(|e| self.ep.get(&((*e).clone(), n.clone())).is_some_and(|x| same(x, val))).cloned().collect()),
                    c: Cert::Perm,
                    upper: false,
                }
            }
            Q::Pipe { inner, dir, limit, t } => {
                let p = self.piped(inner, hints, outs)?;
                let limit = *limit as usize;
                let full = match &p.out {
                    Out::V(vs) => {
                        let mut es = Vec::new();
                        for (id, _) in vs {
                            es.extend(self.edges_of(*id, *dir).into_iter().filter(|e| t.as_ref().map_or(true, |t| *t == e.t)));
                        }
                        Out::E(es)
                    }
                    Out::E(es) => Out::V(
                        es.iter()
                            .map(|e| if *dir == Dir::Out { e.o } else { e.i })
                            .filter_map(|i| self.v.get(&i).map(|vt| (i, vt.clone())))
                            .filter(|(_, vt)| t.as_ref().map_or(true, |t| t == vt))
                            .collect(),
                    ),
                    _ => return Err(MErr::BadQuery),
                };
                let n = full.len();
                let r = match p.c {
                    Cert::Exact => {
                        let out = match full {
                            Out::V(mut v) => {
                                v.truncate(limit);
                                Out::V(v)
                            }
                            Out::E(mut v) => {
                                v.truncate(limit);
                                Out::E(v)
                            }
                            o => o,
                        };
                        exact(out)
                    }
                    Cert::Perm if limit >= n => Res { out: full, c: Cert::Perm, upper: false },
                    Cert::Perm => Res { out: full, c: Cert::Sub(Some(limit)), upper: false },
                    Cert::Sub(_) => Res { out: full, c: Cert::Sub(None), upper: false },
                };
                self.keep(inner, p, outs);
                r
            }
            Q::Props { inner, name } => {
                let p = self.piped(inner, hints, outs)?;
                let out = match &p.out {
                    Out::V(vs) => Out::VP(
                        vs.iter()
                            .filter_map(|(id, t)| {
                                let ps: Vec<_> = self.vprops(*id).into_iter().filter(|(n, _)| name.as_ref().map_or(true, |x| x == n)).collect();
                                if ps.is_empty() {
                                    None
                                } else {
                                    Some(((*id, t.clone()), ps))
                                }
                            })
                            .collect(),
                    ),
                    Out::E(es) => Out::EP(
                        es.iter()
                            .filter_map(|e| {
                                let ps: Vec<_> = self.eprops(e).into_iter().filter(|(n, _)| name.as_ref().map_or(true, |x| x == n)).collect();
                                if ps.is_empty() {
                                    None
                                } else {
                                    Some((e.clone(), ps))
                                }
                            })
                            .collect(),
                    ),
                    _ => return Err(MErr::BadQuery),
                };
                let c = weaken(p.c);
                self.keep(inner, p, outs);
                Res { out, c, upper: false }
            }
            Q::Has { inner, name, exists } => {
                let p = self.piped(inner, hints, outs)?;
                let out = match &p.out {
                    Out::V(vs) => {
                        self.need_ix(name)?;
                        Out::V(vs.iter().filter(|(i, _)| self.vp.contains_key(&(*i, name.clone())) == *exists).cloned().collect())
                    }
                    Out::E(es) => {
                        self.need_ix(name)?;
                        Out::E(es.iter().filter(|e| self.ep.contains_key(&((*e).clone(), name.clone())) == *exists).cloned().collect())
                    }
                    _ => return Err(MErr::BadQuery),
                };
                let c = weaken(p.c);
                self.keep(inner, p, outs);
                Res { out, c, upper: false }
            }
            Q::Val { inner, name, value, equal } => {
                let p = self.piped(inner, hints, outs)?;
                let out = match &p.out {
                    Out::V(vs) => {
                        self.need_ix(name)?;
                        Out::V(vs.iter().filter(|(i, _)| (self.vp.get(&(*i, name.clone())).is_some_and(|x| same(x, value))) == *equal).cloned().collect())
                    }
                    Out::E(es) => {
                        self.need_ix(name)?;
                        Out::E(es.iter().filter(|e| (self.ep.get(&((*e).clone(), name.clone())).is_some_and(|x| same(x, value))) == *equal).cloned().collect())
                    }
                    _ => return Err(MErr::BadQuery),
                };
                let c = weaken(p.c);
                self.keep(inner, p, outs);
                Res { out, c, upper: false }
            }
            Q::Incl(inner) => {
                self.ev(inner, hints, outs)?;
                outs.pop().unwrap()
            }
            Q::Count(inner) => {
                let p = self.piped(inner, hints, outs)?;
                if let Out::C(_) = p.out {
                    return Err(MErr::BadQuery);
                }
                let (n, upper) = match p.c {
                    Cert::Sub(Some(n)) => (n, false),
                    Cert::Sub(None) => (p.out.len(), true),
                    _ => (p.out.len(), false),
                };
                self.keep(inner, p, outs);
                Res { out: Out::C(n as u64), c: Cert::Exact, upper }
            }
        };
        outs.push(r);
        Ok(())
    }
    fn need_ix(&self, n: &str) -> Result<(), MErr> {
        if self.ix.contains(n) {
            Ok(())
        } else {
            Err(MErr::NotIndexed)
        }
    }
    fn piped(&self, inner: &Q, hints: Option<&[Out]>, outs: &mut Vec<Res>) -> Result<Res, MErr> {
        self.ev(inner, hints, outs)?;
        let mut r = outs.pop().unwrap();
        if let (Q::Incl(_), Some(h)) = (inner, hints) {
            if r.c != Cert::Exact {
                if let Some(h) = h.get(outs.len()) {
                    if compare(&r, h).is_ok() {
                        r = Res { out: h.clone(), c: Cert::Exact, upper: false };
                    }
                }
            }
        }
        Ok(r)
    }
    fn keep(&self, inner: &Q, p: Res, outs: &mut Vec<Res>) {
        if let Q::Incl(_) = inner {
            outs.push(p);
        }
    }
}
/// JSON identity: same structure and same numbers in the same representation (3 and 3.0 differ, as do 0.0 and -0.0).
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x == y && (!x.is_f64() || x.as_f64().map(f64::to_bits) == y.as_f64().map(f64::to_bits)),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && same(p, q)),
        _ => a == b,
    }
}
fn weaken(c: Cert) -> Cert {
    match c {
        Cert::Sub(_) => Cert::Sub(None),
        c => c,
    }
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Ty {
    V,
    E,
    P,
    C,
    Bad,
}
pub fn ty(q: &Q) -> Ty {
    match q {
        Q::AllV | Q::RangeV { .. } | Q::SpecV(_) | Q::VHas(_) | Q::VVal(..) => Ty::V,
        Q::AllE | Q::SpecE(_) | Q::EHas(_) | Q::EVal(..) => Ty::E,
        Q::Pipe { inner, .. } => match ty(inner) {
            Ty::V => Ty::E,
            Ty::E => Ty::V,
            _ => Ty::Bad,
        },
        Q::Props { inner, .. } => match ty(inner) {
            Ty::V | Ty::E => Ty::P,
            _ => Ty::Bad,
        },
        Q::Has { inner, .. } | Q::Val { inner, .. } => match ty(inner) {
            t @ (Ty::V | Ty::E) => t,
            _ => Ty::Bad,
        },
        Q::Incl(q) => ty(q),
        Q::Count(q) => match ty(q) {
            Ty::V | Ty::E | Ty::P => Ty::C,
            _ => Ty::Bad,
        },
    }
}
pub fn well_typed(q: &Q) -> bool {
    ty(q) != Ty::Bad
}
