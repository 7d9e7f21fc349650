//! C29: what is built is what was asked for. Queries through every constructor, option and extension method, the
//! value types, and the helpers that take outputs apart.
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use indradb::{self as ind, CountQueryExt, MemoryDatastore, Query, QueryExt, QueryOutputValue, ValidationError};
use serde_json::{json, Value};
use std::hash::{Hash, Hasher};
use std::str::FromStr;

/// Any query as the struct a user holds.
enum C {
    AllV(ind::AllVertexQuery),
    RangeV(ind::RangeVertexQuery),
    SpecV(ind::SpecificVertexQuery),
    VHas(ind::VertexWithPropertyPresenceQuery),
    VVal(ind::VertexWithPropertyValueQuery),
    AllE(ind::AllEdgeQuery),
    SpecE(ind::SpecificEdgeQuery),
    EHas(ind::EdgeWithPropertyPresenceQuery),
    EVal(ind::EdgeWithPropertyValueQuery),
    Pipe(ind::PipeQuery),
    Has(ind::PipeWithPropertyPresenceQuery),
    Val(ind::PipeWithPropertyValueQuery),
    Incl(ind::IncludeQuery),
    Props(ind::PipePropertyQuery),
    Count(ind::CountQuery),
}
macro_rules! each {
    ($c:expr, $x:ident => $e:expr, props $p:ident => $pe:expr, count $k:ident => $ke:expr) => {
        match $c {
            C::AllV($x) => $e,
            C::RangeV($x) => $e,
            C::SpecV($x) => $e,
            C::VHas($x) => $e,
            C::VVal($x) => $e,
            C::AllE($x) => $e,
            C::SpecE($x) => $e,
            C::EHas($x) => $e,
            C::EVal($x) => $e,
            C::Pipe($x) => $e,
            C::Has($x) => $e,
            C::Val($x) => $e,
            C::Incl($x) => $e,
            C::Props($p) => $pe,
            C::Count($k) => $ke,
        }
    };
}
impl C {
    fn q(self) -> Query {
        each!(self, x => x.into(), props x => x.into(), count x => x.into())
    }
}
type V<T> = Result<T, ValidationError>;
/// The extension methods where the type has them, the constructors where it has not (or half of the time).
fn dir_(d: Dir) -> ind::EdgeDirection {
    match d {
        Dir::Out => ind::EdgeDirection::Outbound,
        Dir::In => ind::EdgeDirection::Inbound,
    }
}
fn pipe(c: C, d: Dir, ext: bool) -> V<ind::PipeQuery> {
    if !ext {
        return ind::PipeQuery::new(Box::new(c.q()), dir_(d));
    }
    each!(c, x => if d == Dir::Out { x.outbound() } else { x.inbound() },
        props x => ind::PipeQuery::new(Box::new(x.into()), dir_(d)), count x => ind::PipeQuery::new(Box::new(x.into()), dir_(d)))
}
fn props(c: C, ext: bool) -> V<ind::PipePropertyQuery> {
    if !ext {
        return ind::PipePropertyQuery::new(Box::new(c.q()));
    }
    each!(c, x => x.properties(), props x => ind::PipePropertyQuery::new(Box::new(x.into())), count x => ind::PipePropertyQuery::new(Box::new(x.into())))
}
fn has(c: C, n: &str, y: bool, ext: bool) -> V<ind::PipeWithPropertyPresenceQuery> {
    let plain = |q: Query| ind::PipeWithPropertyPresenceQuery::new(Box::new(q), ident(n), y);
    if !ext {
        return plain(c.q());
    }
    each!(c, x => if y { x.with_property(ident(n)) } else { x.without_property(ident(n)) }, props x => plain(x.into()), count x => plain(x.into()))
}
fn val(c: C, n: &str, v: &Value, y: bool, ext: bool) -> V<ind::PipeWithPropertyValueQuery> {
    let plain = |q: Query| ind::PipeWithPropertyValueQuery::new(Box::new(q), ident(n), js(v), y);
    if !ext {
        return plain(c.q());
    }
    each!(c, x => if y { x.with_property_equal_to(ident(n), js(v)) } else { x.with_property_not_equal_to(ident(n), js(v)) }, props x => plain(x.into()), count x => plain(x.into()))
}
fn incl(c: C, ext: bool) -> ind::IncludeQuery {
    if !ext {
        return ind::IncludeQuery::new(Box::new(c.q()));
    }
    each!(c, x => x.include(), props x => ind::IncludeQuery::new(Box::new(x.into())), count x => ind::IncludeQuery::new(Box::new(x.into())))
}
fn count(c: C, ext: bool) -> V<ind::CountQuery> {
    if !ext {
        return ind::CountQuery::new(Box::new(c.q()));
    }
    each!(c, x => x.count(), props x => x.count(), count x => ind::CountQuery::new(Box::new(x.into())))
}
/// Builds it in some way: options in any order, with values that are replaced later.
fn make(q: &Q, p: &Pools, r: &mut Rng) -> V<C> {
    let ext = r.chance(2, 3);
    Ok(match q {
        Q::AllV => C::AllV(ind::AllVertexQuery),
        Q::AllE => C::AllE(ind::AllEdgeQuery),
        Q::RangeV { limit, t, start } => {
            let mut x = if r.chance(1, 2) { ind::RangeVertexQuery::new() } else { Default::default() };
            let mut steps: Vec<(u8, bool)> = vec![];
            if *limit != u32::MAX || r.chance(1, 3) {
                steps.push((0, true));
            }
            if t.is_some() {
                steps.push((1, true));
            }
            if start.is_some() {
                steps.push((2, true));
            }
            r.shuffle(&mut steps);
            let mut pre: Vec<(u8, bool)> = steps.iter().filter(|_| r.chance(1, 3)).map(|s| (s.0, false)).collect();
            pre.extend(steps);
            for (s, last) in pre {
                x = match s {
                    0 => x.limit(if last { *limit } else { p.limit(r) }),
                    1 => x.t(ident(&if last { t.clone().unwrap() } else { p.t(r) })),
                    _ => x.start_id(uid(if last { start.unwrap() } else { p.id(r) })),
                };
            }
            C::RangeV(x)
        }
        Q::SpecV(ids) if ids.len() == 1 && ext => C::SpecV(ind::SpecificVertexQuery::single(uid(ids[0]))),
        Q::SpecV(ids) => C::SpecV(ind::SpecificVertexQuery::new(ids.iter().map(|i| uid(*i)).collect())),
        Q::SpecE(es) if es.len() == 1 && ext => C::SpecE(ind::SpecificEdgeQuery::single(edge(&es[0]))),
        Q::SpecE(es) => C::SpecE(ind::SpecificEdgeQuery::new(es.iter().map(edge).collect())),
        Q::VHas(n) => C::VHas(ind::VertexWithPropertyPresenceQuery::new(ident(n))),
        Q::VVal(n, v) => C::VVal(ind::VertexWithPropertyValueQuery::new(ident(n), js(v))),
        Q::EHas(n) => C::EHas(ind::EdgeWithPropertyPresenceQuery::new(ident(n))),
        Q::EVal(n, v) => C::EVal(ind::EdgeWithPropertyValueQuery::new(ident(n), js(v))),
        Q::Pipe { inner, dir, limit, t } => {
            let mut x = pipe(make(inner, p, r)?, *dir, ext)?;
            let mut steps = vec![];
            if *limit != u32::MAX || r.chance(1, 3) {
                steps.push(0u8);
            }
            if t.is_some() {
                steps.push(1);
            }
            r.shuffle(&mut steps);
            let pre: Vec<u8> = steps.iter().filter(|_| r.chance(1, 3)).copied().collect();
            for s in pre {
                x = if s == 0 { x.limit(p.limit(r)) } else { x.t(ident(&p.t(r))) };
            }
            for s in steps {
                x = if s == 0 { x.limit(*limit) } else { x.t(ident(t.as_ref().unwrap())) };
            }
            C::Pipe(x)
        }
        Q::Props { inner, name } => {
            let mut x = props(make(inner, p, r)?, ext)?;
            if let Some(n) = name {
                if r.chance(1, 3) {
                    x = x.name(ident(&p.name(r)));
                }
                x = x.name(ident(n));
            }
            C::Props(x)
        }
        Q::Has { inner, name, exists } => C::Has(has(make(inner, p, r)?, name, *exists, ext)?),
        Q::Val { inner, name, value, equal } => C::Val(val(make(inner, p, r)?, name, value, *equal, ext)?),
        Q::Incl(q) => C::Incl(incl(make(q, p, r)?, ext)),
        Q::Count(q) => C::Count(count(make(q, p, r)?, ext)?),
    })
}
/// What a query says, field by field.
fn say(q: &Query) -> Q {
    let b = |q: &Query| Box::new(say(q));
    let d = |d: ind::EdgeDirection| match d {
        ind::EdgeDirection::Outbound => Dir::Out,
        ind::EdgeDirection::Inbound => Dir::In,
    };
    let o = |t: &Option<ind::Identifier>| t.as_ref().map(text);
    match q {
        Query::AllVertex => Q::AllV,
        Query::RangeVertex(q) => Q::RangeV { limit: q.limit, t: o(&q.t), start: q.start_id.map(did) },
        Query::SpecificVertex(q) => Q::SpecV(q.ids.iter().map(|i| did(*i)).collect()),
        Query::VertexWithPropertyPresence(q) => Q::VHas(text(&q.name)),
        Query::VertexWithPropertyValue(q) => Q::VVal(text(&q.name), (*q.value).clone()),
        Query::AllEdge => Q::AllE,
        Query::SpecificEdge(q) => Q::SpecE(q.edges.iter().map(ek).collect()),
        Query::EdgeWithPropertyPresence(q) => Q::EHas(text(&q.name)),
        Query::EdgeWithPropertyValue(q) => Q::EVal(text(&q.name), (*q.value).clone()),
        Query::Pipe(q) => Q::Pipe { inner: b(&q.inner), dir: d(q.direction), limit: q.limit, t: o(&q.t) },
        Query::PipeProperty(q) => Q::Props { inner: b(&q.inner), name: o(&q.name) },
        Query::PipeWithPropertyPresence(q) => Q::Has { inner: b(&q.inner), name: text(&q.name), exists: q.exists },
        Query::PipeWithPropertyValue(q) => Q::Val { inner: b(&q.inner), name: text(&q.name), value: (*q.value).clone(), equal: q.equal },
        Query::Include(q) => Q::Incl(b(&q.inner)),
        Query::Count(q) => Q::Count(b(&q.inner)),
    }
}
fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn extracts(o: &[QueryOutputValue]) -> Result<(), String> {
    use ind::util::*;
    let last = o.last();
    let w = |name: &str, got: Option<Out>, want: Option<Out>| {
        if got == want {
            Ok(())
        } else {
            Err(format!("{name} of {} gave {}", short(&o), short(&got)))
        }
    };
    let of = |k: u8| {
        last.filter(|l| {
            k == match l {
                QueryOutputValue::Vertices(_) => 0,
                QueryOutputValue::Edges(_) => 1,
                QueryOutputValue::Count(_) => 2,
                QueryOutputValue::VertexProperties(_) => 3,
                QueryOutputValue::EdgeProperties(_) => 4,
            }
        })
        .map(conv)
    };
    w("extract_vertices", extract_vertices(o.to_vec()).map(|v| conv(&QueryOutputValue::Vertices(v))), of(0))?;
    w("extract_edges", extract_edges(o.to_vec()).map(|v| conv(&QueryOutputValue::Edges(v))), of(1))?;
    w("extract_count", extract_count(o.to_vec()).map(Out::C), of(2))?;
    w("extract_vertex_properties", extract_vertex_properties(o.to_vec()).map(|v| conv(&QueryOutputValue::VertexProperties(v))), of(3))?;
    w("extract_edge_properties", extract_edge_properties(o.to_vec()).map(|v| conv(&QueryOutputValue::EdgeProperties(v))), of(4))
}
fn direction(s: &str) -> Result<(), String> {
    let want = match s {
        "outbound" => Some(ind::EdgeDirection::Outbound),
        "inbound" => Some(ind::EdgeDirection::Inbound),
        _ => None,
    };
    let got = ind::EdgeDirection::from_str(s);
    match (&got, &want) {
        (Ok(a), Some(b)) if a == b && String::from(*a) == s => Ok(()),
        (Err(ValidationError::InvalidValue), None) => Ok(()),
        _ => Err(format!("the direction {s:?} was read as {got:?}")),
    }
}
fn values(p: &Pools, r: &mut Rng) -> Result<(), String> {
    let (a, b) = (p.edge(r, None), p.edge(r, None));
    let (x, y) = (edge(&a), edge(&b));
    if (did(x.outbound_id), text(&x.t), did(x.inbound_id)) != (a.o, a.t.clone(), a.i) {
        return Err(format!("Edge::new({a:?}) holds {x:?}"));
    }
    let v = x.reversed();
    if ek(&v) != a.rev() || ek(&v.reversed()) != a {
        return Err(format!("{x:?} reversed is {v:?}"));
    }
    if (x == y) != (a == b) || (x == y && hash_of(&x) != hash_of(&y)) || x.cmp(&y) != a.cmp(&b) || x.partial_cmp(&y) != Some(a.cmp(&b)) {
        return Err(format!("{x:?} and {y:?} compare equal: {}, order {:?}, hashes {} {}", x == y, x.cmp(&y), hash_of(&x), hash_of(&y)));
    }
    let (i, j) = (p.id(r), p.id(r));
    let (s, t) = (p.t(r), p.t(r));
    let (m, n) = (vertex(i, &s), vertex(j, &t));
    if did(m.id) != i || text(&m.t) != s {
        return Err(format!("Vertex::with_id({i:x}, {s:?}) holds {m:?}"));
    }
    if (m == n) != (i == j) || (i == j && hash_of(&m) != hash_of(&n)) {
        return Err(format!("{m:?} and {n:?}: a vertex is what its id says, yet they compare {} with hashes {} {}", m == n, hash_of(&m), hash_of(&n)));
    }
    let (c, d) = (ind::Vertex::new(ident(&s)), ind::Vertex::new(ident(&s)));
    if c == d || text(&c.t) != s {
        return Err(format!("two new vertices of type {s:?}: {c:?}, {d:?}"));
    }
    // serialisation of the types that have it
    let e2: Result<ind::Edge, _> = serde_json::from_value(json!({"t": a.t, "inbound_id": uid(a.i).to_string(), "outbound_id": uid(a.o).to_string()}));
    if e2.as_ref().ok() != Some(&x) {
        return Err(format!("{a:?} read from JSON is {e2:?}"));
    }
    let w = serde_json::to_value(&x).map_err(|e| e.to_string())?;
    if w != json!({"t": a.t, "inbound_id": uid(a.i).to_string(), "outbound_id": uid(a.o).to_string()}) {
        return Err(format!("{x:?} written as JSON is {w}"));
    }
    let v = rand_value(r, 3);
    let j = js(&v);
    let forms = [
        ("new", Some(j.clone())),
        ("from", Some(ind::Json::from(v.clone()))),
        ("from Arc", Some(ind::Json::from(std::sync::Arc::new(v.clone())))),
        ("read", serde_json::from_value(v.clone()).ok()),
        ("parsed", ind::Json::from_str(&v.to_string()).ok()),
        ("written and read", serde_json::to_string(&j).ok().and_then(|t| serde_json::from_str(&t).ok())),
    ];
    let parsed: Option<Value> = serde_json::from_str(&v.to_string()).ok();
    for (k, (n, f)) in forms.iter().enumerate() {
        let want = if k < 4 { Some(&v) } else { parsed.as_ref() };
        if f.as_ref().map(|f| &**f) != want {
            return Err(format!("{v} as Json ({n}) is {f:?}"));
        }
    }
    if ind::Json::from_str("{\"a\":").is_ok() || ind::Json::from_str("").is_ok() || ind::Json::from_str("1 2").is_ok() {
        return Err("a text that is not JSON was read as Json".into());
    }
    let np = ind::NamedProperty::new(ident(&s), j.clone());
    let vp = ind::VertexProperties::new(m.clone(), vec![np.clone()]);
    let ep = ind::EdgeProperties::new(x.clone(), vec![np.clone()]);
    let (v1, e1) = (ind::VertexProperty::new(uid(i), j.clone()), ind::EdgeProperty::new(x.clone(), j.clone()));
    let good = text(&np.name) == s && same(&np.value, &v) && vp.vertex == m && vp.props == vec![np.clone()] && ek(&ep.edge) == a && ep.props == vec![np] && did(v1.id) == i && same(&v1.value, &v) && ek(&e1.edge) == a && same(&e1.value, &v);
    if !good {
        return Err(format!("properties are not what they were made of: {vp:?} {ep:?} {v1:?} {e1:?}"));
    }
    Ok(())
}
fn literals() -> Result<(), String> {
    let (k, n) = ("key", 7u8);
    let l = [
        (ind::ijson!(null), json!(null)),
        (ind::ijson!(true), json!(true)),
        (ind::ijson!(-3), json!(-3)),
        (ind::ijson!(18446744073709551615u64), json!(u64::MAX)),
        (ind::ijson!(1.5), json!(1.5)),
        (ind::ijson!("text"), json!("text")),
        (ind::ijson!([1, [2, null], {"a": n}]), json!([1, [2, null], {"a": 7}])),
        (ind::ijson!({k: [n, n + 1,], "b": {"c": {}},}), json!({"key": [7, 8], "b": {"c": {}}})),
    ];
    for (a, b) in &l {
        if **a != *b {
            return Err(format!("the literal of {b} is {a:?}"));
        }
    }
    Ok(())
}
fn one(seed: u64, rep: &Report) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let p = Pools::new(&mut r, 6, 3, 3, 6);
    let mut m = Model::new(EdgeOrder::Plain);
    let db = MemoryDatastore::new_db();
    let w = Weights { create_v: 10, create_vt: 0, create_e: 20, bulk: 2, set: 12, del_elems: 0, del_props: 0, index: 3, get: 0, sync: 0, reopen: 0, wild: 0, depth: 1 };
    for _ in 0..24 {
        let op = gen_op(&p, &mut r, &m, &w);
        step_db(&db, &mut m, &op, rep, false)?;
    }
    let mut prev: Option<(Q, Query)> = None;
    for _ in 0..60 {
        let q = if r.chance(1, 4) { p.q_wild(&mut r, &m, 4) } else { p.q_any(&mut r, &m, 5) };
        rep.eval(1);
        rep.distinct(&(q.shape(), m.v.len().min(3)));
        let b = match guard(|| Ok(make(&q, &p, &mut r).map(C::q))) {
            Err(e) => return Err(format!("building {q:?} failed with {e:?}")),
            Ok(Err(ValidationError::InnerQuery)) if !well_typed(&q) => {
                rep.count("refused", 1);
                continue;
            }
            Ok(Err(e)) => return Err(format!("building {q:?} was refused with {e:?}")),
            Ok(Ok(b)) => b,
        };
        if !well_typed(&q) {
            return Err(format!("building {q:?}, which cannot be answered, was not refused"));
        }
        rep.count("built", 1);
        if say(&b) != q {
            return Err(format!("asked for {q:?}, built {b:?}"));
        }
        if b.clone() != b || b != q.raw() {
            return Err(format!("{b:?} is not equal to its copy, or to {:?}", q.raw()));
        }
        if let Some((q0, b0)) = &prev {
            // equality of values is Json's
            let vals = q.shape().contains("val");
            if q0 != &q && *b0 == b && !vals {
                return Err(format!("{b0:?} equals {b:?}"));
            }
        }
        // and it means what it says
        let o = match guard(|| Ok(ind::Database::get(&db, b.clone()))) {
            Err(e) => return Err(format!("{q:?}: {e:?}")),
            Ok(Err(ind::Error::NotIndexed)) if m.eval(&q, None).is_err() => {
                rep.count("not_indexed", 1);
                prev = Some((q, b));
                continue;
            }
            Ok(Err(e)) => return Err(format!("{q:?} failed with {e:?}")),
            Ok(Ok(o)) => o,
        };
        let got: Vec<Out> = o.iter().map(conv).collect();
        let exp = m.eval(&q, Some(&got)).map_err(|e| format!("{q:?} was answered with {} instead of failing with {e:?}", short(&got)))?;
        if exp.len() != got.len() {
            return Err(format!("{q:?} gave {} outputs instead of {}", got.len(), exp.len()));
        }
        for (e, g) in exp.iter().zip(&got) {
            compare(e, g).map_err(|s| format!("{q:?}: {s}"))?;
        }
        extracts(&o)?;
        // an output that is not the last one is not looked at
        let mut o2 = o.clone();
        r.shuffle(&mut o2);
        extracts(&o2)?;
        rep.count("answers", 1);
        rep.count("extractions", 10);
        prev = Some((q, b));
    }
    extracts(&[])?;
    for _ in 0..20 {
        values(&p, &mut r)?;
        rep.eval(1);
        rep.count("values", 1);
        let mut s = ["outbound", "inbound", "Outbound", "", "out", "outbound ", "INBOUND", "in"][r.below(8)].to_string();
        if r.chance(1, 3) {
            s = rand_string(&mut r);
        }
        direction(&s)?;
    }
    literals()
}
pub fn c29(cx: &Ctx, rep: &Report) {
    super::pure::repeat(cx, 29, cx.dur(90), rep, |s| {
        crate::progress::doing(&format!("C29 seed {s}"));
        if let Err(e) = one(s, rep) {
            rep.violation("C29:built", e.clone(), format!("C29 seed {s}\n{e}"));
        }
        if s % 400 == 0 {
            rep.sample(json!({"seed": s}));
        }
    });
}
