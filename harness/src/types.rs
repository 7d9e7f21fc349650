//! The harness's own vocabulary (independent of the code under test) and its conversion to indradb types.
use indradb::{self as ind, Identifier, Json};
use serde_json::Value;
use uuid::Uuid;

pub type Id = u128;
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct EK {
    pub o: Id,
    pub t: String,
    pub i: Id,
}
impl EK {
    pub fn new(o: Id, t: &str, i: Id) -> EK {
        EK { o, t: t.to_string(), i }
    }
    pub fn rev(&self) -> EK {
        EK { o: self.i, t: self.t.clone(), i: self.o }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Dir {
    Out,
    In,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Q {
    AllV,
    RangeV { limit: u32, t: Option<String>, start: Option<Id> },
    SpecV(Vec<Id>),
    VHas(String),
    VVal(String, Value),
    AllE,
    SpecE(Vec<EK>),
    EHas(String),
    EVal(String, Value),
    Pipe { inner: Box<Q>, dir: Dir, limit: u32, t: Option<String> },
    Props { inner: Box<Q>, name: Option<String> },
    Has { inner: Box<Q>, name: String, exists: bool },
    Val { inner: Box<Q>, name: String, value: Value, equal: bool },
    Incl(Box<Q>),
    Count(Box<Q>),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Item {
    V(Id, String),
    E(EK),
    VP(Id, String, Value),
    EP(EK, String, Value),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    CreateV(Id, String),
    CreateVT(String),
    CreateE(EK),
    Bulk(Vec<Item>),
    Set(Q, String, Value),
    Delete(Q),
    Index(String),
    Get(Q),
    Sync,
    Reopen(u8),
}

pub fn uid(i: Id) -> Uuid {
    Uuid::from_bytes(i.to_be_bytes())
}
pub fn did(u: Uuid) -> Id {
    u128::from_be_bytes(*u.as_bytes())
}
pub fn ident(s: &str) -> Identifier {
    match Identifier::new(s) {
        Ok(i) => i,
        // generators only produce valid identifiers; a rejection here is reported by C10, elsewhere we go on
        Err(_) => unsafe { Identifier::new_unchecked(s) },
    }
}
pub fn js(v: &Value) -> Json {
    Json::new(v.clone())
}
pub fn edge(e: &EK) -> ind::Edge {
    ind::Edge::new(uid(e.o), ident(&e.t), uid(e.i))
}
/// How many times it did.
pub static BAD_TEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// The text of an identifier the library handed out. That it is text is what its unsafe constructors promise.
pub fn text(i: &Identifier) -> String {
    let s: &str = i.as_str();
    // asked of the bytes, so that nothing is taken for granted
    let b = std::hint::black_box(s.as_bytes());
    if std::str::from_utf8(b).is_err() {
        BAD_TEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        panic!("the library yielded an identifier that is not valid UTF-8: {b:?}");
    }
    s.to_string()
}
pub fn ek(e: &ind::Edge) -> EK {
    EK { o: did(e.outbound_id), t: text(&e.t), i: did(e.inbound_id) }
}
pub fn vertex(id: Id, t: &str) -> ind::Vertex {
    ind::Vertex::with_id(uid(id), ident(t))
}
pub fn item(i: &Item) -> ind::BulkInsertItem {
    match i {
        Item::V(id, t) => ind::BulkInsertItem::Vertex(vertex(*id, t)),
        Item::E(e) => ind::BulkInsertItem::Edge(edge(e)),
        Item::VP(id, n, v) => ind::BulkInsertItem::VertexProperty(uid(*id), ident(n), js(v)),
        Item::EP(e, n, v) => ind::BulkInsertItem::EdgeProperty(edge(e), ident(n), js(v)),
    }
}
pub fn dir(d: Dir) -> ind::EdgeDirection {
    match d {
        Dir::Out => ind::EdgeDirection::Outbound,
        Dir::In => ind::EdgeDirection::Inbound,
    }
}

impl Q {
    pub fn inner(&self) -> Option<&Q> {
        match self {
            Q::Pipe { inner, .. } | Q::Props { inner, .. } | Q::Has { inner, .. } | Q::Val { inner, .. } => Some(inner),
            Q::Incl(q) | Q::Count(q) => Some(q),
            _ => None,
        }
    }
    pub fn depth(&self) -> usize {
        1 + self.inner().map(|q| q.depth()).unwrap_or(0)
    }
    pub fn shape(&self) -> String {
        let me = match self {
            Q::AllV => "allv".into(),
            Q::RangeV { limit, t, start } => format!("rangev{}{}{}", lim(*limit), t.is_some() as u8, start.is_some() as u8),
            Q::SpecV(_) => "specv".into(),
            Q::VHas(_) => "vhas".into(),
            Q::VVal(..) => "vval".into(),
            Q::AllE => "alle".into(),
            Q::SpecE(_) => "spece".into(),
            Q::EHas(_) => "ehas".into(),
            Q::EVal(..) => "eval".into(),
            Q::Pipe { dir, limit, t, .. } => format!("pipe{:?}{}{}", dir, lim(*limit), t.is_some() as u8),
            Q::Props { name, .. } => format!("props{}", name.is_some() as u8),
            Q::Has { exists, .. } => format!("has{}", *exists as u8),
            Q::Val { equal, .. } => format!("val{}", *equal as u8),
            Q::Incl(_) => "incl".into(),
            Q::Count(_) => "count".into(),
        };
        match self.inner() {
            Some(i) => format!("{}.{}", i.shape(), me),
            None => me,
        }
    }
    /// Raw conversion: builds the query structs directly, with no builder-side validation.
    pub fn raw(&self) -> ind::Query {
        match self {
            Q::AllV => ind::Query::AllVertex,
            Q::RangeV { limit, t, start } => ind::Query::RangeVertex(ind::RangeVertexQuery {
                limit: *limit,
                t: t.as_ref().map(|t| ident(t)),
                start_id: start.map(uid),
            }),
            Q::SpecV(ids) => ind::Query::SpecificVertex(ind::SpecificVertexQuery::new(ids.iter().map(|i| uid(*i)).collect())),
            Q::VHas(n) => ind::Query::VertexWithPropertyPresence(ind::VertexWithPropertyPresenceQuery::new(ident(n))),
            Q::VVal(n, v) => ind::Query::VertexWithPropertyValue(ind::VertexWithPropertyValueQuery::new(ident(n), js(v))),
            Q::AllE => ind::Query::AllEdge,
            Q::SpecE(es) => ind::Query::SpecificEdge(ind::SpecificEdgeQuery::new(es.iter().map(edge).collect())),
            Q::EHas(n) => ind::Query::EdgeWithPropertyPresence(ind::EdgeWithPropertyPresenceQuery::new(ident(n))),
            Q::EVal(n, v) => ind::Query::EdgeWithPropertyValue(ind::EdgeWithPropertyValueQuery::new(ident(n), js(v))),
            Q::Pipe { inner, dir: d, limit, t } => ind::Query::Pipe(ind::PipeQuery {
                inner: Box::new(inner.raw()),
                direction: dir(*d),
                limit: *limit,
                t: t.as_ref().map(|t| ident(t)),
            }),
            Q::Props { inner, name } => ind::Query::PipeProperty(ind::PipePropertyQuery {
                inner: Box::new(inner.raw()),
                name: name.as_ref().map(|n| ident(n)),
            }),
            Q::Has { inner, name, exists } => ind::Query::PipeWithPropertyPresence(ind::PipeWithPropertyPresenceQuery {
                inner: Box::new(inner.raw()),
                name: ident(name),
                exists: *exists,
            }),
            Q::Val { inner, name, value, equal } => ind::Query::PipeWithPropertyValue(ind::PipeWithPropertyValueQuery {
                inner: Box::new(inner.raw()),
                name: ident(name),
                value: js(value),
                equal: *equal,
            }),
            Q::Incl(q) => ind::Query::Include(ind::IncludeQuery { inner: Box::new(q.raw()) }),
            Q::Count(q) => ind::Query::Count(ind::CountQuery { inner: Box::new(q.raw()) }),
        }
    }
    /// Builder conversion: uses the public fluent API (extension traits) the way a user would.
    pub fn built(&self) -> Result<ind::Query, ind::ValidationError> {
        use ind::{CountQueryExt, QueryExt};
        struct W(ind::Query);
        #[allow(clippy::from_over_into)]
        impl Into<ind::Query> for W {
            fn into(self) -> ind::Query {
                self.0
            }
        }
        impl QueryExt for W {}
        impl CountQueryExt for W {}
        Ok(match self {
            Q::AllV => ind::AllVertexQuery.into(),
            Q::RangeV { limit, t, start } => {
                let mut q = ind::RangeVertexQuery::new();
                if *limit != u32::MAX {
                    q = q.limit(*limit);
                }
                if let Some(t) = t {
                    q = q.t(ident(t));
                }
                if let Some(s) = start {
                    q = q.start_id(uid(*s));
                }
                q.into()
            }
            Q::SpecV(ids) if ids.len() == 1 => ind::SpecificVertexQuery::single(uid(ids[0])).into(),
            Q::SpecV(ids) => ind::SpecificVertexQuery::new(ids.iter().map(|i| uid(*i)).collect()).into(),
            Q::AllE => ind::AllEdgeQuery.into(),
            Q::SpecE(es) if es.len() == 1 => ind::SpecificEdgeQuery::single(edge(&es[0])).into(),
            Q::SpecE(es) => ind::SpecificEdgeQuery::new(es.iter().map(edge).collect()).into(),
            Q::VHas(_) | Q::VVal(..) | Q::EHas(_) | Q::EVal(..) => self.raw(),
            Q::Pipe { inner, dir, limit, t } => {
                let w = W(inner.built()?);
                let mut q = match dir {
                    Dir::Out => w.outbound()?,
                    Dir::In => w.inbound()?,
                };
                if let Some(t) = t {
                    q = q.t(ident(t));
                }
                if *limit != u32::MAX {
                    q = q.limit(*limit);
                }
                q.into()
            }
            Q::Props { inner, name } => {
                let mut q = W(inner.built()?).properties()?;
                if let Some(n) = name {
                    q = q.name(ident(n));
                }
                q.into()
            }
            Q::Has { inner, name, exists } => {
                let w = W(inner.built()?);
                if *exists { w.with_property(ident(name))? } else { w.without_property(ident(name))? }.into()
            }
            Q::Val { inner, name, value, equal } => {
                let w = W(inner.built()?);
                if *equal {
                    w.with_property_equal_to(ident(name), js(value))?
                } else {
                    w.with_property_not_equal_to(ident(name), js(value))?
                }
                .into()
            }
            Q::Incl(q) => W(q.built()?).include().into(),
            Q::Count(q) => W(q.built()?).count()?.into(),
        })
    }
}
fn lim(l: u32) -> &'static str {
    match l {
        0 => "L0",
        u32::MAX => "",
        1 => "L1",
        _ => "L",
    }
}
