//! Handles on the code under test, with every call made behind a panic boundary.
use crate::model::{EdgeOrder, Out};
use crate::types::*;
use indradb::{self as ind, Database, Datastore, MemoryDatastore, Transaction};
#[cfg(feature = "full")]
use indradb::RocksdbDatastore;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
/// What a datastore that panics on purpose says.
pub const MARK: &str = "the disk under the datastore is gone";

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    NotIndexed,
    BadQuery,
    UuidTaken,
    Unsupported,
    Other(String),
    Panic(String),
}
pub type R<T> = Result<T, E>;

thread_local! { pub static QUIET: Cell<bool> = const { Cell::new(false) }; }
thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST.try_with(|l| *l.borrow_mut() = format!("{} at {}", i.payload_as_str().unwrap_or("panic"), loc));
        let ours = i.payload_as_str().is_some_and(|t| t == MARK);
        if !ours && !QUIET.try_with(|q| q.get()).unwrap_or(false) {
            old(i)
        }
    }));
}
pub fn guard<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    match r {
        Ok(r) => r,
        Err(_) => Err(E::Panic(LAST.with(|l| l.borrow().clone()))),
    }
}
pub fn err(e: ind::Error) -> E {
    match e {
        ind::Error::NotIndexed => E::NotIndexed,
        ind::Error::OperationOnQuery => E::BadQuery,
        ind::Error::UuidTaken => E::UuidTaken,
        ind::Error::Unsupported => E::Unsupported,
        e => E::Other(e.to_string()),
    }
}
pub fn conv(o: &ind::QueryOutputValue) -> Out {
    let np = |ps: &Vec<ind::NamedProperty>| {
        let mut v: Vec<_> = ps.iter().map(|p| (text(&p.name), (*p.value).clone())).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    };
    match o {
        ind::QueryOutputValue::Vertices(v) => Out::V(v.iter().map(|v| (did(v.id), text(&v.t))).collect()),
        ind::QueryOutputValue::Edges(v) => Out::E(v.iter().map(ek).collect()),
        ind::QueryOutputValue::Count(n) => Out::C(*n),
        ind::QueryOutputValue::VertexProperties(v) => {
            Out::VP(v.iter().map(|p| ((did(p.vertex.id), text(&p.vertex.t)), np(&p.props))).collect())
        }
        ind::QueryOutputValue::EdgeProperties(v) => Out::EP(v.iter().map(|p| (ek(&p.edge), np(&p.props))).collect()),
    }
}

/// What can be observed below the query layer, through the public transaction trait.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct RawDump {
    pub vcount: u64,
    pub ecount: u64,
    pub vertices: Vec<(Id, String)>,
    pub edges: Vec<EK>,
    pub redges: Vec<EK>,
}

pub trait Db: Send + Sync {
    fn create_vertex(&self, id: Id, t: &str) -> R<bool>;
    fn create_vertex_t(&self, t: &str) -> R<Id>;
    fn create_edge(&self, e: &EK) -> R<bool>;
    fn get(&self, q: ind::Query) -> R<Vec<Out>>;
    fn delete(&self, q: ind::Query) -> R<()>;
    fn set(&self, q: ind::Query, name: &str, v: &serde_json::Value) -> R<()>;
    fn bulk(&self, items: &[Item]) -> R<()>;
    fn index(&self, name: &str) -> R<()>;
    fn sync(&self) -> R<()>;
    fn raw(&self) -> R<Option<RawDump>>;
    fn range_v(&self, from: Id) -> R<Option<Vec<Id>>>;
    fn range_e(&self, from: &EK, reversed: bool) -> R<Option<Vec<EK>>>;
    /// A call of the transaction trait itself, where there is one. `None`: not available here.
    fn txn(&self, _: &TCall) -> R<Option<String>> {
        Ok(None)
    }
}
/// Calls of the transaction trait with arguments of any kind.
#[derive(Clone, Debug, PartialEq)]
pub enum TCall {
    DelV(Vec<(Id, String)>),
    DelE(Vec<EK>),
    DelVP(Vec<(Id, String)>),
    DelEP(Vec<(EK, String)>),
    SetVP(Vec<Id>, String, serde_json::Value),
    SetEP(Vec<EK>, String, serde_json::Value),
    CreateV(Id, String),
    CreateE(EK),
    Bulk(Vec<Item>),
    Index(String),
    VProp(Id, String, String),
    VProps(Id, String),
    EProp(EK, String),
    EProps(EK),
    SpecV(Vec<Id>),
    SpecE(Vec<EK>),
    RangeV(Id),
    RangeE(EK),
    RangeR(EK),
    VHas(String),
    VVal(String, serde_json::Value),
    EHas(String),
    EVal(String, serde_json::Value),
    Sync,
}
fn tcall<'a, T: Transaction<'a>>(t: &'a mut T, c: &TCall) -> ind::Result<String> {
    // what a reader returns is copied before the transaction is used again
    let e = |x: &Vec<EK>| x.iter().map(edge).collect::<Vec<_>>();
    let u = |x: &Vec<Id>| x.iter().map(|i| uid(*i)).collect::<Vec<_>>();
    fn all<X: std::fmt::Debug>(i: ind::DynIter<'_, X>) -> ind::Result<String> {
        let v: Vec<X> = i.collect::<ind::Result<_>>()?;
        Ok(format!("{} {}", v.len(), v.iter().take(3).map(|x| format!("{x:?}")).collect::<String>()))
    }
    fn opt<X: std::fmt::Debug>(i: Option<ind::DynIter<'_, X>>) -> ind::Result<String> {
        i.map(all).unwrap_or(Ok("not indexed".into()))
    }
    match c {
        TCall::DelV(x) => t.delete_vertices(x.iter().map(|(i, t)| vertex(*i, t)).collect()).map(|_| String::new()),
        TCall::DelE(x) => t.delete_edges(e(x)).map(|_| String::new()),
        TCall::DelVP(x) => t.delete_vertex_properties(x.iter().map(|(i, n)| (uid(*i), ident(n))).collect()).map(|_| String::new()),
        TCall::DelEP(x) => t.delete_edge_properties(x.iter().map(|(i, n)| (edge(i), ident(n))).collect()).map(|_| String::new()),
        TCall::SetVP(x, n, v) => t.set_vertex_properties(u(x), ident(n), &js(v)).map(|_| String::new()),
        TCall::SetEP(x, n, v) => t.set_edge_properties(e(x), ident(n), &js(v)).map(|_| String::new()),
        TCall::CreateV(i, ty) => t.create_vertex(&vertex(*i, ty)).map(|b| b.to_string()),
        TCall::CreateE(x) => t.create_edge(&edge(x)).map(|b| b.to_string()),
        TCall::Bulk(x) => t.bulk_insert(x.iter().map(item).collect()).map(|_| String::new()),
        TCall::Index(n) => t.index_property(ident(n)).map(|_| String::new()),
        TCall::VProp(i, ty, n) => t.vertex_property(&vertex(*i, ty), ident(n)).map(|x| format!("{x:?}")),
        TCall::VProps(i, ty) => all(t.all_vertex_properties_for_vertex(&vertex(*i, ty))?),
        TCall::EProp(x, n) => t.edge_property(&edge(x), ident(n)).map(|x| format!("{x:?}")),
        TCall::EProps(x) => all(t.all_edge_properties_for_edge(&edge(x))?),
        TCall::SpecV(x) => all(t.specific_vertices(u(x))?),
        TCall::SpecE(x) => all(t.specific_edges(e(x))?),
        TCall::RangeV(i) => all(t.range_vertices(uid(*i))?),
        TCall::RangeE(x) => all(t.range_edges(edge(x))?),
        TCall::RangeR(x) => all(t.range_reversed_edges(edge(x))?),
        TCall::VHas(n) => opt(t.vertex_ids_with_property(ident(n))?),
        TCall::VVal(n, v) => opt(t.vertex_ids_with_property_value(ident(n), &js(v))?),
        TCall::EHas(n) => opt(t.edges_with_property(ident(n))?),
        TCall::EVal(n, v) => opt(t.edges_with_property_value(ident(n), &js(v))?),
        TCall::Sync => t.sync().map(|_| String::new()),
    }
}
impl<D: Datastore + Send + Sync> Db for Database<D> {
    fn create_vertex(&self, id: Id, t: &str) -> R<bool> {
        guard(|| Database::create_vertex(self, &vertex(id, t)).map_err(err))
    }
    fn create_vertex_t(&self, t: &str) -> R<Id> {
        guard(|| Database::create_vertex_from_type(self, ident(t)).map(did).map_err(err))
    }
    fn create_edge(&self, e: &EK) -> R<bool> {
        guard(|| Database::create_edge(self, &edge(e)).map_err(err))
    }
    fn get(&self, q: ind::Query) -> R<Vec<Out>> {
        guard(|| Database::get(self, q).map(|o| o.iter().map(conv).collect()).map_err(err))
    }
    fn delete(&self, q: ind::Query) -> R<()> {
        guard(|| Database::delete(self, q).map_err(err))
    }
    fn set(&self, q: ind::Query, name: &str, v: &serde_json::Value) -> R<()> {
        guard(|| Database::set_properties(self, q, ident(name), &js(v)).map_err(err))
    }
    fn bulk(&self, items: &[Item]) -> R<()> {
        guard(|| Database::bulk_insert(self, items.iter().map(item).collect()).map_err(err))
    }
    fn index(&self, name: &str) -> R<()> {
        guard(|| Database::index_property(self, ident(name)).map_err(err))
    }
    fn sync(&self) -> R<()> {
        guard(|| Database::sync(self).map_err(err))
    }
    fn raw(&self) -> R<Option<RawDump>> {
        guard(|| with_txn(&self.datastore, |txn| {
            Ok(Some(RawDump {
                vcount: txn.vertex_count(),
                ecount: txn.edge_count(),
                vertices: txn.all_vertices().map_err(err)?.map(|v| v.map(|v| (did(v.id), text(&v.t))).map_err(err)).collect::<R<_>>()?,
                edges: txn.all_edges().map_err(err)?.map(|e| e.map(|e| ek(&e)).map_err(err)).collect::<R<_>>()?,
                redges: txn
                    .range_reversed_edges(ind::Edge::new(uid(0), ind::Identifier::default(), uid(0)))
                    .map_err(err)?
                    .map(|e| e.map(|e| ek(&e)).map_err(err))
                    .collect::<R<_>>()?,
            }))
        }))
    }
    fn range_v(&self, from: Id) -> R<Option<Vec<Id>>> {
        guard(|| with_txn(&self.datastore, |txn| {
            Ok(Some(txn.range_vertices(uid(from)).map_err(err)?.map(|v| v.map(|v| did(v.id)).map_err(err)).collect::<R<_>>()?))
        }))
    }
    fn range_e(&self, from: &EK, reversed: bool) -> R<Option<Vec<EK>>> {
        guard(|| with_txn(&self.datastore, |txn| {
            let it = if reversed { txn.range_reversed_edges(edge(from)) } else { txn.range_edges(edge(from)) };
            Ok(Some(it.map_err(err)?.map(|e| e.map(|e| ek(&e)).map_err(err)).collect::<R<_>>()?))
        }))
    }
    fn txn(&self, c: &TCall) -> R<Option<String>> {
        guard(|| {
            let mut txn = self.datastore.transaction();
            let p: *mut D::Transaction<'_> = &mut txn;
            // `tcall` returns owned data only
            let r = tcall(unsafe { &mut *p }, c).map(Some).map_err(err);
            drop(txn);
            r
        })
    }
}
/// Runs `f` on a transaction; iterators borrowed from it must be consumed inside.
pub fn with_txn<'a, D: Datastore, T>(d: &'a D, f: impl FnOnce(&'a D::Transaction<'a>) -> T) -> T {
    let txn = d.transaction();
    let p: *const D::Transaction<'a> = &txn;
    // the reference does not outlive the call: T is built from owned data only
    let r = f(unsafe { &*p });
    drop(txn);
    r
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Mem,
    /// in-memory with an image path: reopen = sync + read
    MemImg,
    Rocks,
}
impl Kind {
    pub fn order(self) -> EdgeOrder {
        match self {
            Kind::Rocks => EdgeOrder::LenPrefixed,
            _ => EdgeOrder::Plain,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Kind::Mem => "memory",
            Kind::MemImg => "memory-image",
            Kind::Rocks => "rocksdb",
        }
    }
}
/// A local database that can be closed and reopened.
pub struct Local {
    pub kind: Kind,
    pub path: PathBuf,
    pub db: Option<Box<dyn Db>>,
    _dir: Option<tempfile::TempDir>,
}
pub fn scratch() -> tempfile::TempDir {
    let base = std::env::var("VH_SCRATCH").unwrap_or_else(|_| if Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { "/tmp".into() });
    tempfile::Builder::new().prefix("vh-").tempdir_in(base).or_else(|_| tempfile::Builder::new().prefix("vh-").tempdir()).expect("scratch dir")
}
#[cfg(feature = "full")]
pub fn rocks_opts(n: u8) -> indradb_rocks::Options {
    let mut o = RocksdbDatastore::get_options(match n % 4 {
        0 => None,
        1 => Some(1),
        2 => Some(64),
        _ => Some(-1),
    });
    match n % 5 {
        3 => {
            o.set_write_buffer_size(64 << 10);
            o.set_level_zero_file_num_compaction_trigger(2);
        }
        4 => {
            o.set_compression_type(indradb_rocks::DBCompressionType::None);
            o.set_num_levels(7);
        }
        _ => {}
    }
    o
}
#[cfg(feature = "full")]
pub mod indradb_rocks {
    pub use rocksdb::{DBCompressionType, Options};
}
#[cfg(feature = "full")]
pub fn open_rocks(p: &Path, n: u8) -> R<Database<RocksdbDatastore>> {
    guard(|| {
        if n == 0 {
            RocksdbDatastore::new_db(p).map_err(err)
        } else {
            RocksdbDatastore::new_db_with_options(p, &rocks_opts(n)).map_err(err)
        }
    })
}
impl Local {
    /// As `new`; calls of the datastore are delayed now and then.
    pub fn noisy(kind: Kind, level: u32) -> R<Local> {
        let mut l = Local::new(kind)?;
        if level > 0 {
            l.db = None;
            l.db = Some(match kind {
                #[cfg(feature = "full")]
                Kind::Rocks => Box::new(Database::new(crate::noisy::Noisy { inner: open_rocks(&l.path, 1)?.datastore, level })),
                _ => Box::new(Database::new(crate::noisy::Noisy { inner: MemoryDatastore::new_db().datastore, level })),
            });
        }
        Ok(l)
    }
    pub fn new(kind: Kind) -> R<Local> {
        match kind {
            Kind::Mem => Ok(Local { kind, path: PathBuf::new(), db: Some(Box::new(MemoryDatastore::new_db())), _dir: None }),
            Kind::MemImg => {
                let d = scratch();
                let path = d.path().join("image");
                Ok(Local { kind, db: Some(Box::new(MemoryDatastore::create_msgpack_db(&path))), path, _dir: Some(d) })
            }
            #[cfg(not(feature = "full"))]
            Kind::Rocks => unreachable!(),
            #[cfg(feature = "full")]
            Kind::Rocks => {
                let d = scratch();
                let path = d.path().join("db");
                let db = open_rocks(&path, 1)?;
                Ok(Local { kind, db: Some(Box::new(db)), path, _dir: Some(d) })
            }
        }
    }
    /// A database at a given place: created there, or the one that an earlier process left there.
    #[cfg(feature = "full")]
    pub fn at(kind: Kind, path: PathBuf, opt: u8, create: bool) -> R<Local> {
        let db: Box<dyn Db> = match kind {
            Kind::Mem => Box::new(MemoryDatastore::new_db()),
            Kind::MemImg if create => Box::new(MemoryDatastore::create_msgpack_db(&path)),
            Kind::MemImg => Box::new(guard(|| MemoryDatastore::read_msgpack_db(&path).map_err(|e| E::Other(format!("read image: {e}"))))?),
            Kind::Rocks => Box::new(open_rocks(&path, opt)?),
        };
        Ok(Local { kind, path, db: Some(db), _dir: None })
    }
    /// Takes over the directory, so that the handle can be moved out without removing it.
    pub fn keep(&mut self) -> Option<tempfile::TempDir> {
        self._dir.take()
    }
    pub fn d(&self) -> &dyn Db {
        &**self.db.as_ref().unwrap()
    }
    /// Close and open again (memory: sync first, then read the image). No-op for the unpersisted store.
    pub fn reopen(&mut self, n: u8) -> R<()> {
        match self.kind {
            Kind::Mem => Ok(()),
            Kind::MemImg => {
                self.d().sync()?;
                let p = self.path.clone();
                self.db = None;
                let db = guard(|| MemoryDatastore::read_msgpack_db(&p).map_err(|e| E::Other(format!("read image: {e}"))))?;
                self.db = Some(Box::new(db));
                Ok(())
            }
            #[cfg(not(feature = "full"))]
            Kind::Rocks => unreachable!("{n}"),
            #[cfg(feature = "full")]
            Kind::Rocks => {
                self.db = None;
                self.db = Some(Box::new(open_rocks(&self.path, n)?));
                Ok(())
            }
        }
    }
}
