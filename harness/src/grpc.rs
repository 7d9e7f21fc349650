//! An in-process server on the loopback interface and the gRPC client as a `Db`.
use crate::db::*;
use crate::model::*;
use crate::types::*;
use indradb::{self as ind, Database, Datastore};
use indradb_proto::{Client, ClientError};
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::Duration;
use tokio::runtime::Runtime;

pub fn rt() -> &'static Runtime {
    static R: std::sync::OnceLock<Runtime> = std::sync::OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(6).thread_stack_size(16 << 20).enable_all().build().unwrap())
}
/// A second runtime, so that the server's threads are its own.
pub fn srt() -> &'static Runtime {
    static R: std::sync::OnceLock<Runtime> = std::sync::OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(6).thread_stack_size(16 << 20).enable_all().build().unwrap())
}
pub struct Srv<D: Datastore + Send + Sync + 'static> {
    pub db: Arc<Database<D>>,
    pub addr: SocketAddr,
    task: tokio::task::JoinHandle<()>,
    pub _dir: Option<tempfile::TempDir>,
}
impl<D: Datastore + Send + Sync + 'static> Srv<D> {
    pub fn start(db: Database<D>, dir: Option<tempfile::TempDir>) -> Srv<D> {
        Srv::start_with(db, dir, false)
    }
    pub fn start_with(db: Database<D>, dir: Option<tempfile::TempDir>, plain: bool) -> Srv<D> {
        let db = Arc::new(db);
        let l = srt().block_on(tokio::net::TcpListener::bind("127.0.0.1:0")).expect("bind");
        let addr = l.local_addr().unwrap();
        let d2 = db.clone();
        let task = srt().spawn(async move {
            if plain {
                let _ = indradb_proto::run_server(d2, l).await;
            } else {
                // what run_server does, without the 40 ms the kernel's default costs on every small answer
                let incoming = futures_incoming(l);
                let service = indradb_proto::indra_db_server::IndraDbServer::new(indradb_proto::Server::new(d2));
                let _ = tonic::transport::Server::builder().add_service(service).serve_with_incoming(incoming).await;
            }
        });
        Srv { db, addr, task, _dir: dir }
    }
    /// With plugin libraries; the refusal's text otherwise.
    pub fn start_plugins(db: Database<D>, dir: Option<tempfile::TempDir>, libs: Vec<std::path::PathBuf>) -> Result<Srv<D>, String> {
        let db = Arc::new(db);
        let server = unsafe { indradb_proto::Server::new_with_plugins(db.clone(), libs) }.map_err(|e| format!("plugins were not loaded: {e}"))?;
        let l = srt().block_on(tokio::net::TcpListener::bind("127.0.0.1:0")).expect("bind");
        let addr = l.local_addr().unwrap();
        let task = srt().spawn(async move {
            let incoming = futures_incoming(l);
            let service = indradb_proto::indra_db_server::IndraDbServer::new(server);
            let _ = tonic::transport::Server::builder().add_service(service).serve_with_incoming(incoming).await;
        });
        Ok(Srv { db, addr, task, _dir: dir })
    }
    pub fn client(&self) -> Grpc {
        Grpc::connect(self.addr)
    }
    pub fn alive(&self) -> bool {
        !self.task.is_finished()
    }
}
impl<D: Datastore + Send + Sync + 'static> Drop for Srv<D> {
    fn drop(&mut self) {
        self.task.abort();
    }
}
fn futures_incoming(l: tokio::net::TcpListener) -> impl tokio_stream::Stream<Item = std::io::Result<tokio::net::TcpStream>> {
    use tokio_stream::StreamExt;
    tokio_stream::wrappers::TcpListenerStream::new(l).map(|s| {
        if let Ok(s) = &s {
            let _ = s.set_nodelay(true);
        }
        s
    })
}
pub fn plain_mem_srv() -> Srv<ind::MemoryDatastore> {
    Srv::start_with(ind::MemoryDatastore::new_db(), None, true)
}
pub fn mem_srv() -> Srv<ind::MemoryDatastore> {
    Srv::start(ind::MemoryDatastore::new_db(), None)
}
/// As `mem_srv`; calls of the datastore are delayed now and then.
pub fn noisy_srv(level: u32) -> Srv<crate::noisy::Noisy<ind::MemoryDatastore>> {
    Srv::start(Database::new(crate::noisy::Noisy { inner: ind::MemoryDatastore::new_db().datastore, level }), None)
}
pub fn rocks_srv() -> Srv<ind::RocksdbDatastore> {
    let d = scratch();
    let db = open_rocks(&d.path().join("db"), 1).expect("open rocksdb");
    Srv::start(db, Some(d))
}
pub fn endpoint(addr: SocketAddr) -> tonic::transport::Endpoint {
    tonic::transport::Endpoint::from_shared(format!("http://{addr}")).unwrap()
}
pub fn raw_client(addr: SocketAddr) -> indradb_proto::ProtoClient<tonic::transport::Channel> {
    rt().block_on(async {
        for _ in 0..200 {
            if let Ok(c) = indradb_proto::ProtoClient::connect(endpoint(addr)).await {
                return c;
            }
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
        panic!("cannot connect to {addr}")
    })
}
/// The real client behind the same trait as local databases.
pub struct Grpc {
    pub c: Client,
}
pub const PATIENCE: Duration = Duration::from_secs(60);
impl Grpc {
    pub fn connect(addr: SocketAddr) -> Grpc {
        rt().block_on(async {
            for _ in 0..200 {
                if let Ok(c) = Client::new(endpoint(addr)).await {
                    return Grpc { c };
                }
                tokio::time::sleep(Duration::from_millis(20)).await;
            }
            panic!("cannot connect to {addr}")
        })
    }
    pub fn call<T: Send + 'static, F>(&self, f: impl FnOnce(Client) -> F) -> R<T>
    where
        F: std::future::Future<Output = Result<T, ClientError>> + Send + 'static,
    {
        let fut = f(self.c.clone());
        guard(|| {
            rt().block_on(async {
                match tokio::time::timeout(PATIENCE, tokio::spawn(fut)).await {
                    Err(_) => Err(E::Panic("no answer within 60 s".into())),
                    Ok(Err(j)) => Err(E::Panic(format!("client task: {j}"))),
                    Ok(Ok(Err(e))) => Err(E::Other(e.to_string())),
                    Ok(Ok(Ok(t))) => Ok(t),
                }
            })
        })
    }
}
impl Db for Grpc {
    fn create_vertex(&self, id: Id, t: &str) -> R<bool> {
        let v = vertex(id, t);
        self.call(|mut c| async move { c.create_vertex(&v).await })
    }
    fn create_vertex_t(&self, t: &str) -> R<Id> {
        let t = ident(t);
        self.call(|mut c| async move { c.create_vertex_from_type(t).await.map(did) })
    }
    fn create_edge(&self, e: &EK) -> R<bool> {
        let e = edge(e);
        self.call(|mut c| async move { c.create_edge(&e).await })
    }
    fn get(&self, q: ind::Query) -> R<Vec<Out>> {
        self.call(|mut c| async move { c.get(q).await.map(|o| o.iter().map(conv).collect()) })
    }
    fn delete(&self, q: ind::Query) -> R<()> {
        self.call(|mut c| async move { c.delete(q).await })
    }
    fn set(&self, q: ind::Query, name: &str, v: &serde_json::Value) -> R<()> {
        let (n, v) = (ident(name), js(v));
        self.call(|mut c| async move { c.set_properties(q, n, &v).await })
    }
    fn bulk(&self, items: &[Item]) -> R<()> {
        let items: Vec<_> = items.iter().map(item).collect();
        self.call(|mut c| async move { c.bulk_insert(items).await })
    }
    fn index(&self, name: &str) -> R<()> {
        let n = ident(name);
        self.call(|mut c| async move { c.index_property(n).await })
    }
    fn sync(&self) -> R<()> {
        self.call(|mut c| async move { c.sync().await })
    }
    fn raw(&self) -> R<Option<RawDump>> {
        Ok(None)
    }
    fn range_v(&self, _: Id) -> R<Option<Vec<Id>>> {
        Ok(None)
    }
    fn range_e(&self, _: &EK, _: bool) -> R<Option<Vec<EK>>> {
        Ok(None)
    }
}
