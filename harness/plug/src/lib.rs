//! Plugins for the plugin check, registered with the project's own macro.
use indradb::{BulkInsertItem, Edge, Identifier, Json, Transaction, Vertex};
use indradb_plugin_host as plugin;
use plugin::Error;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use uuid::Uuid;

type Txn<'x, 'a> = &'x mut (dyn Transaction<'a> + 'a);
type Res = Result<Json, Error>;

static CALLS: AtomicU64 = AtomicU64::new(0);

fn bad(s: impl std::fmt::Display) -> Error {
    Error::InvalidArgument(format!("bad argument: {s}"))
}
fn st(v: &Value) -> Result<&str, Error> {
    v.as_str().ok_or_else(|| bad(v))
}
fn id(v: &Value) -> Result<Uuid, Error> {
    u128::from_str_radix(st(v)?, 16).map(Uuid::from_u128).map_err(|_| bad(v))
}
fn name(v: &Value) -> Result<Identifier, Error> {
    Identifier::new(st(v)?).map_err(|e| Error::IndraDB(e.into()))
}
fn edge(v: &Value) -> Result<Edge, Error> {
    Ok(Edge::new(id(&v[0])?, name(&v[1])?, id(&v[2])?))
}
fn list<T>(v: &Value, f: impl Fn(&Value) -> Result<T, Error>) -> Result<Vec<T>, Error> {
    v.as_array().ok_or_else(|| bad(v))?.iter().map(f).collect()
}
fn js(v: &Value) -> Json {
    Json::new(v.clone())
}
fn hex(u: Uuid) -> String {
    format!("{:x}", u.as_u128())
}
fn ej(e: &Edge) -> Value {
    json!([hex(e.outbound_id), e.t.as_str(), hex(e.inbound_id)])
}

/// Gives its argument back.
struct Echo(&'static str);
impl plugin::Plugin for Echo {
    fn call<'a>(&self, _: &mut (dyn Transaction<'a> + 'a), arg: Json) -> Res {
        CALLS.fetch_add(1, SeqCst);
        Ok(Json::new(json!([self.0, *arg])))
    }
}
struct Calls;
impl plugin::Plugin for Calls {
    fn call<'a>(&self, _: &mut (dyn Transaction<'a> + 'a), _: Json) -> Res {
        Ok(Json::new(json!(CALLS.load(SeqCst))))
    }
}
/// Fails as told.
struct Fail;
impl plugin::Plugin for Fail {
    fn call<'a>(&self, _: &mut (dyn Transaction<'a> + 'a), arg: Json) -> Res {
        let msg = st(&arg["msg"])?.to_string();
        Err(match st(&arg["kind"])? {
            "json" => serde_json::from_str::<Value>(&msg).unwrap_err().into(),
            "uuid-taken" => indradb::Error::UuidTaken.into(),
            "not-indexed" => indradb::Error::NotIndexed.into(),
            "unsupported" => indradb::Error::Unsupported.into(),
            "on-query" => indradb::Error::OperationOnQuery.into(),
            "datastore" => indradb::Error::Datastore(msg.into()).into(),
            "invalid" => indradb::Error::Invalid(Identifier::new("a b").unwrap_err()).into(),
            "io" => indradb::Error::Io(std::io::Error::new(std::io::ErrorKind::Other, msg)).into(),
            "other" => Error::Other(msg.into()),
            _ => Error::InvalidArgument(msg),
        })
    }
}
/// Executes a list of operations and says what they returned.
struct Ops;
fn op<'a>(txn: Txn<'_, 'a>, o: &Value) -> Result<Value, Error> {
    let p = txn as *const (dyn Transaction<'a> + 'a);
    // the trait ties what it returns to the transaction; everything is copied before the next operation
    let t = || unsafe { &*p };
    Ok(match st(&o[0])? {
        "cv" => json!(txn.create_vertex(&Vertex::with_id(id(&o[1])?, name(&o[2])?))?),
        "ce" => json!(txn.create_edge(&edge(&o[1])?)?),
        "svp" => {
            txn.set_vertex_properties(list(&o[1], id)?, name(&o[2])?, &js(&o[3]))?;
            json!(null)
        }
        "sep" => {
            txn.set_edge_properties(list(&o[1], edge)?, name(&o[2])?, &js(&o[3]))?;
            json!(null)
        }
        "dv" => {
            let vs = t().specific_vertices(list(&o[1], id)?)?.collect::<Result<Vec<_>, _>>()?;
            txn.delete_vertices(vs)?;
            json!(null)
        }
        "de" => {
            txn.delete_edges(list(&o[1], edge)?)?;
            json!(null)
        }
        "dvp" => {
            txn.delete_vertex_properties(list(&o[1], |x| Ok((id(&x[0])?, name(&x[1])?)))?)?;
            json!(null)
        }
        "dep" => {
            txn.delete_edge_properties(list(&o[1], |x| Ok((edge(&x[0])?, name(&x[1])?)))?)?;
            json!(null)
        }
        "ix" => {
            txn.index_property(name(&o[1])?)?;
            json!(null)
        }
        "bulk" => {
            let items = list(&o[1], |x| {
                Ok(match st(&x[0])? {
                    "v" => BulkInsertItem::Vertex(Vertex::with_id(id(&x[1])?, name(&x[2])?)),
                    "e" => BulkInsertItem::Edge(edge(&x[1])?),
                    "vp" => BulkInsertItem::VertexProperty(id(&x[1])?, name(&x[2])?, js(&x[3])),
                    _ => BulkInsertItem::EdgeProperty(edge(&x[1])?, name(&x[2])?, js(&x[3])),
                })
            })?;
            txn.bulk_insert(items)?;
            json!(null)
        }
        // vertices of a type, found by comparing identifiers
        "of-type" => {
            let ty = name(&o[1])?;
            let mut v = Vec::new();
            for x in t().all_vertices()? {
                let x = x?;
                if x.t == ty {
                    v.push(json!(hex(x.id)));
                }
            }
            json!(v)
        }
        "vp" => match t().specific_vertices(vec![id(&o[1])?])?.next() {
            Some(v) => json!([t().vertex_property(&v?, name(&o[2])?)?.map(|j| (*j).clone())]),
            None => json!(null),
        },
        "ep" => json!([t().edge_property(&edge(&o[1])?, name(&o[2])?)?.map(|j| (*j).clone())]),
        "vips" => match t().vertex_ids_with_property(name(&o[1])?)? {
            Some(i) => json!(i.map(|x| x.map(hex)).collect::<Result<Vec<_>, _>>()?),
            None => json!(null),
        },
        "vipv" => match t().vertex_ids_with_property_value(name(&o[1])?, &js(&o[2]))? {
            Some(i) => json!(i.map(|x| x.map(hex)).collect::<Result<Vec<_>, _>>()?),
            None => json!(null),
        },
        "eps" => match t().edges_with_property(name(&o[1])?)? {
            Some(i) => json!(i.map(|x| x.map(|e| ej(&e))).collect::<Result<Vec<_>, _>>()?),
            None => json!(null),
        },
        "epv" => match t().edges_with_property_value(name(&o[1])?, &js(&o[2]))? {
            Some(i) => json!(i.map(|x| x.map(|e| ej(&e))).collect::<Result<Vec<_>, _>>()?),
            None => json!(null),
        },
        "dump" => {
            let vs = t().all_vertices()?.collect::<Result<Vec<_>, _>>()?;
            let es = t().all_edges()?.collect::<Result<Vec<_>, _>>()?;
            let mut vj = Vec::new();
            for v in &vs {
                let mut ps = Vec::new();
                for p in t().all_vertex_properties_for_vertex(v)? {
                    let (n, x) = p?;
                    ps.push(json!([n.as_str(), *x]));
                }
                vj.push(json!([hex(v.id), v.t.as_str(), ps]));
            }
            let mut exj = Vec::new();
            for e in &es {
                let mut ps = Vec::new();
                for p in t().all_edge_properties_for_edge(e)? {
                    let (n, x) = p?;
                    ps.push(json!([n.as_str(), *x]));
                }
                exj.push(json!([ej(e), ps]));
            }
            json!({"vertices": vj, "edges": exj, "vertex_count": txn.vertex_count(), "edge_count": txn.edge_count()})
        }
        x => return Err(bad(x)),
    })
}
impl plugin::Plugin for Ops {
    fn call<'a>(&self, txn: &mut (dyn Transaction<'a> + 'a), arg: Json) -> Res {
        let mut out = Vec::new();
        for o in arg.as_array().ok_or_else(|| bad(&*arg))? {
            out.push(op(txn, o)?);
        }
        Ok(Json::new(Value::Array(out)))
    }
}
/// Reads a counter, waits, writes it back plus one. The counter belongs to [id, name].
struct Bump;
impl plugin::Plugin for Bump {
    fn call<'a>(&self, txn: &mut (dyn Transaction<'a> + 'a), arg: Json) -> Res {
        let v = op(txn, &json!(["vp", arg[0], arg[1]]))?;
        let n = v[0].as_u64().unwrap_or(0);
        std::thread::sleep(Duration::from_micros(arg[2].as_u64().unwrap_or(0)));
        op(txn, &json!(["svp", [arg[0]], arg[1], n + 1]))?;
        Ok(Json::new(json!(n + 1)))
    }
}
/// Creates a set of vertices and edges, or removes it, with pauses.
struct Toggle;
impl plugin::Plugin for Toggle {
    fn call<'a>(&self, txn: &mut (dyn Transaction<'a> + 'a), arg: Json) -> Res {
        let pause = || std::thread::sleep(Duration::from_micros(arg["us"].as_u64().unwrap_or(0)));
        let ids = arg["ids"].as_array().ok_or_else(|| bad(&*arg))?;
        let there = op(txn, &json!(["vp", ids[0], "x"]))?.is_array();
        for i in ids {
            if there {
                op(txn, &json!(["dv", [i]]))?;
            } else {
                op(txn, &json!(["cv", i, arg["t"]]))?;
                pause();
                op(txn, &json!(["ce", [i, arg["t"], ids[0]]]))?;
            }
            pause();
        }
        Ok(Json::new(json!(!there)))
    }
}
/// Says that it is there (creates the file `here`), and waits until the file `go` appears.
struct Wait;
impl plugin::Plugin for Wait {
    fn call<'a>(&self, _: &mut (dyn Transaction<'a> + 'a), arg: Json) -> Res {
        std::fs::write(st(&arg["here"])?, "").map_err(bad)?;
        let (go, t0) = (st(&arg["go"])?, std::time::Instant::now());
        while !std::path::Path::new(go).exists() && t0.elapsed() < Duration::from_secs(50) {
            std::thread::sleep(Duration::from_millis(3));
        }
        Ok(Json::new(json!("waited")))
    }
}
/// The mapping helper, watched.
struct Watch {
    arg: Json,
    threads: usize,
    seen: Mutex<BTreeMap<(String, String), u64>>,
    running: AtomicU64,
    peak: AtomicU64,
}
impl plugin::util::VertexMapper for Watch {
    fn num_threads(&self) -> usize {
        self.threads
    }
    fn map(&self, v: Vertex) -> Result<(), Error> {
        let n = self.running.fetch_add(1, SeqCst) + 1;
        self.peak.fetch_max(n, SeqCst);
        std::thread::sleep(Duration::from_micros(self.arg["us"].as_u64().unwrap_or(0)));
        let key = hex(v.id);
        let told = |k: &str| self.arg[k].as_array().map(|a| a.iter().any(|x| x == &json!(key))).unwrap_or(false);
        *self.seen.lock().unwrap().entry((key.clone(), v.t.as_str().to_string())).or_default() += 1;
        let (fails, panics) = (told("fail"), told("panic"));
        self.running.fetch_sub(1, SeqCst);
        if panics {
            std::panic::resume_unwind(Box::new("told to"));
        }
        if fails {
            return Err(Error::Other(format!("told to fail at {key}").into()));
        }
        Ok(())
    }
}
struct Map;
impl plugin::Plugin for Map {
    fn call<'a>(&self, txn: &mut (dyn Transaction<'a> + 'a), arg: Json) -> Res {
        let w = Arc::new(Watch {
            threads: arg["threads"].as_u64().unwrap_or(8) as usize,
            arg,
            seen: Default::default(),
            running: AtomicU64::new(0),
            peak: AtomicU64::new(0),
        });
        let r = plugin::util::map(txn, w.clone());
        let running = w.running.load(SeqCst);
        let seen: Vec<Value> = w.seen.lock().unwrap().iter().map(|((i, t), n)| json!([i, t, n])).collect();
        std::thread::sleep(Duration::from_millis(2));
        let later: u64 = w.seen.lock().unwrap().values().sum();
        Ok(Json::new(json!({"seen": seen, "running": running, "later": later, "peak": w.peak.load(SeqCst), "err": r.err().map(|e| e.to_string())})))
    }
}

plugin::register_plugins!(
    1,
    "echo",
    || Box::new(Echo("echo")),
    "ECHO",
    || Box::new(Echo("ECHO")),
    "echo2",
    || Box::new(Echo("echo2")),
    "",
    || Box::new(Echo("")),
    "with space/and\nünïcode \u{0}",
    || Box::new(Echo("odd")),
    "calls",
    || Box::new(Calls),
    "fail",
    || Box::new(Fail),
    "ops",
    || Box::new(Ops),
    "bump",
    || Box::new(Bump),
    "toggle",
    || Box::new(Toggle),
    "wait",
    || Box::new(Wait),
    "map",
    || Box::new(Map)
);
