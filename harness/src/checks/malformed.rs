//! C20: requests that do not describe a valid operation, broken and abandoned streams.
use super::conc;
use super::net::settle;
use super::pure::valid_ident;
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::grpc::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use indradb::{Database, Datastore};
use indradb_proto as pb;
use pb::{BulkInsertItemVariant as BV, QueryVariant as QV};
use prost::bytes::{Buf, BufMut};
use prost::Message;
use serde_json::json;
use std::net::SocketAddr;
use std::time::{Duration, Instant};
use tonic::transport::Channel;
use tonic::{Code, Status};

/// A place in a request that can be spoiled. `true`: the field is required.
enum Slot<'a> {
    Id(&'a mut Option<pb::Uuid>, bool),
    BareId(&'a mut pb::Uuid),
    Ident(&'a mut Option<pb::Identifier>, bool),
    BareIdent(&'a mut pb::Identifier),
    Json(&'a mut Option<pb::Json>, bool),
    Edge(&'a mut Option<pb::Edge>),
    Inner(&'a mut Option<Box<pb::Query>>),
    TopQ(&'a mut Option<pb::Query>),
    Variant(&'a mut Option<QV>),
    Dir(&'a mut i32),
    Item(&'a mut Option<BV>),
}
type V<'x> = dyn FnMut(Slot<'_>) + 'x;
fn w_edge(e: &mut pb::Edge, f: &mut V) {
    f(Slot::Id(&mut e.outbound_id, true));
    f(Slot::Ident(&mut e.t, true));
    f(Slot::Id(&mut e.inbound_id, true));
}
fn w_oedge(e: &mut Option<pb::Edge>, f: &mut V) {
    if let Some(e) = e.as_mut() {
        w_edge(e, f);
    }
    f(Slot::Edge(e));
}
fn w_inner(q: &mut Option<Box<pb::Query>>, f: &mut V) {
    if let Some(q) = q.as_mut() {
        w_query(q, f);
    }
    f(Slot::Inner(q));
}
fn w_query(q: &mut pb::Query, f: &mut V) {
    match q.query.as_mut() {
        None | Some(QV::AllVertex(())) | Some(QV::AllEdge(())) => {}
        Some(QV::RangeVertex(x)) => {
            f(Slot::Ident(&mut x.t, false));
            f(Slot::Id(&mut x.start_id, false));
        }
        Some(QV::SpecificVertex(x)) => x.ids.iter_mut().for_each(|i| f(Slot::BareId(i))),
        Some(QV::VertexWithPropertyPresence(x)) => f(Slot::Ident(&mut x.name, true)),
        Some(QV::VertexWithPropertyValue(x)) => {
            f(Slot::Ident(&mut x.name, true));
            f(Slot::Json(&mut x.value, true));
        }
        Some(QV::SpecificEdge(x)) => x.edges.iter_mut().for_each(|e| w_edge(e, f)),
        Some(QV::EdgeWithPropertyPresence(x)) => f(Slot::Ident(&mut x.name, true)),
        Some(QV::EdgeWithPropertyValue(x)) => {
            f(Slot::Ident(&mut x.name, true));
            f(Slot::Json(&mut x.value, true));
        }
        Some(QV::Pipe(x)) => {
            w_inner(&mut x.inner, f);
            f(Slot::Dir(&mut x.direction));
            f(Slot::Ident(&mut x.t, false));
        }
        Some(QV::PipeProperty(x)) => {
            w_inner(&mut x.inner, f);
            f(Slot::Ident(&mut x.name, false));
        }
        Some(QV::PipeWithPropertyPresence(x)) => {
            w_inner(&mut x.inner, f);
            f(Slot::Ident(&mut x.name, true));
        }
        Some(QV::PipeWithPropertyValue(x)) => {
            w_inner(&mut x.inner, f);
            f(Slot::Ident(&mut x.name, true));
            f(Slot::Json(&mut x.value, true));
        }
        Some(QV::Include(x)) => w_inner(&mut x.inner, f),
        Some(QV::Count(x)) => w_inner(&mut x.inner, f),
    }
    f(Slot::Variant(&mut q.query));
}
fn w_item(i: &mut pb::BulkInsertItem, f: &mut V) {
    match i.item.as_mut() {
        None => {}
        Some(BV::Vertex(v)) => {
            f(Slot::Id(&mut v.id, true));
            f(Slot::Ident(&mut v.t, true));
        }
        Some(BV::Edge(e)) => w_edge(e, f),
        Some(BV::VertexProperty(p)) => {
            f(Slot::Id(&mut p.id, true));
            f(Slot::Ident(&mut p.name, true));
            f(Slot::Json(&mut p.value, true));
        }
        Some(BV::EdgeProperty(p)) => {
            w_oedge(&mut p.edge, f);
            f(Slot::Ident(&mut p.name, true));
            f(Slot::Json(&mut p.value, true));
        }
    }
    f(Slot::Item(&mut i.item));
}
#[derive(Clone, Debug)]
enum Req {
    CreateV(pb::Vertex),
    CreateVT(pb::Identifier),
    CreateE(pb::Edge),
    Get(pb::Query),
    Delete(pb::Query),
    Set(pb::SetPropertiesRequest),
    Bulk(Vec<pb::BulkInsertItem>),
    Index(pb::IndexPropertyRequest),
    Plugin(pb::ExecutePluginRequest),
}
const PATHS: [&str; 9] = ["CreateVertex", "CreateVertexFromType", "CreateEdge", "Get", "Delete", "SetProperties", "BulkInsert", "IndexProperty", "ExecutePlugin"];
impl Req {
    fn kind(&self) -> usize {
        match self {
            Req::CreateV(_) => 0,
            Req::CreateVT(_) => 1,
            Req::CreateE(_) => 2,
            Req::Get(_) => 3,
            Req::Delete(_) => 4,
            Req::Set(_) => 5,
            Req::Bulk(_) => 6,
            Req::Index(_) => 7,
            Req::Plugin(_) => 8,
        }
    }
    fn walk(&mut self, f: &mut V) {
        match self {
            Req::CreateV(v) => {
                f(Slot::Id(&mut v.id, true));
                f(Slot::Ident(&mut v.t, true));
            }
            Req::CreateVT(t) => f(Slot::BareIdent(t)),
            Req::CreateE(e) => w_edge(e, f),
            Req::Get(q) | Req::Delete(q) => w_query(q, f),
            Req::Set(s) => {
                if let Some(q) = s.q.as_mut() {
                    w_query(q, f);
                }
                f(Slot::TopQ(&mut s.q));
                f(Slot::Ident(&mut s.name, true));
                f(Slot::Json(&mut s.value, true));
            }
            Req::Bulk(v) => v.iter_mut().for_each(|i| w_item(i, f)),
            Req::Index(i) => f(Slot::Ident(&mut i.name, true)),
            Req::Plugin(p) => f(Slot::Json(&mut p.arg, false)),
        }
    }
    /// Independent judgement of whether the request describes an operation at all.
    fn valid(&self) -> bool {
        let mut ok = true;
        let id_ok = |i: &pb::Uuid| i.value.len() == 16;
        let js_ok = |j: &pb::Json| serde_json::from_str::<serde_json::Value>(&j.value).is_ok();
        self.clone().walk(&mut |s| {
            ok &= match s {
                Slot::Id(i, req) => i.as_ref().map(id_ok).unwrap_or(!req),
                Slot::BareId(i) => id_ok(i),
                Slot::Ident(i, req) => i.as_ref().map(|i| valid_ident(&i.value)).unwrap_or(!req),
                Slot::BareIdent(i) => valid_ident(&i.value),
                Slot::Json(j, req) => j.as_ref().map(js_ok).unwrap_or(!req),
                Slot::Edge(e) => e.is_some(),
                Slot::Inner(q) => q.is_some(),
                Slot::TopQ(q) => q.is_some(),
                Slot::Variant(v) => v.is_some(),
                Slot::Dir(d) => *d == 0 || *d == 1,
                Slot::Item(i) => i.is_some(),
            }
        });
        ok
    }
    fn messages(&self) -> Vec<Vec<u8>> {
        match self {
            Req::CreateV(x) => vec![x.encode_to_vec()],
            Req::CreateVT(x) => vec![x.encode_to_vec()],
            Req::CreateE(x) => vec![x.encode_to_vec()],
            Req::Get(x) | Req::Delete(x) => vec![x.encode_to_vec()],
            Req::Set(x) => vec![x.encode_to_vec()],
            Req::Bulk(v) => v.iter().map(|x| x.encode_to_vec()).collect(),
            Req::Index(x) => vec![x.encode_to_vec()],
            Req::Plugin(x) => vec![x.encode_to_vec()],
        }
    }
    fn decode(kind: usize, m: &[Vec<u8>]) -> Option<Req> {
        let b = m.first().map(|x| &x[..]).unwrap_or(&[]);
        Some(match kind {
            0 => Req::CreateV(Message::decode(b).ok()?),
            1 => Req::CreateVT(Message::decode(b).ok()?),
            2 => Req::CreateE(Message::decode(b).ok()?),
            3 => Req::Get(Message::decode(b).ok()?),
            4 => Req::Delete(Message::decode(b).ok()?),
            5 => Req::Set(Message::decode(b).ok()?),
            6 => Req::Bulk(m.iter().map(|b| Message::decode(&b[..])).collect::<Result<_, _>>().ok()?),
            7 => Req::Index(Message::decode(b).ok()?),
            _ => Req::Plugin(Message::decode(b).ok()?),
        })
    }
}
fn spoil(req: &mut Req, at: usize, how: usize, r: &mut Rng) -> Option<String> {
    let mut k = 0;
    let mut done = None;
    let bad_id = |r: &mut Rng, how: usize| -> Vec<u8> {
        let id = uuid::Uuid::from_bytes(std::array::from_fn(|_| r.next() as u8));
        // every way of writing an id other than its 16 bytes, and sizes that are close
        match if how < 8 { how } else { r.below(16) } {
            k @ 0..=7 => (0..[0usize, 1, 8, 15, 17, 32, 64, 36][k]).map(|_| r.next() as u8).collect(),
            8 => id.hyphenated().to_string().into(),
            9 => id.simple().to_string().into(),
            10 => id.braced().to_string().into(),
            11 => id.urn().to_string().to_uppercase().replacen("URN:UUID", "urn:uuid", 1).into(),
            12 => [&id.as_bytes()[..], &[0]].concat(),
            13 => id.as_bytes()[..15].to_vec(),
            14 => [&[0, 16][..], id.as_bytes()].concat(),
            _ => [id.as_bytes(), &id.as_bytes()[..]].concat(),
        }
    };
    let bad_ident = |how: usize| -> String {
        let v = [" ", "a b", "a\0", "é!", "😀", "a/b", "a.b", "\u{301}", "a\n", "=", "\"x\""];
        match how % 14 {
            k if k < 11 => v[k].to_string(),
            11 => "x".repeat(256),
            12 => "é".repeat(128),
            _ => "x".repeat(100_000),
        }
    };
    let bad_json = |how: usize| -> String {
        let v = ["", "{", "nan", "1 2", "[1,]", "{'a':1}", "{\"a\":}", "\"", "tru", "01", "+1", "1.", ".5", "\u{feff}1", "1e400", "[1", "\"\\ud800\"", "Infinity", "// x\n1"];
        match how % 22 {
            k if k < 19 => v[k].to_string(),
            19 => "[".repeat(200) + &"]".repeat(200),
            20 => "[".repeat(100_000),
            _ => "{\"a\":".repeat(130) + "1" + &"}".repeat(130),
        }
    };
    let r2 = std::cell::RefCell::new(r);
    req.walk(&mut |s| {
        if k == at {
            done = Some(match s {
                Slot::Id(i, required) => {
                    if required && how % 5 == 0 {
                        *i = None;
                        "id missing".into()
                    } else {
                        let b = bad_id(&mut r2.borrow_mut(), how);
                        let d = format!("id of {} bytes", b.len());
                        *i = Some(pb::Uuid { value: b });
                        d
                    }
                }
                Slot::BareId(i) => {
                    i.value = bad_id(&mut r2.borrow_mut(), how);
                    format!("id of {} bytes", i.value.len())
                }
                Slot::Ident(i, required) => {
                    if required && how % 5 == 0 {
                        *i = None;
                        "identifier missing".into()
                    } else {
                        let b = bad_ident(how);
                        let d = format!("identifier {:?} ({} bytes)", b.chars().take(12).collect::<String>(), b.len());
                        *i = Some(pb::Identifier { value: b });
                        d
                    }
                }
                Slot::BareIdent(i) => {
                    i.value = bad_ident(how);
                    format!("identifier of {} bytes", i.value.len())
                }
                Slot::Json(j, required) => {
                    if required && how % 7 == 0 {
                        *j = None;
                        "value missing".into()
                    } else {
                        let b = bad_json(how);
                        let d = format!("value {:?} ({} bytes)", b.chars().take(12).collect::<String>(), b.len());
                        *j = Some(pb::Json { value: b });
                        d
                    }
                }
                Slot::Edge(e) => {
                    *e = None;
                    "edge missing".into()
                }
                Slot::Inner(q) => {
                    *q = None;
                    "inner query missing".into()
                }
                Slot::TopQ(q) => {
                    *q = None;
                    "query missing".into()
                }
                Slot::Variant(v) => {
                    *v = None;
                    "query empty".into()
                }
                Slot::Dir(d) => {
                    *d = [2, -1, i32::MAX, i32::MIN, 3, 255][how % 6];
                    format!("direction {}", *d)
                }
                Slot::Item(i) => {
                    *i = None;
                    "item empty".into()
                }
            });
        }
        k += 1;
    });
    done
}
fn slots(req: &Req) -> usize {
    let mut n = 0;
    req.clone().walk(&mut |_| n += 1);
    n
}
fn gen_req(kind: usize, p: &Pools, r: &mut Rng, m: &Model) -> Req {
    let pid = |i: Id| pb::Uuid { value: uid(i).as_bytes().to_vec() };
    let q = |r: &mut Rng| -> pb::Query { p.q_any(r, m, 4).raw().into() };
    match kind {
        0 => Req::CreateV(pb::Vertex { id: Some(pid(p.id(r))), t: Some(pb::Identifier { value: p.t(r) }) }),
        1 => Req::CreateVT(pb::Identifier { value: p.t(r) }),
        2 => Req::CreateE(edge(&p.edge(r, Some(m))).into()),
        3 => Req::Get(q(r)),
        4 => Req::Delete(q(r)),
        5 => Req::Set(pb::SetPropertiesRequest { q: Some(q(r)), name: Some(pb::Identifier { value: p.name(r) }), value: Some(pb::Json { value: p.val(r).to_string() }) }),
        6 => {
            let n = if r.chance(1, 8) { [1030, 1500, 2600][r.below(3)] } else { [1, 2, 3, 10, 99, 100, 101, 150, 400][r.below(9)] };
            let mut v: Vec<pb::BulkInsertItem> = Vec::new();
            while v.len() < n {
                v.push(match r.below(4) {
                    0 => item(&Item::VP(p.id(r), p.name(r), p.val(r))).into(),
                    1 => item(&Item::EP(p.edge(r, Some(m)), p.name(r), p.val(r))).into(),
                    2 => item(&Item::E(p.edge(r, Some(m)))).into(),
                    _ => item(&Item::V(r.u128(), p.t(r))).into(),
                });
            }
            Req::Bulk(v)
        }
        7 => Req::Index(pb::IndexPropertyRequest { name: Some(pb::Identifier { value: format!("ix{}", r.below(100000)) }) }),
        _ => Req::Plugin(pb::ExecutePluginRequest { name: ["", "nope", "\0", "naive-bayes-x", "register"][r.below(5)].into(), arg: Some(pb::Json { value: "1".into() }) }),
    }
}
async fn send(c: &mut pb::ProtoClient<Channel>, req: Req) -> Result<usize, Status> {
    Ok(match req {
        Req::CreateV(x) => c.create_vertex(x).await.map(|_| 1)?,
        Req::CreateVT(x) => c.create_vertex_from_type(x).await.map(|_| 1)?,
        Req::CreateE(x) => c.create_edge(x).await.map(|_| 1)?,
        Req::Get(x) => {
            let mut st = c.get(x).await?.into_inner();
            let mut n = 0;
            while st.message().await?.is_some() {
                n += 1;
            }
            n
        }
        Req::Delete(x) => c.delete(x).await.map(|_| 1)?,
        Req::Set(x) => c.set_properties(x).await.map(|_| 1)?,
        Req::Bulk(v) => c.bulk_insert(tokio_stream::iter(v)).await.map(|_| 1)?,
        Req::Index(x) => c.index_property(x).await.map(|_| 1)?,
        Req::Plugin(x) => c.execute_plugin(x).await.map(|_| 1)?,
    })
}
// ---- raw messages ------------------------------------------------------------------
struct RawCodec;
struct RawEnc;
struct RawDec;
impl tonic::codec::Encoder for RawEnc {
    type Item = Vec<u8>;
    type Error = Status;
    fn encode(&mut self, item: Vec<u8>, dst: &mut tonic::codec::EncodeBuf<'_>) -> Result<(), Status> {
        dst.put_slice(&item);
        Ok(())
    }
}
impl tonic::codec::Decoder for RawDec {
    type Item = Vec<u8>;
    type Error = Status;
    fn decode(&mut self, src: &mut tonic::codec::DecodeBuf<'_>) -> Result<Option<Vec<u8>>, Status> {
        let n = src.remaining();
        Ok(Some(src.copy_to_bytes(n).to_vec()))
    }
}
impl tonic::codec::Codec for RawCodec {
    type Encode = Vec<u8>;
    type Decode = Vec<u8>;
    type Encoder = RawEnc;
    type Decoder = RawDec;
    fn encoder(&mut self) -> RawEnc {
        RawEnc
    }
    fn decoder(&mut self) -> RawDec {
        RawDec
    }
}
async fn send_raw(ch: Channel, path: &str, msgs: Vec<Vec<u8>>) -> Result<usize, Status> {
    let mut g = tonic::client::Grpc::new(ch);
    g.ready().await.map_err(|e| Status::unavailable(e.to_string()))?;
    let path = tonic::codegen::http::uri::PathAndQuery::try_from(path).unwrap();
    let res = g.streaming(tonic::Request::new(tokio_stream::iter(msgs)), path, RawCodec).await?;
    let mut s = res.into_inner();
    let mut n = 0;
    while s.message().await?.is_some() {
        n += 1;
    }
    Ok(n)
}
fn garble(r: &mut Rng, msgs: &mut Vec<Vec<u8>>) {
    if msgs.is_empty() {
        msgs.push(vec![]);
    }
    let how = r.below(9);
    if how == 7 && msgs.len() == 1 {
        let c = msgs[0].clone();
        msgs.push(c);
        return;
    }
    let k = r.below(msgs.len());
    let m = &mut msgs[k];
    match how {
        0 => {
            let n = r.below(m.len() + 1);
            m.truncate(n);
        }
        1 if !m.is_empty() => {
            let i = r.below(m.len());
            m[i] ^= 1 << r.below(8);
        }
        2 if !m.is_empty() => {
            let i = r.below(m.len());
            m[i] = r.next() as u8;
        }
        3 => {
            let i = r.below(m.len() + 1);
            for _ in 0..r.range(1, 20) {
                m.insert(i, r.next() as u8);
            }
        }
        4 => {
            *m = (0..r.below(200)).map(|_| r.next() as u8).collect();
        }
        5 if m.len() > 2 => {
            let a = r.below(m.len() - 1);
            let b = a + 1 + r.below(m.len() - a - 1);
            m.drain(a..b);
        }
        6 => m.extend_from_slice(&[0xff; 12]),
        _ => {
            // invalid UTF-8 in an identifier field
            m.extend_from_slice(&[0x12, 0x04, 0x0a, 0x02, 0xc3, 0x28]);
        }
    }
}

struct Bench<D: Datastore + Send + Sync + 'static> {
    s: Srv<D>,
    label: &'static str,
    other: Grpc,
    pools: Pools,
    m: Model,
    order: EdgeOrder,
    canary: Id,
}
impl<D: Datastore + Send + Sync + 'static> Bench<D> {
    fn new(s: Srv<D>, label: &'static str, order: EdgeOrder, r: &mut Rng) -> Bench<D> {
        let pools = Pools::new(r, 6, 3, 2, 5);
        let mut m = Model::new(order);
        let db: &Database<D> = &s.db;
        let rep = Report::default();
        for id in &pools.ids {
            let _ = step_db(db, &mut m, &Op::CreateV(*id, pools.t(r)), &rep, false);
        }
        for _ in 0..14 {
            let e = pools.edge(r, Some(&m));
            let _ = step_db(db, &mut m, &Op::CreateE(e), &rep, false);
        }
        let n0 = pools.names[0].clone();
        let _ = step_db(db, &mut m, &Op::Index(n0.clone()), &rep, false);
        for n in pools.names.clone() {
            let _ = step_db(db, &mut m, &Op::Set(Q::AllV, n.clone(), pools.val(r)), &rep, false);
            let _ = step_db(db, &mut m, &Op::Set(Q::AllE, n, pools.val(r)), &rep, false);
        }
        let other = s.client();
        Bench { s, label, other, pools, m, order, canary: 0x5555 << 64 }
    }
    fn state(&self) -> u64 {
        match conc::dump(&*self.s.db, self.order, &[]) {
            Ok(m) => model_hash(&m),
            Err(e) => h64(&e),
        }
    }
    /// The server still serves another client, reads and writes.
    fn alive(&mut self) -> Result<(), String> {
        self.canary += 1;
        let id = self.canary;
        match self.other.create_vertex(id, "canary") {
            Ok(true) => {}
            x => return Err(format!("another client creating a vertex afterwards: {x:?}")),
        }
        match self.other.get(Q::SpecV(vec![id]).raw()) {
            Ok(o) if o == vec![Out::V(vec![(id, "canary".into())])] => {}
            x => return Err(format!("another client reading afterwards: {}", short(&x))),
        }
        match self.other.delete(Q::SpecV(vec![id]).raw()) {
            Ok(()) => Ok(()),
            x => Err(format!("another client deleting afterwards: {x:?}")),
        }
    }
}
fn defects<D: Datastore + Send + Sync + 'static>(b: &mut Bench<D>, seed: u64, dur: Duration, rep: &Report) {
    let mut r = Rng::new(seed);
    let mut c = raw_client(b.s.addr);
    let t0 = Instant::now();
    let mut k = 0usize;
    while t0.elapsed() < dur && rep.nviol() < 5 {
        k += 1;
        let kind = k % 9;
        let mut req = gen_req(kind, &b.pools, &mut r, &b.m);
        let n = slots(&req);
        let (mut what, mut bad);
        if kind == 8 && r.chance(1, 2) {
            what = "unknown plugin".to_string();
            bad = true;
        } else {
            if n == 0 {
                continue;
            }
            let at = if matches!(req, Req::Bulk(_)) { [0, n - 1, r.below(n)][r.below(3)] } else { r.below(n) };
            what = spoil(&mut req, at, r.below(1000), &mut r).unwrap_or_default();
            bad = true;
            if req.valid() {
                bad = false;
            }
        }
        if !bad {
            what = "harmless".into();
        }
        crate::progress::doing(&format!("C20 {} {} seed {seed} #{k}: {}", b.label, PATHS[kind], what));
        let before = b.state();
        let desc = short(&req);
        let res = call(&mut c, req);
        rep.eval(1);
        rep.distinct(&(kind, what.chars().take(20).collect::<String>()));
        if bad {
            rep.count(&format!("rejected_{}", PATHS[kind]), 1);
            match &res {
                Ok(_) => b.viol(rep, "accepted", format!("{} with {what} was accepted", PATHS[kind]), desc.clone(), seed),
                Err(s) if s.message() == "TIMEOUT" => b.viol(rep, "hang", format!("{} with {what} was never answered", PATHS[kind]), desc.clone(), seed),
                Err(s) if matches!(s.code(), Code::Unavailable | Code::Cancelled) => b.viol(rep, "dropped", format!("{} with {what} broke the connection: {s}", PATHS[kind]), desc.clone(), seed),
                Err(s) => {
                    rep.count(&format!("status_{:?}", s.code()), 1);
                    if k % 499 == 0 {
                        rep.sample(json!({"request": PATHS[kind], "defect": what, "status": format!("{:?}", s.code()), "message": s.message().chars().take(120).collect::<String>()}));
                    }
                }
            }
            if b.state() != before {
                b.viol(rep, "changed", format!("{} with {what} changed the database", PATHS[kind]), desc.clone(), seed);
                break;
            }
        } else {
            // may have changed the graph legitimately: resynchronise
            if let Ok(m) = conc::dump(&*b.s.db, b.order, &b.m.ix.iter().cloned().collect::<Vec<_>>()) {
                b.m = m;
            }
        }
        if k % 5 == 0 {
            if let Err(e) = b.alive() {
                b.viol(rep, "harmed-others", format!("after {} with {what}: {e}", PATHS[kind]), desc, seed);
                break;
            }
        }
    }
    rep.count("defect_requests", k as u64);
}
fn call(c: &mut pb::ProtoClient<Channel>, req: Req) -> Result<usize, Status> {
    rt().block_on(async { tokio::time::timeout(PATIENCE, send(c, req)).await.unwrap_or_else(|_| Err(Status::deadline_exceeded("TIMEOUT"))) })
}
impl<D: Datastore + Send + Sync + 'static> Bench<D> {
    fn viol(&self, rep: &Report, sig: &str, what: String, desc: String, seed: u64) {
        rep.violation(&format!("C20:{}:{sig}", self.label), format!("[{}] {what}", self.label), format!("seed {seed}\n{what}\n{desc}"));
    }
}
/// Queries the model says cannot be evaluated, as gets, deletes and sets.
fn unevaluable<D: Datastore + Send + Sync + 'static>(b: &mut Bench<D>, seed: u64, dur: Duration, rep: &Report) {
    let mut r = Rng::new(seed);
    let mut c = raw_client(b.s.addr);
    let t0 = Instant::now();
    while t0.elapsed() < dur && rep.nviol() < 5 {
        let q = b.pools.q_wild(&mut r, &b.m, 5);
        let last = b.m.eval(&q, None);
        let kind = 3 + r.below(3);
        let bad = match (&last, kind) {
            (Err(_), _) => true,
            (Ok(v), 4) => b.m.clone().apply_delete(v.last().unwrap()).is_err(),
            (Ok(v), 5) => b.m.clone().apply_set(v.last().unwrap(), "n", &json!(1)).is_err(),
            _ => false,
        };
        if !bad {
            continue;
        }
        let w: pb::Query = q.raw().into();
        let req = match kind {
            3 => Req::Get(w),
            4 => Req::Delete(w),
            _ => Req::Set(pb::SetPropertiesRequest { q: Some(w), name: Some(pb::Identifier { value: "n".into() }), value: Some(pb::Json { value: "1".into() }) }),
        };
        crate::progress::doing(&format!("C20 {} unevaluable {}", b.label, q.shape()));
        let before = b.state();
        let res = call(&mut c, req);
        rep.eval(1);
        rep.count("unevaluable_queries", 1);
        rep.distinct(&("q", q.shape(), kind));
        if res.is_ok() || b.state() != before {
            b.viol(rep, "unevaluable", format!("{} of {:?} answered {:?}", PATHS[kind], short(&q), res.map_err(|e| e.to_string())), format!("{q:?}"), seed);
            break;
        }
    }
    if let Err(e) = b.alive() {
        b.viol(rep, "harmed-others", e, "queries that cannot be evaluated".into(), seed);
    }
}
fn raw_bytes<D: Datastore + Send + Sync + 'static>(b: &mut Bench<D>, seed: u64, dur: Duration, rep: &Report) {
    let mut r = Rng::new(seed);
    let ch = rt().block_on(endpoint(b.s.addr).connect()).unwrap();
    let t0 = Instant::now();
    let mut k = 0;
    while t0.elapsed() < dur && rep.nviol() < 5 {
        k += 1;
        let kind = r.below(9);
        let mut msgs = gen_req(kind, &b.pools, &mut r, &b.m).messages();
        for _ in 0..r.range(1, 3) {
            garble(&mut r, &mut msgs);
        }
        let many = kind != 6 && msgs.len() != 1;
        let dec = Req::decode(kind, &msgs);
        let valid = dec.as_ref().map(|d| d.valid()).unwrap_or(false) && !many && kind != 8;
        crate::progress::doing(&format!("C20 {} raw {} seed {seed} #{k}", b.label, PATHS[kind]));
        let before = b.state();
        let hex: String = msgs.iter().map(|m| m.iter().map(|x| format!("{x:02x}")).collect::<String>() + "\n").collect();
        let res = rt().block_on(async {
            tokio::time::timeout(PATIENCE, send_raw(ch.clone(), &format!("/indradb.IndraDB/{}", PATHS[kind]), msgs)).await.unwrap_or_else(|_| Err(Status::deadline_exceeded("TIMEOUT")))
        });
        rep.eval(1);
        rep.count(if valid { "raw_still_valid" } else { "raw_invalid" }, 1);
        let after = b.state();
        match &res {
            Err(s) if s.message() == "TIMEOUT" => b.viol(rep, "hang", format!("garbled {} was never answered", PATHS[kind]), hex.clone(), seed),
            Err(s) => {
                rep.distinct(&("raw", kind, s.code() as i32, s.message().chars().take(24).collect::<String>()));
                // (a valid query may also fail to evaluate)
                if !valid && after != before {
                    b.viol(rep, "changed", format!("garbled {} was answered with {s} but changed the database", PATHS[kind]), hex.clone(), seed);
                }
            }
            Ok(_) if !valid && !many => {
                b.viol(rep, "accepted", format!("garbled {} was accepted", PATHS[kind]), format!("{hex}\n{}", short(&dec)), seed);
            }
            Ok(_) => {}
        }
        if after != before {
            if let Ok(m) = conc::dump(&*b.s.db, b.order, &[]) {
                b.m = Model { ix: b.m.ix.clone(), ..m };
            }
        }
        if k % 10 == 0 {
            if let Err(e) = b.alive() {
                b.viol(rep, "harmed-others", e, hex, seed);
                break;
            }
        }
    }
    // methods and content nobody offers
    for path in ["/indradb.IndraDB/Nope", "/indradb.Nope/Get", "/x", "/indradb.IndraDB/"] {
        let res = rt().block_on(async { tokio::time::timeout(PATIENCE, send_raw(ch.clone(), path, vec![vec![1, 2, 3]])).await });
        if !matches!(res, Ok(Err(_))) {
            b.viol(rep, "accepted", format!("{path} was answered {res:?}"), String::new(), seed);
        }
    }
}
/// Streams that end abnormally: abandoned by the client after some items, or cut at a random byte on the way.
fn broken_streams<D: Datastore + Send + Sync + 'static>(b: &mut Bench<D>, seed: u64, dur: Duration, rep: &Report) {
    let mut r = Rng::new(seed);
    let t0 = Instant::now();
    let c = raw_client(b.s.addr);
    let mut groups: Vec<(u64, usize, bool)> = Vec::new();
    let mut g = 0u64;
    let base: Id = 0x6600 << 112;
    let pid = |i: Id| pb::Uuid { value: uid(i).as_bytes().to_vec() };
    let mk = |g: u64, i: usize| pb::BulkInsertItem {
        item: Some(BV::Vertex(pb::Vertex { id: Some(pid(base + ((g as u128) << 32) + i as u128)), t: Some(pb::Identifier { value: format!("s{g}") }) })),
    };
    while t0.elapsed() < dur && rep.nviol() < 5 && g < 100_000 {
        g += 1;
        let n = [1usize, 2, 5, 50, 100, 101, 300][r.below(7)];
        crate::progress::doing(&format!("C20 {} broken stream {g} seed {seed}", b.label));
        let items: Vec<_> = (0..n).map(|i| mk(g, i)).collect();
        match r.below(4) {
            0 | 1 => {
                // the client sends the items, never ends the stream, and gives up
                let mut c = c.clone();
                let us = [0u64, 50, 300, 1000, 3000][r.below(5)];
                let hold = r.chance(1, 2);
                let res = rt().block_on(async move {
                    let (tx, rx) = tokio::sync::mpsc::channel(4);
                    let feeder = tokio::spawn(async move {
                        for i in items {
                            if tx.send(i).await.is_err() {
                                return;
                            }
                        }
                        // keep the stream open
                        if hold {
                            tokio::time::sleep(Duration::from_millis(30)).await;
                        }
                        // dropping the sender earlier would end the stream properly
                        tx.closed().await;
                    });
                    let call = c.bulk_insert(tokio_stream::wrappers::ReceiverStream::new(rx));
                    let r = tokio::time::timeout(Duration::from_micros(us), call).await;
                    drop(feeder);
                    r
                });
                if let Ok(Ok(_)) = res {
                    b.viol(rep, "accepted", "a bulk insert whose stream never ended was answered".into(), format!("group {g} of {n} items"), seed);
                }
                rep.count("abandoned_streams", 1);
                groups.push((g, n, true));
            }
            2 => {
                // a dedicated connection that is torn down mid-stream
                let addr = b.s.addr;
                let us = [100u64, 500, 2000][r.below(3)];
                rt().block_on(async move {
                    let Ok(ch) = endpoint(addr).connect().await else { return };
                    let mut c = pb::ProtoClient::new(ch);
                    let (tx, rx) = tokio::sync::mpsc::channel(4);
                    let feeder = tokio::spawn(async move {
                        for i in items {
                            if tx.send(i).await.is_err() {
                                return;
                            }
                        }
                        tx.closed().await;
                    });
                    let _ = tokio::time::timeout(Duration::from_micros(us), c.bulk_insert(tokio_stream::wrappers::ReceiverStream::new(rx))).await;
                    drop(feeder);
                });
                rep.count("dropped_connections", 1);
                groups.push((g, n, true));
            }
            _ => {
                // cut at a random byte between client and server; the insert is complete if the server saw its end
                let cut = r.below(60 + n * 45);
                let ok = through_cutter(b.s.addr, cut, r.chance(1, 2), items);
                rep.count(if ok { "cut_after_the_end" } else { "cut_streams" }, 1);
                if ok {
                    let have = count_type(&*b.s.db, &format!("s{g}"));
                    if have != n {
                        b.viol(rep, "partial", format!("acknowledged bulk insert of {n} items has {have}"), format!("group {g}"), seed);
                    }
                }
                groups.push((g, n, false));
            }
        }
        rep.eval(1);
        rep.distinct(&("stream", n, g % 16));
        if g % 25 == 0 {
            if let Err(e) = b.alive() {
                b.viol(rep, "harmed-others", e, format!("after broken stream {g}"), seed);
                return;
            }
        }
        if g % 200 == 0 || t0.elapsed() >= dur {
            judge_groups(b, &mut groups, seed, rep);
        }
    }
    judge_groups(b, &mut groups, seed, rep);
}
fn judge_groups<D: Datastore + Send + Sync + 'static>(b: &mut Bench<D>, groups: &mut Vec<(u64, usize, bool)>, seed: u64, rep: &Report) {
    settle(&*b.s.db);
    let Ok(o) = (*b.s.db).get(Q::AllV.raw()) else {
        b.viol(rep, "harmed-others", "the database refuses a query".into(), String::new(), seed);
        return;
    };
    let mut c = std::collections::HashMap::new();
    if let Out::V(v) = conv(&o[0]) {
        for (_, t) in v {
            *c.entry(t).or_insert(0usize) += 1;
        }
    }
    for (g, n, none) in groups.drain(..) {
        let have = c.get(&format!("s{g}")).copied().unwrap_or(0);
        if have != 0 && (none || have != n) {
            b.viol(rep, "broken-stream-inserted", format!("a bulk insert stream that broke before its end inserted {have} vertices ({n} were meant to be sent)"), format!("group {g}"), seed);
        }
        if have == n && !none {
            rep.count("cut_but_complete", 1);
        }
        if have != 0 {
            let _ = (*b.s.db).delete(Q::RangeV { limit: u32::MAX, t: Some(format!("s{g}")), start: None }.raw());
        }
    }
}
fn count_type(d: &dyn Db, t: &str) -> usize {
    match d.get(Q::Count(Box::new(Q::RangeV { limit: u32::MAX, t: Some(t.into()), start: None })).raw()) {
        Ok(o) => match o[..] {
            [Out::C(n)] => n as usize,
            _ => usize::MAX,
        },
        Err(_) => usize::MAX,
    }
}
/// A proxy that forwards `cut` bytes from the client and then closes or resets both sides. True: the call succeeded.
fn through_cutter(addr: SocketAddr, cut: usize, reset: bool, items: Vec<pb::BulkInsertItem>) -> bool {
    rt().block_on(async move {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let pa = l.local_addr().unwrap();
        let proxy = tokio::spawn(async move {
            use tokio::io::{AsyncReadExt, AsyncWriteExt};
            let Ok((cl, _)) = l.accept().await else { return };
            let Ok(sv) = tokio::net::TcpStream::connect(addr).await else { return };
            let _ = sv.set_nodelay(true);
            let _ = cl.set_nodelay(true);
            if reset {
                #[allow(deprecated)]
                let _ = sv.set_linger(Some(Duration::ZERO));
            }
            let (mut cr, mut cw) = cl.into_split();
            let (mut sr, mut sw) = sv.into_split();
            let back = tokio::spawn(async move {
                let mut buf = [0u8; 4096];
                loop {
                    match sr.read(&mut buf).await {
                        Ok(0) | Err(_) => return,
                        Ok(n) => {
                            if cw.write_all(&buf[..n]).await.is_err() {
                                return;
                            }
                        }
                    }
                }
            });
            let mut left = cut + 200;
            let mut buf = [0u8; 512];
            while left > 0 {
                let k = buf.len().min(left);
                match cr.read(&mut buf[..k]).await {
                    Ok(0) | Err(_) => break,
                    Ok(n) => {
                        if sw.write_all(&buf[..n]).await.is_err() {
                            break;
                        }
                        left -= n;
                    }
                }
            }
            back.abort();
        });
        let res = async {
            let ch = endpoint(pa).connect_timeout(Duration::from_secs(5)).connect().await.ok()?;
            let mut c = pb::ProtoClient::new(ch);
            match tokio::time::timeout(Duration::from_secs(10), c.bulk_insert(tokio_stream::iter(items))).await {
                Ok(Ok(_)) => Some(()),
                _ => None,
            }
        }
        .await;
        proxy.abort();
        res.is_some()
    })
}
/// Requests that are merely large or deep: admitted or refused, but the server stays up.
fn oversized<D: Datastore + Send + Sync + 'static>(b: &mut Bench<D>, rep: &Report) {
    let mut c = raw_client(b.s.addr);
    for depth in [10usize, 40, 90, 150, 400, 3000] {
        let mut q = pb::Query { query: Some(QV::AllVertex(())) };
        for _ in 0..depth {
            q = pb::Query { query: Some(QV::Include(Box::new(pb::IncludeQuery { inner: Some(Box::new(q)) }))) };
        }
        let before = b.state();
        let res = call(&mut c, Req::Get(q));
        rep.eval(1);
        rep.note(&format!("query_depth_{depth}_{}", b.label), json!(res.as_ref().map(|_| "ok".to_string()).unwrap_or_else(|e| format!("{:?}", e.code()))));
        if b.state() != before {
            b.viol(rep, "changed", format!("a query of depth {depth} changed the database"), String::new(), 0);
        }
        if let Err(e) = b.alive() {
            b.viol(rep, "harmed-others", e, format!("query of depth {depth}"), 0);
            return;
        }
        c = raw_client(b.s.addr);
    }
    for mb in [1usize, 3, 5, 20] {
        let req = Req::Set(pb::SetPropertiesRequest {
            q: Some(pb::Query { query: Some(QV::AllEdge(())) }),
            name: Some(pb::Identifier { value: "big".into() }),
            value: Some(pb::Json { value: format!("\"{}", "x".repeat(mb << 20)) }),
        });
        let before = b.state();
        if call(&mut c, req).is_ok() || b.state() != before {
            b.viol(rep, "accepted", format!("an unterminated string of {mb} MB was accepted as a value"), String::new(), 0);
        }
        rep.eval(1);
        if let Err(e) = b.alive() {
            b.viol(rep, "harmed-others", e, format!("value of {mb} MB"), 0);
            return;
        }
        c = raw_client(b.s.addr);
    }
}
pub fn c20(cx: &Ctx, rep: &Report) {
    let mut r = Rng::new(cx.seed);
    let mem = Bench::new(mem_srv(), "memory", EdgeOrder::Plain, &mut r);
    let rocks = Bench::new(rocks_srv(), "rocksdb", EdgeOrder::LenPrefixed, &mut r);
    fn all<D: Datastore + Send + Sync + 'static>(mut b: Bench<D>, cx: &Ctx, rep: &Report) {
        let s = h64(&(cx.seed, b.label));
        oversized(&mut b, rep);
        defects(&mut b, s ^ 1, cx.dur(40), rep);
        unevaluable(&mut b, s ^ 2, cx.dur(10), rep);
        raw_bytes(&mut b, s ^ 3, cx.dur(25), rep);
        broken_streams(&mut b, s ^ 4, cx.dur(25), rep);
        if !b.s.alive() {
            b.viol(rep, "server-died", "the server stopped".into(), String::new(), s);
        }
    }
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || all(mem, cx, rep)).unwrap();
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || all(rocks, cx, rep)).unwrap();
    });
}
