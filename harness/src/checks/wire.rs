//! C27: the published gRPC interface, spoken by a peer that shares no code with indradb. Messages are put together and
//! taken apart here by hand, from the field numbers of the published interface description; the peer is once the
//! client (of the real server) and once the server (of the real client).
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::grpc::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use indradb::{self as ind, Datastore};
use serde_json::{json, Value};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tonic::transport::Channel;
use tonic::Status;

// ---- bytes -------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum F {
    Int(u64),
    Len(Vec<u8>),
}
type Msg = Vec<(u32, F)>;
fn varint(mut v: u64, o: &mut Vec<u8>) {
    while v >= 0x80 {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
fn put(n: u32, f: &F, o: &mut Vec<u8>) {
    match f {
        F::Int(v) => {
            varint((n as u64) << 3, o);
            varint(*v, o);
        }
        F::Len(b) => {
            varint((n as u64) << 3 | 2, o);
            varint(b.len() as u64, o);
            o.extend_from_slice(b);
        }
    }
}
/// How a peer writes its messages; all of these are the same message.
struct Pen {
    r: Rng,
    style: usize,
    used: [u64; 6],
}
impl Pen {
    fn new(seed: u64, style: usize) -> Pen {
        Pen { r: Rng::new(seed), style, used: [0; 6] }
    }
    /// 0 plain; 1 fields in another order; 2 with fields of later versions; 3 zeros spelled out; 4 all of it
    fn msg(&mut self, mut m: Msg) -> Vec<u8> {
        self.used[self.style] += 1;
        if matches!(self.style, 0 | 1 | 2) {
            m.retain(|(_, f)| !matches!(f, F::Int(0)));
        }
        if matches!(self.style, 1 | 4) && m.len() > 1 {
            // repeated fields keep their order among themselves
            let (mut a, mut b): (Msg, Msg) = (Vec::new(), Vec::new());
            let k = m[self.r.below(m.len())].0;
            for x in m {
                if x.0 == k {
                    a.push(x)
                } else {
                    b.push(x)
                }
            }
            a.extend(b);
            m = a;
        }
        let mut o = Vec::new();
        for (n, f) in &m {
            self.noise(&mut o);
            put(*n, f, &mut o);
        }
        self.noise(&mut o);
        o
    }
    fn noise(&mut self, o: &mut Vec<u8>) {
        if !matches!(self.style, 2 | 4) || !self.r.chance(1, 3) {
            return;
        }
        let n = [100u32, 1000, 19_000 - 1, 536_870_911][self.r.below(4)];
        match self.r.below(4) {
            0 => put(n, &F::Int(self.r.next()), o),
            1 => put(n, &F::Len(vec![7; self.r.below(40)]), o),
            2 => {
                varint((n as u64) << 3 | 5, o);
                o.extend_from_slice(&[1, 2, 3, 4]);
            }
            _ => {
                varint((n as u64) << 3 | 1, o);
                o.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]);
            }
        }
    }
    // ---- the messages of the published interface, by field number ----
    fn text(&mut self, s: &str) -> Vec<u8> {
        // Identifier, Json: string value = 1
        self.msg(vec![(1, F::Len(s.as_bytes().to_vec()))])
    }
    fn uuid(&mut self, u: uuid::Uuid) -> Vec<u8> {
        // Uuid: bytes value = 1
        self.msg(vec![(1, F::Len(u.as_bytes().to_vec()))])
    }
    fn json(&mut self, v: &Value) -> Vec<u8> {
        let s = match self.r.below(4) {
            0 => serde_json::to_string_pretty(v).unwrap(),
            1 => ascii(&v.to_string()),
            2 => format!(" \n{v}\t "),
            _ => v.to_string(),
        };
        self.text(&s)
    }
    fn vertex(&mut self, id: uuid::Uuid, t: &str) -> Vec<u8> {
        let m = vec![(1, F::Len(self.uuid(id))), (2, F::Len(self.text(t)))];
        self.msg(m)
    }
    fn edge(&mut self, o: uuid::Uuid, t: &str, i: uuid::Uuid) -> Vec<u8> {
        let m = vec![(1, F::Len(self.uuid(o))), (2, F::Len(self.text(t))), (3, F::Len(self.uuid(i)))];
        self.msg(m)
    }
    fn ek(&mut self, e: &EK) -> Vec<u8> {
        self.edge(uid(e.o), &e.t, uid(e.i))
    }
    fn query(&mut self, q: &ind::Query) -> Vec<u8> {
        let (n, body): (u32, Vec<u8>) = match q {
            ind::Query::AllVertex => (1, self.msg(vec![])),
            ind::Query::RangeVertex(q) => {
                let mut m = vec![(1, F::Int(q.limit as u64))];
                if let Some(t) = &q.t {
                    m.push((2, F::Len(self.text(t.as_str()))));
                }
                if let Some(s) = q.start_id {
                    m.push((3, F::Len(self.uuid(s))));
                }
                (2, self.msg(m))
            }
            ind::Query::SpecificVertex(q) => {
                let m = q.ids.iter().map(|i| (1, F::Len(self.uuid(*i)))).collect();
                (3, self.msg(m))
            }
            ind::Query::VertexWithPropertyPresence(q) => {
                let m = vec![(1, F::Len(self.text(q.name.as_str())))];
                (4, self.msg(m))
            }
            ind::Query::VertexWithPropertyValue(q) => {
                let m = vec![(1, F::Len(self.text(q.name.as_str()))), (2, F::Len(self.json(&q.value)))];
                (5, self.msg(m))
            }
            ind::Query::AllEdge => (6, self.msg(vec![])),
            ind::Query::SpecificEdge(q) => {
                let m = q.edges.iter().map(|e| (1, F::Len(self.edge(e.outbound_id, e.t.as_str(), e.inbound_id)))).collect();
                (7, self.msg(m))
            }
            ind::Query::EdgeWithPropertyPresence(q) => {
                let m = vec![(1, F::Len(self.text(q.name.as_str())))];
                (8, self.msg(m))
            }
            ind::Query::EdgeWithPropertyValue(q) => {
                let m = vec![(1, F::Len(self.text(q.name.as_str()))), (2, F::Len(self.json(&q.value)))];
                (9, self.msg(m))
            }
            ind::Query::Pipe(q) => {
                let d = match q.direction {
                    ind::EdgeDirection::Outbound => 0,
                    ind::EdgeDirection::Inbound => 1,
                };
                let mut m = vec![(1, F::Len(self.query(&q.inner))), (2, F::Int(d)), (3, F::Int(q.limit as u64))];
                if let Some(t) = &q.t {
                    m.push((4, F::Len(self.text(t.as_str()))));
                }
                (10, self.msg(m))
            }
            ind::Query::PipeProperty(q) => {
                let mut m = vec![(1, F::Len(self.query(&q.inner)))];
                if let Some(n) = &q.name {
                    m.push((2, F::Len(self.text(n.as_str()))));
                }
                (11, self.msg(m))
            }
            ind::Query::PipeWithPropertyPresence(q) => {
                let m = vec![(1, F::Len(self.query(&q.inner))), (2, F::Len(self.text(q.name.as_str()))), (3, F::Int(q.exists as u64))];
                (12, self.msg(m))
            }
            ind::Query::PipeWithPropertyValue(q) => {
                let m = vec![(1, F::Len(self.query(&q.inner))), (2, F::Len(self.text(q.name.as_str()))), (3, F::Len(self.json(&q.value))), (4, F::Int(q.equal as u64))];
                (13, self.msg(m))
            }
            ind::Query::Include(q) => {
                let m = vec![(1, F::Len(self.query(&q.inner)))];
                (14, self.msg(m))
            }
            ind::Query::Count(q) => {
                let m = vec![(1, F::Len(self.query(&q.inner)))];
                (15, self.msg(m))
            }
        };
        self.msg(vec![(n, F::Len(body))])
    }
    fn item(&mut self, i: &Item) -> Vec<u8> {
        let (n, b) = match i {
            Item::V(id, t) => (1, self.vertex(uid(*id), t)),
            Item::E(e) => (2, self.ek(e)),
            Item::VP(id, n, v) => {
                let m = vec![(1, F::Len(self.uuid(uid(*id)))), (4, F::Len(self.text(n))), (3, F::Len(self.json(v)))];
                (3, self.msg(m))
            }
            Item::EP(e, n, v) => {
                let m = vec![(1, F::Len(self.ek(e))), (4, F::Len(self.text(n))), (3, F::Len(self.json(v)))];
                (4, self.msg(m))
            }
        };
        self.msg(vec![(n, F::Len(b))])
    }
    fn props(&mut self, ps: &[(String, Value)]) -> Msg {
        ps.iter()
            .map(|(n, v)| {
                // NamedProperty: name = 3, value = 2
                let m = vec![(3, F::Len(self.text(n))), (2, F::Len(self.json(v)))];
                (2, F::Len(self.msg(m)))
            })
            .collect()
    }
    fn out(&mut self, o: &Out) -> Vec<u8> {
        let (n, f) = match o {
            Out::V(v) => {
                let m = v.iter().map(|(i, t)| (1, F::Len(self.vertex(uid(*i), t)))).collect();
                (1, F::Len(self.msg(m)))
            }
            Out::E(v) => {
                let m = v.iter().map(|e| (1, F::Len(self.ek(e)))).collect();
                (2, F::Len(self.msg(m)))
            }
            // a set member of a oneof is written even if it is zero
            Out::C(0) => {
                let mut o = Vec::new();
                put(3, &F::Int(0), &mut o);
                return o;
            }
            Out::C(n) => (3, F::Int(*n)),
            Out::VP(v) => {
                let m = v
                    .iter()
                    .map(|((i, t), ps)| {
                        let mut m = vec![(1, F::Len(self.vertex(uid(*i), t)))];
                        m.extend(self.props(ps));
                        (1, F::Len(self.msg(m)))
                    })
                    .collect();
                (4, F::Len(self.msg(m)))
            }
            Out::EP(v) => {
                let m = v
                    .iter()
                    .map(|(e, ps)| {
                        let mut m = vec![(1, F::Len(self.ek(e)))];
                        m.extend(self.props(ps));
                        (1, F::Len(self.msg(m)))
                    })
                    .collect();
                (5, F::Len(self.msg(m)))
            }
        };
        self.msg(vec![(n, f)])
    }
}
fn ascii(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii() {
            o.push(c);
        } else {
            for u in c.encode_utf16(&mut [0; 2]) {
                o.push_str(&format!("\\u{u:04X}"));
            }
        }
    }
    o
}
// ---- taking messages apart ---------------------------------------------------------
type P<T> = Result<T, String>;
fn rd_varint(b: &mut &[u8]) -> P<u64> {
    let mut v = 0u64;
    for k in 0..10 {
        let Some((x, rest)) = b.split_first() else { return Err("truncated number".into()) };
        *b = rest;
        v |= ((x & 0x7f) as u64) << (7 * k);
        if x & 0x80 == 0 {
            return Ok(v);
        }
    }
    Err("number too long".into())
}
fn parse(mut b: &[u8]) -> P<Vec<(u32, F)>> {
    let mut v = Vec::new();
    while !b.is_empty() {
        let k = rd_varint(&mut b)?;
        let n = (k >> 3) as u32;
        match k & 7 {
            0 => v.push((n, F::Int(rd_varint(&mut b)?))),
            2 => {
                let l = rd_varint(&mut b)? as usize;
                if l > b.len() {
                    return Err(format!("field {n} is truncated"));
                }
                v.push((n, F::Len(b[..l].to_vec())));
                b = &b[l..];
            }
            w @ (1 | 5) => {
                let l = if w == 1 { 8 } else { 4 };
                if l > b.len() {
                    return Err(format!("field {n} is truncated"));
                }
                b = &b[l..];
            }
            w => return Err(format!("field {n} has wire type {w}")),
        }
    }
    Ok(v)
}
fn len(m: &Msg, n: u32) -> P<Vec<u8>> {
    opt(m, n)?.ok_or_else(|| format!("field {n} is missing in {m:?}"))
}
fn opt(m: &Msg, n: u32) -> P<Option<Vec<u8>>> {
    match m.iter().rev().find(|x| x.0 == n) {
        Some((_, F::Len(b))) => Ok(Some(b.clone())),
        Some((_, F::Int(_))) => Err(format!("field {n} is a number")),
        None => Ok(None),
    }
}
fn int(m: &Msg, n: u32) -> P<u64> {
    match m.iter().rev().find(|x| x.0 == n) {
        Some((_, F::Int(v))) => Ok(*v),
        Some(_) => Err(format!("field {n} is not a number")),
        None => Ok(0),
    }
}
fn all(m: &Msg, n: u32) -> P<Vec<Vec<u8>>> {
    m.iter()
        .filter(|x| x.0 == n)
        .map(|x| match &x.1 {
            F::Len(b) => Ok(b.clone()),
            _ => Err(format!("field {n} is a number")),
        })
        .collect()
}
fn p_text(b: &[u8]) -> P<String> {
    String::from_utf8(opt(&parse(b)?, 1)?.unwrap_or_default()).map_err(|e| e.to_string())
}
fn p_uuid(b: &[u8]) -> P<Id> {
    let v = len(&parse(b)?, 1)?;
    let a: [u8; 16] = v.as_slice().try_into().map_err(|_| format!("an id of {} bytes", v.len()))?;
    Ok(u128::from_be_bytes(a))
}
fn p_json(b: &[u8]) -> P<Value> {
    let s = p_text(b)?;
    serde_json::from_str(&s).map_err(|e| format!("{e} in {s:?}"))
}
fn p_vertex(b: &[u8]) -> P<(Id, String)> {
    let m = parse(b)?;
    Ok((p_uuid(&len(&m, 1)?)?, p_text(&len(&m, 2)?)?))
}
fn p_edge(b: &[u8]) -> P<EK> {
    let m = parse(b)?;
    Ok(EK { o: p_uuid(&len(&m, 1)?)?, t: p_text(&len(&m, 2)?)?, i: p_uuid(&len(&m, 3)?)? })
}
fn p_props(m: &Msg) -> P<Vec<(String, Value)>> {
    let mut v = all(m, 2)?
        .iter()
        .map(|b| {
            let m = parse(b)?;
            Ok((p_text(&len(&m, 3)?)?, p_json(&len(&m, 2)?)?))
        })
        .collect::<P<Vec<_>>>()?;
    v.sort_by(|a, b| a.0.cmp(&b.0));
    Ok(v)
}
fn p_out(b: &[u8]) -> P<Out> {
    let m = parse(b)?;
    let Some((n, f)) = m.iter().rev().find(|x| (1..=5).contains(&x.0)) else { return Err(format!("no output in {m:?}")) };
    Ok(match (n, f) {
        (3, F::Int(n)) => Out::C(*n),
        (1, F::Len(b)) => Out::V(all(&parse(b)?, 1)?.iter().map(|b| p_vertex(b)).collect::<P<_>>()?),
        (2, F::Len(b)) => Out::E(all(&parse(b)?, 1)?.iter().map(|b| p_edge(b)).collect::<P<_>>()?),
        (4, F::Len(b)) => Out::VP(
            all(&parse(b)?, 1)?
                .iter()
                .map(|b| {
                    let m = parse(b)?;
                    Ok((p_vertex(&len(&m, 1)?)?, p_props(&m)?))
                })
                .collect::<P<_>>()?,
        ),
        (5, F::Len(b)) => Out::EP(
            all(&parse(b)?, 1)?
                .iter()
                .map(|b| {
                    let m = parse(b)?;
                    Ok((p_edge(&len(&m, 1)?)?, p_props(&m)?))
                })
                .collect::<P<_>>()?,
        ),
        _ => return Err(format!("output field {n} has the wrong type")),
    })
}
fn p_query(b: &[u8]) -> P<Q> {
    let m = parse(b)?;
    let Some((n, F::Len(b))) = m.iter().rev().find(|x| (1..=15).contains(&x.0)) else { return Err(format!("no query in {m:?}")) };
    let m = parse(b)?;
    let inner = || -> P<Box<Q>> { Ok(Box::new(p_query(&len(&m, 1)?)?)) };
    let text = |n: u32| -> P<String> { p_text(&len(&m, n)?) };
    let otext = |n: u32| -> P<Option<String>> { opt(&m, n)?.map(|b| p_text(&b)).transpose() };
    Ok(match n {
        1 => Q::AllV,
        2 => Q::RangeV { limit: int(&m, 1)? as u32, t: otext(2)?, start: opt(&m, 3)?.map(|b| p_uuid(&b)).transpose()? },
        3 => Q::SpecV(all(&m, 1)?.iter().map(|b| p_uuid(b)).collect::<P<_>>()?),
        4 => Q::VHas(text(1)?),
        5 => Q::VVal(text(1)?, p_json(&len(&m, 2)?)?),
        6 => Q::AllE,
        7 => Q::SpecE(all(&m, 1)?.iter().map(|b| p_edge(b)).collect::<P<_>>()?),
        8 => Q::EHas(text(1)?),
        9 => Q::EVal(text(1)?, p_json(&len(&m, 2)?)?),
        10 => Q::Pipe {
            inner: inner()?,
            dir: match int(&m, 2)? {
                0 => Dir::Out,
                1 => Dir::In,
                d => return Err(format!("direction {d}")),
            },
            limit: int(&m, 3)? as u32,
            t: otext(4)?,
        },
        11 => Q::Props { inner: inner()?, name: otext(2)? },
        12 => Q::Has { inner: inner()?, name: text(2)?, exists: int(&m, 3)? == 1 },
        13 => Q::Val { inner: inner()?, name: text(2)?, value: p_json(&len(&m, 3)?)?, equal: int(&m, 4)? == 1 },
        14 => Q::Incl(inner()?),
        _ => Q::Count(inner()?),
    })
}
fn p_item(b: &[u8]) -> P<Item> {
    let m = parse(b)?;
    let Some((n, F::Len(b))) = m.iter().rev().find(|x| (1..=4).contains(&x.0)) else { return Err(format!("no item in {m:?}")) };
    Ok(match n {
        1 => {
            let (i, t) = p_vertex(b)?;
            Item::V(i, t)
        }
        2 => Item::E(p_edge(b)?),
        3 => {
            let m = parse(b)?;
            Item::VP(p_uuid(&len(&m, 1)?)?, p_text(&len(&m, 4)?)?, p_json(&len(&m, 3)?)?)
        }
        _ => {
            let m = parse(b)?;
            Item::EP(p_edge(&len(&m, 1)?)?, p_text(&len(&m, 4)?)?, p_json(&len(&m, 3)?)?)
        }
    })
}
// ---- the foreign client ------------------------------------------------------------
pub struct RawCodec;
pub struct RawEnc;
pub struct RawDec;
impl tonic::codec::Encoder for RawEnc {
    type Item = Vec<u8>;
    type Error = Status;
    fn encode(&mut self, item: Vec<u8>, dst: &mut tonic::codec::EncodeBuf<'_>) -> Result<(), Status> {
        use prost::bytes::BufMut;
        dst.put_slice(&item);
        Ok(())
    }
}
impl tonic::codec::Decoder for RawDec {
    type Item = Vec<u8>;
    type Error = Status;
    fn decode(&mut self, src: &mut tonic::codec::DecodeBuf<'_>) -> Result<Option<Vec<u8>>, Status> {
        use prost::bytes::Buf;
        let n = src.remaining();
        Ok(Some(src.copy_to_bytes(n).to_vec()))
    }
}
impl tonic::codec::Codec for RawCodec {
    type Encode = Vec<u8>;
    type Decode = Vec<u8>;
    type Encoder = RawEnc;
    type Decoder = RawDec;
    fn encoder(&mut self) -> RawEnc {
        RawEnc
    }
    fn decoder(&mut self) -> RawDec {
        RawDec
    }
}
struct Foreign {
    ch: Channel,
    pen: Mutex<Pen>,
}
impl Foreign {
    fn connect(addr: SocketAddr, seed: u64, style: usize) -> Foreign {
        let ch = rt().block_on(async {
            for _ in 0..200 {
                if let Ok(c) = endpoint(addr).connect().await {
                    return c;
                }
                tokio::time::sleep(Duration::from_millis(20)).await;
            }
            panic!("cannot connect to {addr}")
        });
        Foreign { ch, pen: Mutex::new(Pen::new(seed, style)) }
    }
    fn call(&self, method: &str, msgs: Vec<Vec<u8>>) -> Result<Vec<Vec<u8>>, Status> {
        let ch = self.ch.clone();
        let path = tonic::codegen::http::uri::PathAndQuery::try_from(format!("/indradb.IndraDB/{method}")).unwrap();
        let fut = async move {
            let mut g = tonic::client::Grpc::new(ch).max_decoding_message_size(usize::MAX);
            g.ready().await.map_err(|e| Status::unavailable(e.to_string()))?;
            let mut s = g.streaming(tonic::Request::new(tokio_stream::iter(msgs)), path, RawCodec).await?.into_inner();
            let mut v = Vec::new();
            while let Some(m) = s.message().await? {
                v.push(m);
            }
            Ok(v)
        };
        rt().block_on(async {
            match tokio::time::timeout(PATIENCE, tokio::spawn(fut)).await {
                Err(_) => Err(Status::deadline_exceeded("no answer within 60 s")),
                Ok(Err(j)) => Err(Status::aborted(j.to_string())),
                Ok(Ok(x)) => x,
            }
        })
    }
    fn unary(&self, method: &str, f: impl FnOnce(&mut Pen) -> Vec<u8>) -> R<Msg> {
        let m = f(&mut self.pen.lock().unwrap());
        match self.call(method, vec![m]) {
            Ok(v) if v.len() == 1 => parse(&v[0]).map_err(E::Panic),
            Ok(v) => Err(E::Panic(format!("{} answers to one {method}", v.len()))),
            Err(s) => Err(status(method, s)),
        }
    }
}
/// Unknown methods and the like are no answer at all.
fn status(method: &str, s: Status) -> E {
    match s.code() {
        tonic::Code::Unimplemented | tonic::Code::DeadlineExceeded | tonic::Code::Aborted | tonic::Code::Unavailable => E::Panic(format!("{method}: {s}")),
        _ => E::Other(s.message().to_string()),
    }
}
impl Db for Foreign {
    fn create_vertex(&self, id: Id, t: &str) -> R<bool> {
        let m = self.unary("CreateVertex", |p| p.vertex(uid(id), t))?;
        int(&m, 1).map(|x| x == 1).map_err(E::Panic)
    }
    fn create_vertex_t(&self, t: &str) -> R<Id> {
        let m = self.unary("CreateVertexFromType", |p| p.text(t))?;
        let b = len(&m, 1).map_err(E::Panic)?;
        Ok(u128::from_be_bytes(b.as_slice().try_into().map_err(|_| E::Panic(format!("an id of {} bytes", b.len())))?))
    }
    fn create_edge(&self, e: &EK) -> R<bool> {
        let m = self.unary("CreateEdge", |p| p.ek(e))?;
        int(&m, 1).map(|x| x == 1).map_err(E::Panic)
    }
    fn get(&self, q: ind::Query) -> R<Vec<Out>> {
        let m = self.pen.lock().unwrap().query(&q);
        match self.call("Get", vec![m]) {
            Ok(v) => v.iter().map(|b| p_out(b).map_err(E::Panic)).collect(),
            Err(s) => Err(status("Get", s)),
        }
    }
    fn delete(&self, q: ind::Query) -> R<()> {
        self.unary("Delete", |p| p.query(&q)).map(|_| ())
    }
    fn set(&self, q: ind::Query, name: &str, v: &Value) -> R<()> {
        self.unary("SetProperties", |p| {
            let m = vec![(1, F::Len(p.query(&q))), (2, F::Len(p.text(name))), (3, F::Len(p.json(v)))];
            p.msg(m)
        })
        .map(|_| ())
    }
    fn bulk(&self, items: &[Item]) -> R<()> {
        let ms: Vec<Vec<u8>> = {
            let mut p = self.pen.lock().unwrap();
            items.iter().map(|i| p.item(i)).collect()
        };
        match self.call("BulkInsert", ms) {
            Ok(v) if v.len() == 1 => Ok(()),
            Ok(v) => Err(E::Panic(format!("{} answers to one BulkInsert", v.len()))),
            Err(s) => Err(status("BulkInsert", s)),
        }
    }
    fn index(&self, name: &str) -> R<()> {
        self.unary("IndexProperty", |p| {
            let m = vec![(1, F::Len(p.text(name)))];
            p.msg(m)
        })
        .map(|_| ())
    }
    fn sync(&self) -> R<()> {
        self.unary("Sync", |p| p.msg(vec![])).map(|_| ())
    }
    fn raw(&self) -> R<Option<RawDump>> {
        Ok(None)
    }
    fn range_v(&self, _: Id) -> R<Option<Vec<Id>>> {
        Ok(None)
    }
    fn range_e(&self, _: &EK, _: bool) -> R<Option<Vec<EK>>> {
        Ok(None)
    }
}
// ---- the foreign server ------------------------------------------------------------
struct Hall {
    db: Box<dyn Db>,
    pen: Mutex<Pen>,
    calls: Mutex<std::collections::BTreeMap<String, u64>>,
    /// requests that are not messages of the published interface
    odd: Mutex<Vec<String>>,
    /// after how many outputs of a query the server gives up
    cut: Mutex<Option<usize>>,
    /// milliseconds until the first message of a call is looked at, and until the answer is sent
    slow: AtomicUsize,
}
#[derive(Clone)]
struct House(Arc<Hall>);
#[derive(Clone)]
struct Door(Arc<Hall>, String);
impl tonic::server::NamedService for House {
    const NAME: &'static str = "indradb.IndraDB";
}
type Body = tonic::body::BoxBody;
impl tonic::codegen::Service<tonic::codegen::http::Request<Body>> for House {
    type Response = tonic::codegen::http::Response<Body>;
    type Error = std::convert::Infallible;
    type Future = tonic::codegen::BoxFuture<Self::Response, Self::Error>;
    fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), Self::Error>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn call(&mut self, req: tonic::codegen::http::Request<Body>) -> Self::Future {
        let method = req.uri().path().rsplit('/').next().unwrap_or_default().to_string();
        let door = Door(self.0.clone(), method);
        Box::pin(async move {
            let mut g = tonic::server::Grpc::new(RawCodec).max_decoding_message_size(usize::MAX);
            Ok(g.streaming(door, req).await)
        })
    }
}
impl tonic::codegen::Service<tonic::Request<tonic::Streaming<Vec<u8>>>> for Door {
    type Response = tonic::Response<std::pin::Pin<Box<dyn tokio_stream::Stream<Item = Result<Vec<u8>, Status>> + Send>>>;
    type Error = Status;
    type Future = tonic::codegen::BoxFuture<Self::Response, Self::Error>;
    fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), Self::Error>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn call(&mut self, req: tonic::Request<tonic::Streaming<Vec<u8>>>) -> Self::Future {
        let (hall, method) = (self.0.clone(), self.1.clone());
        Box::pin(async move {
            let mut s = req.into_inner();
            let mut msgs = Vec::new();
            let slow = std::time::Duration::from_millis(hall.slow.load(Ordering::SeqCst) as u64);
            while let Some(m) = s.message().await? {
                if msgs.is_empty() && !slow.is_zero() {
                    tokio::time::sleep(slow).await;
                }
                msgs.push(m);
            }
            if !slow.is_zero() {
                tokio::time::sleep(slow / 4).await;
            }
            let cut = hall.cut.lock().unwrap().filter(|_| method == "Get");
            let outs = tokio::task::spawn_blocking(move || hall.serve(&method, msgs)).await.map_err(|e| Status::internal(e.to_string()))??;
            if let Some(n) = cut {
                let some: Vec<_> = outs.into_iter().take(n).map(Ok).chain(std::iter::once(Err(Status::internal("given up")))).collect();
                let s: std::pin::Pin<Box<dyn tokio_stream::Stream<Item = Result<Vec<u8>, Status>> + Send>> = Box::pin(tokio_stream::iter(some));
                return Ok(tonic::Response::new(s));
            }
            let s: std::pin::Pin<Box<dyn tokio_stream::Stream<Item = Result<Vec<u8>, Status>> + Send>> = Box::pin(tokio_stream::iter(outs.into_iter().map(Ok)));
            Ok(tonic::Response::new(s))
        })
    }
}
impl Hall {
    fn serve(&self, method: &str, msgs: Vec<Vec<u8>>) -> Result<Vec<Vec<u8>>, Status> {
        *self.calls.lock().unwrap().entry(method.to_string()).or_insert(0) += 1;
        match self.answer(method, msgs) {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(Status::internal(match e {
                E::Other(s) => s,
                E::NotIndexed => "query attempted on a property that isn't indexed".into(),
                e => format!("{e:?}"),
            })),
            Err(s) => {
                self.odd.lock().unwrap().push(format!("{method}: {s}"));
                Err(Status::invalid_argument(s))
            }
        }
    }
    /// Outer error: the request is not what the interface describes.
    fn answer(&self, method: &str, msgs: Vec<Vec<u8>>) -> P<R<Vec<Vec<u8>>>> {
        if method != "BulkInsert" && msgs.len() != 1 {
            return Err(format!("{} messages", msgs.len()));
        }
        let empty = |r: R<()>| r.map(|_| vec![self.pen.lock().unwrap().msg(vec![])]);
        let created = |r: R<bool>| r.map(|b| vec![self.pen.lock().unwrap().msg(vec![(1, F::Int(b as u64))])]);
        Ok(match method {
            "Ping" => parse(&msgs[0]).map(|_| empty(Ok(())))?,
            "Sync" => parse(&msgs[0]).map(|_| empty(Ok(())))?,
            "CreateVertex" => {
                let (i, t) = p_vertex(&msgs[0])?;
                created(self.db.create_vertex(i, &t))
            }
            "CreateVertexFromType" => {
                let t = p_text(&msgs[0])?;
                self.db.create_vertex_t(&t).map(|i| vec![self.pen.lock().unwrap().uuid(uid(i))])
            }
            "CreateEdge" => created(self.db.create_edge(&p_edge(&msgs[0])?)),
            "Get" => {
                let q = p_query(&msgs[0])?;
                self.db.get(q.raw()).map(|v| {
                    let mut p = self.pen.lock().unwrap();
                    v.iter().map(|o| p.out(o)).collect()
                })
            }
            "Delete" => empty(self.db.delete(p_query(&msgs[0])?.raw())),
            "SetProperties" => {
                let m = parse(&msgs[0])?;
                empty(self.db.set(p_query(&len(&m, 1)?)?.raw(), &p_text(&len(&m, 2)?)?, &p_json(&len(&m, 3)?)?))
            }
            "BulkInsert" => {
                let items = msgs.iter().map(|m| p_item(m)).collect::<P<Vec<_>>>()?;
                empty(self.db.bulk(&items))
            }
            "IndexProperty" => empty(self.db.index(&p_text(&len(&parse(&msgs[0])?, 1)?)?)),
            "ExecutePlugin" => {
                // answers with the name and the argument
                let m = parse(&msgs[0])?;
                let n = String::from_utf8(opt(&m, 1)?.unwrap_or_default()).map_err(|e| e.to_string())?;
                let v = opt(&m, 2)?.map(|b| p_json(&b)).transpose()?;
                if n == "\u{1}none" {
                    return Ok(Ok(vec![vec![]]));
                }
                let mut p = self.pen.lock().unwrap();
                let j = p.json(&json!([n, v]));
                Ok(vec![p.msg(vec![(1, F::Len(j))])])
            }
            m => return Err(format!("there is no method {m}")),
        })
    }
}
// ---- histories ---------------------------------------------------------------------
fn weights() -> Weights {
    Weights { create_v: 10, create_vt: 3, create_e: 14, bulk: 8, set: 14, del_elems: 6, del_props: 5, index: 3, get: 40, sync: 1, reopen: 0, wild: 2, depth: 5 }
}
#[allow(clippy::too_many_arguments)]
fn history(label: &str, d: &dyn Db, direct: Option<&dyn Db>, order: EdgeOrder, seed: u64, n: usize, rep: &Report, odd: &dyn Fn() -> Option<String>) -> bool {
    crate::progress::doing(&format!("C27 {label} history seed {seed}"));
    let mut r = Rng::new(seed);
    let p = Pools::new(&mut r, 7, 4, 3, 6);
    let mut m = Model::new(order);
    let mut log: Vec<Op> = Vec::new();
    let fail = |log: &[Op], what: String| {
        let last = log.last().map(opname).unwrap_or_default();
        let k = last.split(':').next().unwrap_or("").split('[').next().unwrap_or("").to_string();
        rep.violation(
            &format!("C27:{label}:{k}"),
            format!("[{label}] step {} {}: {what}", log.len(), log.last().map(short).unwrap_or_default()),
            format!("{label} seed {seed}\n{what}\n{}", log.iter().enumerate().map(|(i, o)| format!("{i:4} {}\n", short(o))).collect::<String>()),
        );
        false
    };
    for k in 0..n {
        let op = gen_op(&p, &mut r, &m, &weights());
        log.push(op.clone());
        match step_db(d, &mut m, &op, rep, r.chance(1, 3)) {
            Ok(true) => {
                rep.eval(1);
                rep.distinct(&(label.split(' ').next(), opname(&op), m.v.len().min(3), m.e.len().min(4), m.ix.len().min(2)));
            }
            Ok(false) => {
                log.pop();
            }
            Err(e) => return fail(&log, e),
        }
        if let Some(s) = odd() {
            return fail(&log, format!("the client sent something that is not in the published interface: {s}"));
        }
        if k % 20 == 19 || k + 1 == n {
            if let Err(e) = audit(d, &m, true) {
                return fail(&log, e);
            }
            if let Some(Err(e)) = direct.map(|x| audit(x, &m, true)) {
                return fail(&log, format!("seen directly: {e}"));
            }
            rep.count("full_audits", 1);
        }
    }
    rep.count(&format!("histories_{}", label.split(' ').next().unwrap_or("")), 1);
    rep.distinct(&("state", model_hash(&m)));
    true
}
fn foreign_client<D: Datastore + Send + Sync + 'static>(s: &Srv<D>, order: EdgeOrder, label: &str, style: usize, seed: u64, rep: &Report) {
    let f = Foreign::connect(s.addr, seed, style);
    if let Err(e) = f.unary("Ping", |p| p.msg(vec![])) {
        rep.violation(&format!("C27:{label}:ping"), format!("[{label}] Ping: {e:?}"), format!("seed {seed}"));
        return;
    }
    let (a, n) = {
        let mut p = f.pen.lock().unwrap();
        (p.json(&json!(1)), b"no such plugin".to_vec())
    };
    let m = f.pen.lock().unwrap().msg(vec![(1, F::Len(n)), (2, F::Len(a))]);
    match f.call("ExecutePlugin", vec![m]) {
        Err(e) if e.code() == tonic::Code::NotFound => {}
        x => {
            rep.violation(&format!("C27:{label}:plugin"), format!("[{label}] an unknown plugin: {x:?}"), format!("seed {seed}"));
            return;
        }
    }
    history(label, &f, Some(&*s.db), order, seed, 140, rep, &|| None);
    for (k, n) in f.pen.lock().unwrap().used.iter().enumerate() {
        if *n > 0 {
            rep.count(&format!("messages_written_style_{k}"), *n);
        }
    }
}
fn foreign_server(seed: u64, style: usize, rep: &Report) {
    let label = "real-client";
    let hall = Arc::new(Hall { db: Box::new(ind::MemoryDatastore::new_db()), pen: Mutex::new(Pen::new(seed, style)), calls: Mutex::default(), odd: Mutex::default(), cut: Mutex::default(), slow: AtomicUsize::new(0) });
    let l = srt().block_on(tokio::net::TcpListener::bind("127.0.0.1:0")).expect("bind");
    let addr = l.local_addr().unwrap();
    let h2 = House(hall.clone());
    let task = srt().spawn(async move {
        use tokio_stream::StreamExt;
        let incoming = tokio_stream::wrappers::TcpListenerStream::new(l).map(|s| {
            if let Ok(s) = &s {
                let _ = s.set_nodelay(true);
            }
            s
        });
        let _ = tonic::transport::Server::builder().add_service(h2).serve_with_incoming(incoming).await;
    });
    let c = Grpc::connect(addr);
    let mut r = Rng::new(seed ^ 5);
    let odd = || hall.odd.lock().unwrap().first().cloned();
    let ok = history(label, &c, None, EdgeOrder::Plain, seed, 140, rep, &odd);
    if ok {
        for _ in 0..6 {
            let name = rand_string(&mut r);
            let arg = special_values()[r.below(special_values().len())].clone();
            let text = serde_json::to_string(&arg).unwrap();
            if serde_json::from_str::<Value>(&text).ok().as_ref() != Some(&arg) {
                continue;
            }
            let (n2, a2) = (name.clone(), js(&arg));
            let got = c.call(|mut c| async move { c.execute_plugin(&n2, a2).await });
            rep.eval(1);
            match got {
                Ok(v) if same(&v, &json!([name, arg])) => {}
                x => {
                    let x = format!("{:?}", x.map(|v| (*v).clone()));
                    rep.violation("C27:real-client:plugin", format!("[{label}] execute_plugin({name:?}, {}) gave {}, odd {:?}", short(&arg), short(&x), odd()), format!("seed {seed}"));
                    break;
                }
            }
        }
        // an answer that breaks off is not an answer
        for n in 0..4 {
            let mut q = Q::Incl(Box::new(Q::AllV));
            for k in 0..r.below(5) {
                q = Q::Incl(Box::new(Q::Pipe { inner: Box::new(q), dir: if k % 2 == 0 { Dir::Out } else { Dir::In }, limit: 9, t: None }));
            }
            *hall.cut.lock().unwrap() = Some(n);
            let got = c.get(q.raw());
            *hall.cut.lock().unwrap() = None;
            rep.eval(1);
            rep.count("answers_broken_off", 1);
            match got {
                Err(E::Panic(s)) => rep.violation("C27:real-client:cut", format!("[{label}] the client panicked on an answer that breaks off: {s}"), format!("seed {seed}")),
                Err(_) => {}
                Ok(o) => {
                    rep.violation("C27:real-client:cut", format!("[{label}] the server gave up after {n} outputs of {q:?}, the client returned {}", short(&o)), format!("seed {seed}"));
                    break;
                }
            }
        }
        // the absence of a value is no value
        let got = c.call(|mut c| async move { c.execute_plugin("\u{1}none", js(&json!(1))).await });
        rep.eval(1);
        if !matches!(&got, Ok(v) if **v == Value::Null) {
            rep.violation("C27:real-client:plugin", format!("[{label}] a plugin's answer without a value: {:?}", got.map(|v| (*v).clone())), format!("seed {seed}"));
        }
        // a server that takes its time is waited for
        if style == 0 || r.chance(1, 4) {
            let ids: Vec<Id> = (0..2500).map(|_| r.u128()).collect();
            let items: Vec<Item> = ids.iter().flat_map(|i| [Item::V(*i, "slow".into()), Item::VP(*i, "slow".into(), json!("s".repeat(300)))]).collect();
            hall.slow.store(r.range(700, 1500), Ordering::SeqCst);
            let said = c.bulk(&items);
            let got = c.get(Q::Count(Box::new(Q::RangeV { limit: u32::MAX, t: Some("slow".into()), start: None })).raw());
            hall.slow.store(0, Ordering::SeqCst);
            rep.eval(2);
            rep.count("slow_answers_waited_for", 2);
            if said.is_err() || !matches!(got.as_deref(), Ok([Out::C(n)]) if *n == ids.len() as u64) {
                rep.violation("C27:real-client:slow", format!("[{label}] {} items sent to a server that takes its time: {said:?}, of the {} vertices: {got:?}", items.len(), ids.len()), format!("seed {seed}"));
            }
        }
        if let Err(e) = c.call(|mut c| async move { c.ping().await }) {
            rep.violation("C27:real-client:ping", format!("[{label}] ping: {e:?}"), format!("seed {seed}"));
        }
    }
    for (m, n) in hall.calls.lock().unwrap().iter() {
        rep.count(&format!("client_called_{m}"), *n);
    }
    task.abort();
}
pub fn c27(cx: &Ctx, rep: &Report) {
    let (t0, next) = (Instant::now(), AtomicUsize::new(0));
    std::thread::scope(|s| {
        for _ in 0..cx.threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if t0.elapsed() > cx.dur(92) || rep.nviol() >= 6 {
                        return;
                    }
                    let seed = h64(&(cx.seed, "c27", k));
                    let style = (k / 3) % 5;
                    match k % 3 {
                        0 => foreign_client(&mem_srv(), EdgeOrder::Plain, "foreign-client-memory", style, seed, rep),
                        1 => foreign_client(&rocks_srv(), EdgeOrder::LenPrefixed, "foreign-client-rocksdb", style, seed, rep),
                        _ => foreign_server(seed, style, rep),
                    }
                })
                .unwrap();
        }
    });
}
