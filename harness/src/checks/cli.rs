//! C23 (and the server half of C22): the shipped binaries, run as processes.
use super::Ctx;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::grpc::*;
use crate::model::*;
use crate::report::*;
use crate::rng::Rng;
use crate::types::*;
use indradb as ind;
use serde_json::{json, Value};
use std::ffi::{OsStr, OsString};
use std::io::{BufRead, BufReader, Read};
use std::net::SocketAddr;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::mpsc;
use std::time::{Duration, Instant};

fn bin(n: &str) -> PathBuf {
    PathBuf::from(std::env::var("VH_TARGET").unwrap_or_else(|_| "/verif/target".into())).join("srv/debug").join(n)
}
fn dies_with_us(c: &mut Command) -> &mut Command {
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL, 0, 0, 0);
            Ok(())
        })
    }
}

// ---------------------------------------------------------------- the server as a process
pub struct Proc {
    child: Child,
    pub addr: SocketAddr,
    pub grpc: Grpc,
    err: std::thread::JoinHandle<String>,
}
#[derive(Debug)]
pub enum Start {
    /// exit code, standard output, standard error
    Exited(Option<i32>, String, String),
    Silent(String),
}
pub fn start(args: &[OsString], cwd: &Path) -> Result<Proc, Start> {
    let mut c = Command::new(bin("indradb-server"));
    c.args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut child = dies_with_us(&mut c).spawn().expect("spawn the server");
    let out = child.stdout.take().unwrap();
    let mut e = child.stderr.take().unwrap();
    let err = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = e.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines().map_while(Result::ok) {
            let _ = tx.send(l);
        }
    });
    let mut said = String::new();
    let t0 = Instant::now();
    loop {
        match rx.recv_timeout(Duration::from_millis(100)) {
            Ok(l) => {
                if let Some(a) = l.strip_prefix("grpc://").and_then(|a| a.parse::<SocketAddr>().ok()) {
                    // it accepts connections once it serves
                    for _ in 0..600 {
                        // (the kernel accepts connections before that: only an answer counts)
                        let c = rt().block_on(async {
                            let mut c = indradb_proto::Client::new(endpoint(a)).await.ok()?;
                            tokio::time::timeout(PATIENCE, c.ping()).await.ok()?.ok()?;
                            Some(c)
                        });
                        if let Some(c) = c {
                            return Ok(Proc { child, addr: a, grpc: Grpc { c }, err });
                        }
                        if let Ok(Some(s)) = child.try_wait() {
                            return Err(Start::Exited(s.code(), said + &l, err.join().unwrap_or_default()));
                        }
                        std::thread::sleep(Duration::from_millis(20));
                    }
                    let _ = child.kill();
                    let _ = child.wait();
                    return Err(Start::Silent(format!("announced {l:?} but does not accept connections")));
                }
                said += &l;
                said.push('\n');
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => {
                let s = child.wait().unwrap();
                return Err(Start::Exited(s.code(), said, err.join().unwrap_or_default()));
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
        }
        if t0.elapsed() > PATIENCE {
            let _ = child.kill();
            let _ = child.wait();
            return Err(Start::Silent(format!("said {said:?} and nothing more for a minute")));
        }
        crate::progress::tick();
    }
}
impl Proc {
    /// Ends it; its standard error.
    pub fn end(mut self, sig: i32) -> String {
        unsafe { libc::kill(self.child.id() as i32, sig) };
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(10) {
            if let Ok(Some(_)) = self.child.try_wait() {
                return self.err.join().unwrap_or_default();
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.err.join().unwrap_or_default()
    }
}
fn os(a: &[&str]) -> Vec<OsString> {
    a.iter().map(OsString::from).collect()
}

// ---------------------------------------------------------------- the client as a process
pub struct Ran {
    ok: bool,
    signal: Option<i32>,
    out: String,
    err: String,
}
fn client(addr: &str, args: &[OsString]) -> Ran {
    let mut c = Command::new(bin("indradb-client"));
    c.arg(addr).args(args).stdin(Stdio::null());
    let o = dies_with_us(&mut c).output().expect("spawn the client");
    crate::progress::tick();
    Ran { ok: o.status.success(), signal: o.status.signal(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
fn uuid_text(r: &mut Rng, i: Id) -> String {
    let u = uid(i);
    match r.below(7) {
        0 => u.simple().to_string(),
        1 => u.hyphenated().to_string().to_uppercase(),
        2 => u.urn().to_string(),
        3 => u.braced().to_string(),
        _ => u.hyphenated().to_string(),
    }
}
fn value_text(r: &mut Rng, v: &Value) -> String {
    match r.below(4) {
        0 => serde_json::to_string_pretty(v).unwrap(),
        1 => format!(" \n{v}\t "),
        _ => v.to_string(),
    }
}
/// A value whose text form is exact (the inexact ones are C08's business).
fn exact(v: Value) -> Value {
    let t: Result<Value, _> = serde_json::from_str(&v.to_string());
    match t {
        Ok(t) if same(&t, &v) && v.to_string().len() < 50_000 && !v.to_string().contains('\0') => v,
        _ => json!({"a": [1, -1, "x"]}),
    }
}
fn bad_ident(r: &mut Rng) -> String {
    match r.below(6) {
        0 => "a b".into(),
        1 => "x".repeat(256),
        2 => "é".repeat(128),
        3 => format!("{}$", rand_ident(r).chars().take(20).collect::<String>()),
        4 => "a\u{301}\u{200b}".into(),
        _ => ["!", "a.b", "a/b", "ty pe", "a\n", "😀"][r.below(6)].into(),
    }
}
fn bad_uuid(r: &mut Rng) -> String {
    match r.below(12) {
        // what is no text of an identifier must not be taken for its bytes, nor be filled up, cut or guessed at
        7 => (0..16).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
        8 => (0..16).map(|_| r.below(10).to_string()).collect(),
        9 => "00000000000000000000000000000001 ".into(),
        10 => "000000000000000000000000000000001".into(),
        11 => ["0x00000000000000000000000000000001", "urn:uuid:1", "00000000:0000:0000:0000:000000000001", "1", "00000000-0000-0000-0000-", "AAAAAAAAAAAAAAAAAAAAAQ=="][r.below(6)].into(),
        0 => "".into(),
        1 => "0".into(),
        2 => "00000000-0000-0000-0000-00000000000".into(),
        3 => "00000000-0000-0000-0000-0000000000001".into(),
        4 => "g0000000-0000-0000-0000-000000000000".into(),
        5 => " 00000000-0000-0000-0000-000000000000".into(),
        _ => "{00000000-0000-0000-0000-000000000000".into(),
    }
}
fn bad_json(r: &mut Rng) -> String {
    ["", "{", "nul", "1 2", "'a'", "01", "[1,]", "NaN", "\"\\ud800\"", "{\"a\"}", "tru", "+1", "\"a", "{a:1}", "Infinity"][r.below(15)].into()
}
/// One command: its arguments, what must be printed (if it must succeed), what it does.
struct Cmd {
    args: Vec<OsString>,
    what: String,
    /// `None`: must be refused
    prints: Option<Prints>,
    op: Option<Op>,
}
enum Prints {
    Exactly(String),
    /// prefix, property texts in any order, suffix
    Props(String, Vec<String>, String),
    NewVertex(String),
}
fn named(n: &str, v: &Value) -> String {
    format!("{:?}", ind::NamedProperty { name: ident(n), value: js(v) })
}
fn between(whole: &str) -> (String, String) {
    let k = whole.find("props: [").unwrap() + "props: [".len();
    (whole[..k].to_string(), whole[k..].to_string())
}
/// How many kinds of commands there are.
const KINDS: usize = 18;
fn command(kind: usize, p: &Pools, r: &mut Rng, m: &Model) -> Cmd {
    let bad = r.chance(1, 7);
    let (mut id, t, mut n) = (p.id(r), p.t(r), p.name(r));
    let mut e = p.edge(r, Some(m));
    // mostly something that is there, with a property it has
    if kind > 1 && r.chance(2, 3) {
        let (v, x): (Vec<_>, Vec<_>) = (m.vp.keys().collect(), m.ep.keys().collect());
        if matches!(kind, 6 | 10 | 11 | 13 | 15 | 17) {
            if !x.is_empty() {
                let k = r.pick(&x);
                (e, n) = (k.0.clone(), if r.chance(4, 5) { k.1.clone() } else { n });
            }
        } else if !v.is_empty() {
            let k = r.pick(&v);
            (id, n) = (k.0, if r.chance(4, 5) { k.1.clone() } else { n });
        }
    }
    let v = exact(p.val(r));
    let vt = value_text(r, &v);
    // one spoiled argument
    let spoil = |r: &mut Rng, a: &mut Vec<String>, kinds: &str| {
        let k = r.below(kinds.len());
        a[k] = match kinds.as_bytes()[k] {
            b'u' => bad_uuid(r),
            b'i' => bad_ident(r),
            _ => bad_json(r),
        };
    };
    let edge_args = |r: &mut Rng| vec![uuid_text(r, e.o), e.t.clone(), uuid_text(r, e.i)];
    let vp: Vec<(String, Value)> = m.vprops(id);
    let ep: Vec<(String, Value)> = m.eprops(&e);
    let (group, sub);
    let mut a: Vec<String>;
    let kinds;
    let mut opt: Option<(&str, String)> = None;
    let mut op = None;
    let mut prints = Some(Prints::Exactly(String::new()));
    match kind {
        0 | 1 => {
            (group, sub, a, kinds) = ("set", "vertex", vec![t.clone()], "i");
            if r.chance(4, 5) {
                opt = Some(("--id", if bad && r.chance(1, 2) { bad_uuid(r) } else { uuid_text(r, id) }));
                op = Some(Op::CreateV(id, t.clone()));
                prints = (!m.v.contains_key(&id)).then(|| Prints::Exactly(format!("{:?}\n", vertex(id, &t))));
            } else {
                prints = Some(Prints::NewVertex(t.clone()));
            }
        }
        2..=4 => {
            (group, sub, a, kinds) = ("set", "edge", edge_args(r), "uiu");
            op = Some(Op::CreateE(e.clone()));
            prints = (m.v.contains_key(&e.o) && m.v.contains_key(&e.i)).then(|| Prints::Exactly(format!("{:?}\n", edge(&e))));
        }
        5 => {
            (group, sub, a, kinds) = ("set", "vertex-property", vec![uuid_text(r, id), n.clone(), vt], "uij");
            op = Some(Op::Set(Q::SpecV(vec![id]), n.clone(), v.clone()));
        }
        6 => {
            (group, sub) = ("set", "edge-property");
            a = edge_args(r);
            a.extend([n.clone(), vt]);
            kinds = "uiuij";
            op = Some(Op::Set(Q::SpecE(vec![e.clone()]), n.clone(), v.clone()));
        }
        7 => {
            (group, a, kinds) = ("count", vec![], "");
            if r.chance(1, 2) {
                sub = "vertex";
                prints = Some(Prints::Exactly(format!("{}\n", m.v.len())));
            } else {
                sub = "edge";
                prints = Some(Prints::Exactly(format!("{}\n", m.e.len())));
            }
        }
        8 => {
            (group, sub, a, kinds) = ("get", "vertex", vec![uuid_text(r, id)], "u");
            let want: Vec<ind::Vertex> = m.v.get(&id).map(|t| vertex(id, t)).into_iter().collect();
            prints = Some(Prints::Exactly(format!("{:?}\n", Some(want))));
        }
        9 => {
            (group, sub, a, kinds) = ("get", "edge", edge_args(r), "uiu");
            let want: Vec<ind::Edge> = m.e.contains(&e).then(|| edge(&e)).into_iter().collect();
            prints = Some(Prints::Exactly(format!("{:?}\n", Some(want))));
        }
        10 | 11 | 14 | 16 => {
            let on_vertex = matches!(kind, 14 | 16);
            let one = matches!(kind, 10 | 14);
            (group, sub) = ("get", if on_vertex { "vertex-property" } else { "edge-property" });
            (a, kinds) = if on_vertex { (vec![uuid_text(r, id)], "u") } else { (edge_args(r), "uiu") };
            if one {
                opt = Some(("--name", if bad && r.chance(1, 2) { bad_ident(r) } else { n.clone() }));
            }
            let ps: Vec<String> = if on_vertex { &vp } else { &ep }.iter().filter(|x| !one || x.0 == n).map(|(n, v)| named(n, v)).collect();
            // an element is listed if it exists and has something to list
            let whole = if on_vertex {
                m.v.get(&id).filter(|_| !ps.is_empty()).map(|t| format!("{:?}\n", Some(vec![ind::VertexProperties { vertex: vertex(id, t), props: vec![] }])))
            } else {
                m.e.contains(&e).then(|| format!("{:?}\n", Some(vec![ind::EdgeProperties { edge: edge(&e), props: vec![] }]))).filter(|_| !ps.is_empty())
            };
            prints = Some(match whole {
                Some(w) => {
                    let (x, y) = between(&w);
                    Prints::Props(x, ps, y)
                }
                None => Prints::Exactly("Some([])\n".into()),
            });
        }
        12 | 13 => {
            group = "delete";
            if kind == 12 {
                (sub, a, kinds) = ("vertex", vec![uuid_text(r, id)], "u");
                op = Some(Op::Delete(Q::SpecV(vec![id])));
            } else {
                (sub, a, kinds) = ("edge", edge_args(r), "uiu");
                op = Some(Op::Delete(Q::SpecE(vec![e.clone()])));
            }
        }
        _ => {
            group = "delete";
            if kind != 17 {
                (sub, a, kinds) = ("vertex-property", vec![uuid_text(r, id), n.clone()], "ui");
                op = Some(Op::Delete(Q::Props { inner: Box::new(Q::SpecV(vec![id])), name: Some(n.clone()) }));
            } else {
                (sub, a, kinds) = ("edge-property", edge_args(r), "uiui");
                a.push(n.clone());
                op = Some(Op::Delete(Q::Props { inner: Box::new(Q::SpecE(vec![e.clone()])), name: Some(n.clone()) }));
            }
        }
    }
    if bad {
        let spoiled_option = match &opt {
            Some(("--id", x)) => uuid::Uuid::parse_str(x).is_err(),
            Some(("--name", x)) => ind::Identifier::new(x.as_str()).is_err(),
            _ => false,
        };
        let malformed = !spoiled_option
            && match r.below(5) {
                0 if !a.is_empty() => {
                    a.pop();
                    true
                }
                1 => {
                    a.push("surplus".into());
                    true
                }
                _ => false,
            };
        if !spoiled_option && !malformed {
            if kinds.is_empty() {
                a.push("surplus".into());
            } else {
                spoil(r, &mut a, kinds);
            }
        }
        prints = None;
        op = None;
    }
    let mut args = os(&[group, sub]);
    let dashed = a.iter().any(|x| x.starts_with('-'));
    let opt_args = opt.map(|(k, x)| if x.starts_with('-') || r.chance(1, 3) { vec![format!("{k}={x}")] } else { vec![k.to_string(), x] }).unwrap_or_default();
    // an empty "--name=" would be the option's own syntax error
    let opt_args = if opt_args.len() == 1 && opt_args[0].ends_with('=') { vec![opt_args[0].trim_end_matches('=').to_string(), String::new()] } else { opt_args };
    let first = dashed || r.chance(1, 2);
    if first {
        args.extend(opt_args.iter().map(OsString::from));
    }
    if dashed {
        args.push("--".into());
    }
    args.extend(a.iter().map(OsString::from));
    if !first {
        args.extend(opt_args.iter().map(OsString::from));
    }
    Cmd { what: format!("{args:?}"), args, prints, op }
}
/// Vertices with edges between them in both directions and of two types, most elements with several properties.
fn crowd(p: &Pools, r: &mut Rng, m: &Model) -> Vec<Item> {
    let mut out = vec![];
    let (a, b) = (p.id(r), p.id(r));
    for i in [a, b] {
        if !m.v.contains_key(&i) {
            out.push(Item::V(i, p.t(r)));
        }
    }
    let (t, u) = (p.t(r), p.t(r));
    let mut es: Vec<EK> = vec![];
    for (o, t, i) in [(a, &t, b), (b, &t, a), (a, &u, b), (a, &t, a)] {
        let e = EK { o, t: t.clone(), i };
        if r.chance(3, 4) && !es.contains(&e) {
            out.push(Item::E(e.clone()));
            es.push(e);
        }
    }
    for n in &p.names {
        for i in [a, b] {
            if r.chance(2, 3) {
                out.push(Item::VP(i, n.clone(), exact(p.val(r))));
            }
        }
        for e in &es {
            if r.chance(2, 3) {
                out.push(Item::EP(e.clone(), n.clone(), exact(p.val(r))));
            }
        }
    }
    out
}
fn printed(want: &Prints, got: &str) -> Result<Option<Id>, String> {
    match want {
        Prints::Exactly(w) if w == got => Ok(None),
        Prints::Exactly(w) => Err(format!("printed {:?} instead of {:?}", short(&got), short(&w))),
        Prints::Props(a, ps, b) => {
            let inner = got.strip_prefix(a.as_str()).and_then(|x| x.strip_suffix(b.as_str()));
            let len = ps.iter().map(|p| p.len()).sum::<usize>() + 2 * ps.len().saturating_sub(1);
            match inner {
                Some(i) if i.len() == len && ps.iter().all(|p| i.contains(p.as_str())) => Ok(None),
                _ => Err(format!("printed {:?} instead of {a:?} {ps:?} {b:?}", short(&got))),
            }
        }
        Prints::NewVertex(t) => {
            let id = got.split(|c: char| !(c.is_ascii_hexdigit() || c == '-')).filter_map(|x| uuid::Uuid::parse_str(x).ok()).next();
            match id {
                Some(u) if got == format!("{:?}\n", ind::Vertex::with_id(u, ident(t))) => Ok(Some(did(u))),
                _ => Err(format!("printed {:?} for a new vertex of type {t:?}", short(&got))),
            }
        }
    }
}
/// All vertices, edges and properties, in two questions.
fn same_state(g: &dyn Db, m: &Model) -> Result<(), String> {
    for q in [Q::AllV, Q::AllE] {
        let q = Q::Incl(Box::new(Q::Props { inner: Box::new(Q::Incl(Box::new(q))), name: None }));
        let got = g.get(q.raw()).map_err(|e| format!("dumping the server's data: {e:?}"))?;
        let want = m.eval(&q, None).map_err(|e| format!("{e:?}"))?;
        if want.len() != got.len() {
            return Err(format!("{} outputs instead of {}", got.len(), want.len()));
        }
        for (w, g) in want.iter().zip(&got) {
            compare(w, g)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- one server's life
#[derive(Clone, Copy, PartialEq, Debug)]
enum Store {
    Plain,
    Persist,
    Rocks,
}
struct Life<'a> {
    store: Store,
    dir: tempfile::TempDir,
    path: OsString,
    rep: &'a Report,
    log: Vec<String>,
}
impl Life<'_> {
    fn args(&self, r: &mut Rng) -> Vec<OsString> {
        let mut a = match r.below(3) {
            0 => os(&["-a", "127.0.0.1:0"]),
            1 => os(&["--address", "localhost:0"]),
            _ => os(&["--address=127.0.0.1:0"]),
        };
        let p = if r.chance(1, 2) { self.path.clone() } else { self.dir.path().join(&self.path).into_os_string() };
        match self.store {
            Store::Plain => {
                if r.chance(1, 2) {
                    a.push("memory".into());
                }
            }
            Store::Persist => {
                a.push("memory".into());
                a.push("--persist-path".into());
                a.push(p);
            }
            Store::Rocks => {
                a.push("rocksdb".into());
                if r.chance(1, 3) {
                    a.extend(os(&["--max-open-files", *r.pick(&["16", "64", "1000", "-1"])]).into_iter().map(|x| x));
                    if a.last().unwrap() == "-1" {
                        a.pop();
                        a.pop();
                        a.push("--max-open-files=-1".into());
                    }
                }
                a.push(p);
            }
        }
        a
    }
    fn start(&mut self, r: &mut Rng) -> Result<Proc, String> {
        let a = self.args(r);
        self.log.push(format!("server {a:?}"));
        self.rep.count("server_starts", 1);
        start(&a, self.dir.path()).map_err(|e| format!("the server did not start with {a:?}: {e:?}"))
    }
    fn at(&self) -> PathBuf {
        self.dir.path().join(&self.path)
    }
    /// The data lies at the path that was named, and nowhere else.
    fn there(&self, must: bool) -> Result<(), String> {
        let first = self.path.as_bytes().split(|c| *c == b'/').next().unwrap();
        let names: Vec<OsString> = std::fs::read_dir(self.dir.path()).unwrap().filter_map(|x| Some(x.ok()?.file_name())).collect();
        self.rep.count("places_of_the_data_looked_at", 1);
        // (what RocksDB's binding makes of a name that is not Unicode is a finding of its own: see not_unicode)
        if self.store == Store::Rocks && self.path.to_str().is_none() {
            return Ok(());
        }
        if self.store == Store::Rocks {
            if let Some(n) = names.iter().find(|n| n.as_bytes() != first) {
                return Err(format!("told to keep its data in {:?}, the server made {n:?}", self.path));
            }
        }
        if must && !self.at().exists() {
            return Err(format!("told to keep its data in {:?}, the server has nothing there, but {names:?}", self.path));
        }
        Ok(())
    }
}
/// Two databases whose names differ in a byte that is not Unicode are two databases.
fn not_unicode(rep: &Report) {
    let dir = scratch();
    let names = [OsString::from_vec(b"x\xff".to_vec()), OsString::from_vec(b"x\xfe".to_vec())];
    for (k, n) in names.iter().enumerate() {
        let mut a = os(&["-a", "127.0.0.1:0", "rocksdb"]);
        a.push(n.clone());
        let s = match start(&a, dir.path()) {
            Ok(s) => s,
            // to refuse such a name is no mistake
            Err(_) => return,
        };
        rep.eval(1);
        rep.distinct(&("not unicode", k));
        let found = audit(&s.grpc, &Model::new(EdgeOrder::LenPrefixed), true);
        let made = s.grpc.create_vertex(k as Id + 1, "t");
        s.end(libc::SIGKILL);
        let listed: Vec<OsString> = std::fs::read_dir(dir.path()).unwrap().filter_map(|x| Some(x.ok()?.file_name())).collect();
        if found.is_err() || made.is_err() || !listed.contains(n) {
            rep.violation("C23:rocksdb-path-not-unicode", format!("a server told to keep its RocksDB data in {n:?} keeps it in {listed:?} (found there: {found:?})"), format!("server rocksdb {n:?} in an empty directory, then the same with another name: {names:?}"));
            return;
        }
    }
}
fn lane(store: Store, seed: u64, dur: Duration, rep: &Report) {
    let t0 = Instant::now();
    let mut k = 0;
    while t0.elapsed() < dur && rep.nviol() < 5 {
        k += 1;
        let seed = h64(&(seed, k));
        let mut r = Rng::new(seed);
        let names: [&[u8]; 11] = [b"db", b"a b", "d\u{e9}\u{65e5}".as_bytes(), b"x\xff\xfey", b"deep/er/db", b" lead", b"trail ", b"line\n", b" \xff\xfe \t", b"$HOME~%20'\"\\*", b"DB.Img."];
        let mut path = OsString::from_vec(names[(k as usize + store as usize * 3) % names.len()].to_vec());
        if store != Store::Rocks && path == "deep/er/db" {
            path = "db.img".into();
        }
        let mut life = Life { store, dir: scratch(), path, rep, log: vec![] };
        if life.path == "deep/er/db" {
            std::fs::create_dir_all(life.dir.path().join("deep/er")).unwrap();
        }
        let left = dur.saturating_sub(t0.elapsed());
        if let Err(e) = live(&mut life, &mut r, left.min(Duration::from_secs(8)), rep) {
            let sig = format!("C23:{store:?}").to_lowercase().replace("c23", "C23");
            rep.violation(&sig, format!("[{store:?}] {e}"), format!("seed {seed}\n{e}\n{}", life.log.join("\n")));
        }
    }
}
fn live(l: &mut Life, r: &mut Rng, dur: Duration, rep: &Report) -> Result<(), String> {
    let t0 = Instant::now();
    let store = l.store;
    let order = if store == Store::Rocks { EdgeOrder::LenPrefixed } else { EdgeOrder::Plain };
    let mut p = Pools::new(r, 5, 3, 3, 6);
    if r.chance(1, 2) && !p.names.iter().any(|n| n.is_empty()) {
        // an identifier like any other
        p.names[0] = String::new();
    }
    let mut m = Model::new(order);
    // now and then the data was there before, written by the library
    if store != Store::Plain && r.chance(1, 3) {
        let w = Weights { wild: 0, get: 0, sync: 0, reopen: 0, create_vt: 0, ..Weights::default() };
        let ops = plan_ops(&p, r, &m, &w, 25);
        let at = l.at();
        let d: Box<dyn Db> = match store {
            Store::Persist => Box::new(ind::MemoryDatastore::create_msgpack_db(&at)),
            _ => Box::new(open_rocks(&at, 2).map_err(|e| format!("library: {e:?}"))?),
        };
        for (op, _) in &ops {
            let mut m2 = m.clone();
            step_db(&*d, &mut m2, op, rep, false).map_err(|e| format!("library: {e}"))?;
            m = m2;
        }
        d.sync().map_err(|e| format!("library: {e:?}"))?;
        drop(d);
        l.log.push(format!("library wrote {} operations", ops.len()));
        rep.count("stores_prepared_by_the_library", 1);
    }
    // what would be there after a restart
    let mut synced = m.clone();
    let mut s = l.start(r)?;
    let mut deck: Vec<usize> = vec![];
    audit(&s.grpc, &m, true).map_err(|e| format!("after the first start: {e}"))?;
    l.there(store == Store::Rocks)?;
    while t0.elapsed() < dur {
        match r.below(26) {
            // commands
            0..=13 | 20..=25 => {
                if deck.is_empty() {
                    deck.extend(0..KINDS);
                    r.shuffle(&mut deck);
                    if r.chance(2, 3) {
                        // something worth asking for: elements that differ in one component only, several properties each
                        let op = Op::Bulk(crowd(&p, r, &m));
                        l.log.push(format!("grpc {op:?}"));
                        step_db(&s.grpc, &mut m, &op, rep, false).map_err(|e| format!("{}: {e}", short(&op)))?;
                    }
                }
                let c = command(deck.pop().unwrap(), &p, r, &m);
                l.log.push(c.what.clone());
                let addr = format!("{}://{}", if r.chance(1, 2) { "grpc" } else { "http" }, s.addr);
                let x = client(&addr, &c.args);
                rep.eval(1);
                rep.distinct(&("cmd", format!("{store:?}"), c.args.iter().take(2).collect::<Vec<_>>(), c.prints.is_some(), x.ok, m.v.len().min(4), m.e.len().min(3), c.op.is_some(), &c.what));
                rep.count(if c.prints.is_some() { "commands_done" } else { "commands_refused" }, 1);
                if let Some(g) = x.signal {
                    return Err(format!("{} ended by signal {g}", c.what));
                }
                match &c.prints {
                    None if x.ok => return Err(format!("{} had to be refused but exited with 0 and printed {:?}", c.what, short(&x.out))),
                    None => {}
                    Some(_) if !x.ok => return Err(format!("{} failed: {} {}", c.what, short(&x.out), short(&x.err))),
                    Some(w) => {
                        if let Some(id) = printed(w, &x.out).map_err(|e| format!("{}: {e}", c.what))? {
                            let Prints::NewVertex(t) = w else { unreachable!() };
                            if !m.create_v(id, t) {
                                return Err(format!("{}: the new vertex's id {id:x} was taken", c.what));
                            }
                        }
                        if let Some(op) = &c.op {
                            m = model_step(&m, op).ok_or("model")?;
                        }
                    }
                }
                same_state(&s.grpc, &m).map_err(|e| format!("after {}: {e}", c.what))?;
            }
            // the same server used over gRPC in between
            14 | 15 => {
                let w = Weights { wild: 0, reopen: 0, create_vt: 0, index: 6, bulk: 8, sync: 0, ..Weights::default() };
                for _ in 0..6 {
                    let op = gen_op(&p, r, &m, &w);
                    l.log.push(format!("grpc {}", short(&op)));
                    step_db(&s.grpc, &mut m, &op, rep, false).map_err(|e| format!("{}: {e}", short(&op)))?;
                    rep.count("grpc_operations_in_between", 1);
                }
            }
            16 => {
                l.log.push("sync".into());
                let x = s.grpc.sync();
                match (store, x) {
                    (Store::Plain, _) => {}
                    (_, Ok(())) => {
                        synced = m.clone();
                        rep.count("syncs", 1);
                        l.there(true)?;
                    }
                    (_, Err(e)) => return Err(format!("sync: {e:?}")),
                }
            }
            // it is killed and started again
            _ => {
                let sig = *r.pick(&[libc::SIGKILL, libc::SIGKILL, libc::SIGTERM, libc::SIGINT]);
                let mut admissible = vec![];
                if r.chance(1, 2) {
                    // in the middle of something
                    let w = Weights { create_v: 10, create_vt: 0, create_e: 10, bulk: 0, set: 0, del_elems: 0, del_props: 0, index: 0, get: 0, sync: if store == Store::Persist { 6 } else { 0 }, reopen: 0, wild: 0, depth: 1 };
                    let ops = plan_ops(&p, r, &m, &w, 120);
                    let acked = AtomicUsize::new(0);
                    let started = AtomicUsize::new(0);
                    let wait = Duration::from_micros(r.below(60_000) as u64);
                    let g2 = Grpc { c: s.grpc.c.clone() };
                    let mut doomed = Some(s);
                    let mut said = String::new();
                    std::thread::scope(|sc| {
                        let (ops, acked, started) = (&ops, &acked, &started);
                        sc.spawn(move || {
                            for (op, _) in ops {
                                started.fetch_add(1, SeqCst);
                                let x = match op {
                                    Op::CreateV(i, t) => g2.create_vertex(*i, t).map(|_| ()),
                                    Op::CreateE(e) => g2.create_edge(e).map(|_| ()),
                                    Op::Sync => g2.sync(),
                                    _ => Ok(()),
                                };
                                if x.is_err() {
                                    return;
                                }
                                acked.fetch_add(1, SeqCst);
                            }
                        });
                        std::thread::sleep(wait);
                        said = doomed.take().unwrap().end(sig);
                    });
                    let (a, b) = (acked.load(SeqCst), started.load(SeqCst));
                    l.log.push(format!("signal {sig} after {a} acknowledged of {b} started operations: {:?}", ops.iter().take(b).map(|o| short(&o.0)).collect::<Vec<_>>()));
                    rep.count("killed_while_working", 1);
                    rep.distinct(&("killed", format!("{store:?}"), a.min(30), b - a, sig));
                    let state = |k: usize| if k == 0 { m.clone() } else { ops[k - 1].1.clone() };
                    match store {
                        Store::Plain => {}
                        Store::Rocks => admissible.extend((a..=b).map(state)),
                        Store::Persist => {
                            // the last acknowledged sync, or the one that was under way
                            let last = (0..a).rev().find(|k| ops[*k].0 == Op::Sync);
                            admissible.push(last.map(|k| state(k)).unwrap_or(synced.clone()));
                            admissible.extend((a..b).filter(|k| ops[*k].0 == Op::Sync).map(state));
                        }
                    }
                } else {
                    s.end(sig);
                    l.log.push(format!("signal {sig}"));
                    rep.count("killed_at_rest", 1);
                    match store {
                        Store::Plain => {}
                        Store::Rocks => admissible.push(m.clone()),
                        Store::Persist => admissible.push(synced.clone()),
                    }
                }
                if store == Store::Plain {
                    admissible = vec![Model::new(order)];
                }
                if store == Store::Rocks && r.chance(1, 4) {
                    let a = vec!["-a".into(), "127.0.0.1:0".into(), "rocksdb".into(), l.at().into_os_string(), if r.chance(1, 2) { "--repair" } else { "-r" }.into()];
                    match start(&a, l.dir.path()) {
                        Err(Start::Exited(Some(0), out, _)) if out.trim() == "repair successful" => {}
                        Err(x) => return Err(format!("repairing said {x:?}")),
                        Ok(p) => {
                            p.end(libc::SIGKILL);
                            return Err("repairing started a server".into());
                        }
                    }
                    l.log.push("repaired".into());
                    rep.count("repairs", 1);
                }
                if store != Store::Plain && r.chance(1, 4) {
                    // the library reads what the server left
                    let d: Box<dyn Db> = match store {
                        Store::Persist if !l.at().exists() => Box::new(ind::MemoryDatastore::new_db()),
                        Store::Persist => Box::new(ind::MemoryDatastore::read_msgpack_db(l.at()).map_err(|e| format!("library cannot read the server's image: {e}"))?),
                        _ => Box::new(open_rocks(&l.at(), 2).map_err(|e| format!("library cannot open the server's store: {e:?}"))?),
                    };
                    settle(&*d, &mut admissible).map_err(|e| format!("read by the library after signal {sig}: {e}"))?;
                    rep.count("stores_read_by_the_library", 1);
                }
                s = l.start(r)?;
                settle(&s.grpc, &mut admissible).map_err(|e| format!("after signal {sig} and a restart: {e}"))?;
                m = admissible.remove(0);
                audit(&s.grpc, &m, true).map_err(|e| format!("after signal {sig} and a restart: {e}"))?;
                synced = m.clone();
                rep.count("restarts", 1);
                rep.distinct(&("restart", format!("{store:?}"), model_hash(&m)));
            }
        }
    }
    audit(&s.grpc, &m, true)?;
    let said = s.end(libc::SIGKILL);
    if said.contains("panicked") {
        return Err(format!("the server panicked on the way: {}", short(&said)));
    }
    if rep.nviol() == 0 {
        rep.sample(json!({"store": format!("{store:?}"), "last": l.log.iter().rev().take(5).collect::<Vec<_>>()}));
    }
    Ok(())
}
/// Keeps those of the admissible states that are what is there.
fn settle(d: &dyn Db, admissible: &mut Vec<Model>) -> Result<(), String> {
    let mut first = None;
    admissible.retain(|m| match same_state(d, m) {
        Ok(()) => true,
        Err(e) => {
            first.get_or_insert(e);
            false
        }
    });
    if admissible.is_empty() {
        return Err(format!("none of the admissible states is there: {}", first.unwrap_or_default()));
    }
    Ok(())
}

// ---------------------------------------------------------------- starts and commands that must be refused
fn ind_text(k: u128) -> String {
    uid(k).to_string()
}
fn refusals(seed: u64, rep: &Report) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let d = scratch();
    let at = |n: &str| d.path().join(n).into_os_string();
    let refused = |what: &str, a: Vec<OsString>| -> Result<(), String> {
        rep.eval(1);
        rep.count("server_starts_refused", 1);
        rep.distinct(&("refused", what));
        match start(&a, d.path()) {
            Err(Start::Exited(Some(0), o, _)) => Err(format!("{what}: the server exited with 0 and said {o:?}")),
            Err(Start::Exited(Some(_), ..)) => Ok(()),
            Err(x) => Err(format!("{what}: {x:?}")),
            Ok(p) => {
                p.end(libc::SIGKILL);
                Err(format!("{what}: the server started"))
            }
        }
    };
    let a0 = || os(&["-a", "127.0.0.1:0"]);
    let with = |x: &[&OsStr]| a0().into_iter().chain(x.iter().map(|x| x.to_os_string())).collect::<Vec<_>>();
    let o = |x: &'static str| OsStr::new(x);
    for bad in [vec!["rocksdb"], vec!["bogus"], vec!["memory", "x"], vec!["memory", "--persist-path"], vec!["--bogus", "memory"], vec!["rocksdb", "p", "q"], vec!["rocksdb", "p", "--max-open-files", "x"], vec!["rocksdb", "p", "--max-open-files", "99999999999"]] {
        refused(&format!("arguments {bad:?}"), with(&bad.iter().map(|x| o(x)).collect::<Vec<_>>()))?;
    }
    for addr in ["", "nonsense", "127.0.0.1", "127.0.0.1:99999", ":0:0", "256.1.1.1:0"] {
        refused(&format!("address {addr:?}"), os(&["-a", addr, "memory"]))?;
    }
    // images that are not images stay as they are
    for (n, c) in [("empty", vec![]), ("text", b"hello".to_vec()), ("bytes", (0..200u8).collect()), ("zeros", vec![0; 50])] {
        let f = at(n);
        std::fs::write(&f, &c).unwrap();
        refused(&format!("an image of {n}"), with(&[o("memory"), o("--persist-path"), &f]))?;
        if std::fs::read(&f).unwrap() != c {
            return Err(format!("an unusable image ({n}) was changed by a refused start"));
        }
    }
    // not a place for a database
    let file = at("file");
    std::fs::write(&file, b"hello").unwrap();
    refused("rocksdb at a file", with(&[o("rocksdb"), &file]))?;
    refused("rocksdb below a file", with(&[o("rocksdb"), &at("file/db")]))?;
    if std::fs::read(&file).unwrap() != b"hello" {
        return Err("a file was changed by a refused start".into());
    }
    // one database, one server
    let db = at("db");
    let s = start(&with(&[o("rocksdb"), &db]), d.path()).map_err(|e| format!("{e:?}"))?;
    let mut m = Model::new(EdgeOrder::LenPrefixed);
    for k in 1..4u128 {
        step_db(&s.grpc, &mut m, &Op::CreateV(k, "t".into()), rep, false)?;
        step_db(&s.grpc, &mut m, &Op::CreateE(EK::new(k, "e", 1)), rep, false)?;
    }
    refused("a second server on the same database", with(&[o("rocksdb"), &db]))?;
    refused("a repair of a database in use", with(&[o("rocksdb"), &db, o("--repair")]))?;
    let other = format!("{}", s.addr);
    refused("a second server on the same address", os(&["-a", &other, "memory"]))?;
    audit(&s.grpc, &m, true).map_err(|e| format!("after a second server was refused: {e}"))?;
    step_db(&s.grpc, &mut m, &Op::CreateV(9, "t".into()), rep, false)?;
    // client commands that make no sense
    let good = format!("grpc://{}", s.addr);
    for bad in [
        vec![], vec!["set"], vec!["get"], vec!["delete"], vec!["count"], vec!["bogus"], vec!["set", "bogus"], vec!["count", "bogus"], vec!["ping", "x"], vec!["set", "vertex"], vec!["--bogus"], vec!["get", "vertex", "00000000-0000-0000-0000-000000000001", "--bogus"],
        vec!["set", "vertex", "t", "--id"], vec!["delete", "vertex"], vec!["count", "vertex", "x"], vec!["SET", "vertex", "t"], vec!["sync"], vec!["delete", "vertex", "--name", "n", "00000000-0000-0000-0000-000000000001"], vec!["delete", "vertex-property", "00000000-0000-0000-0000-000000000001"],
    ] {
        rep.eval(1);
        rep.count("commands_refused", 1);
        rep.distinct(&("badcmd", &bad));
        let x = client(&good, &os(&bad));
        if x.ok || x.signal.is_some() {
            return Err(format!("the command {bad:?} was not refused: {:?} {:?}", x.out, x.err));
        }
    }
    same_state(&s.grpc, &m).map_err(|e| format!("after nonsensical commands: {e}"))?;
    // each argument of each command spoiled in turn, everything else being right
    step_db(&s.grpc, &mut m, &Op::Set(Q::AllV, "n".into(), json!(1)), rep, false)?;
    step_db(&s.grpc, &mut m, &Op::Set(Q::AllE, "n".into(), json!(2)), rep, false)?;
    let (id1, id2) = (ind_text(1), ind_text(2));
    let (id1, id2) = (id1.as_str(), id2.as_str());
    let whole: Vec<(Vec<&str>, &str)> = vec![
        (vec!["set", "vertex", "t"], "i"),
        (vec!["set", "vertex", "--id", "00000000-0000-0000-0000-0000000000ee", "t"], "-ui"),
        (vec!["set", "edge", id1, "f", id2], "uiu"),
        (vec!["set", "vertex-property", id1, "n", "3"], "uij"),
        (vec!["set", "edge-property", id2, "e", id1, "n", "3"], "uiuij"),
        (vec!["get", "vertex", id1], "u"),
        (vec!["get", "edge", id2, "e", id1], "uiu"),
        (vec!["get", "vertex-property", "--name", "n", id1], "-iu"),
        (vec!["get", "vertex-property", id1], "u"),
        (vec!["get", "edge-property", "--name", "n", id2, "e", id1], "-iuiu"),
        (vec!["get", "edge-property", id2, "e", id1], "uiu"),
        (vec!["delete", "vertex", id1], "u"),
        (vec!["delete", "edge", id2, "e", id1], "uiu"),
        (vec!["delete", "vertex-property", id1, "n"], "ui"),
        (vec!["delete", "edge-property", id2, "e", id1, "n"], "uiui"),
    ];
    let long = "x".repeat(256);
    for (cmd, kinds) in &whole {
        for (k, kind) in kinds.chars().enumerate().filter(|x| x.1 != '-') {
            let good_one = cmd[2 + k].to_string();
            let mut forms: Vec<String> = match kind {
                'i' => [" ", "\n", "\t", "\u{a0}", "/", "\u{301}", ".", ":", "\u{200b}", "*"].iter().flat_map(|x| [format!("{good_one}{x}"), format!("{x}{good_one}"), x.to_string()]).chain([long.clone(), format!("{good_one} {good_one}"), format!("\"{good_one}\"")]).collect(),
                'u' => vec![String::new(), format!(" {good_one}"), format!("{good_one} "), format!("{good_one}\n"), format!("{good_one}0"), good_one[1..].to_string(), good_one.replacen('0', "g", 1), "1".into(), "0".into(), good_one.replacen('-', "", 1), good_one.replace('-', "_"), format!("\"{good_one}\""), "t".into(), "*".into(), format!("{good_one},{good_one}")],
                _ => ["", "{", "[1", "nan", "Infinity", "1 2", "'a'", "tru", "True", "01", "{a:1}", "\"", "1,", "+1", "undefined", "a b", "/x"].iter().map(|x| x.to_string()).collect(),
            };
            r.shuffle(&mut forms);
            // the two that are easily let through are always among them
            forms.truncate(3);
            if kind != 'i' {
                forms.push(String::new());
            }
            forms.push(format!("{good_one}{}", if kind == 'j' { "," } else { " " }));
            forms.push(format!("{}{good_one}", if kind == 'j' { "," } else { " " }));
            for f in forms {
                let mut a: Vec<&str> = cmd.clone();
                a[2 + k] = &f;
                rep.eval(1);
                rep.count("commands_refused", 1);
                rep.distinct(&("spoiled", cmd, k, &f));
                let x = client(&good, &os(&a));
                if x.ok || x.signal.is_some() {
                    return Err(format!("the command {a:?} was not refused: {:?} {:?}", x.out, x.err));
                }
            }
            same_state(&s.grpc, &m).map_err(|e| format!("after refused forms of {cmd:?}: {e}"))?;
        }
        rep.count("commands_spoiled_systematically", 1);
    }
    let x = client(&good, &os(&["ping"]));
    if !x.ok || x.out != "ok\n" {
        return Err(format!("ping said {:?} {:?}", x.out, x.err));
    }
    let gone = {
        s.end(libc::SIGKILL);
        good
    };
    for (addr, cmd) in [(gone.as_str(), vec!["ping"]), (&gone, vec!["count", "vertex"]), (&gone, vec!["set", "vertex", "t"]), ("nonsense address", vec!["ping"]), ("", vec!["ping"])] {
        rep.eval(1);
        let x = client(addr, &os(&cmd));
        if x.ok {
            return Err(format!("{cmd:?} at {addr:?}, where no server is, exited with 0 and printed {:?}", x.out));
        }
    }
    // no arguments at all: in memory, at the documented address (unless someone else is there)
    if std::net::TcpListener::bind("127.0.0.1:27615").is_ok() {
        match start(&[], d.path()) {
            Ok(p) => {
                if p.addr.to_string() != "127.0.0.1:27615" {
                    return Err(format!("without arguments the server listens at {}", p.addr));
                }
                let mut m = Model::new(EdgeOrder::Plain);
                step_db(&p.grpc, &mut m, &Op::CreateV(r.u128(), "t".into()), rep, false)?;
                audit(&p.grpc, &m, true)?;
                p.end(libc::SIGTERM);
            }
            Err(Start::Exited(_, _, e)) if e.contains("in use") => {}
            Err(e) => return Err(format!("without arguments the server did not start: {e:?}")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the server with plugins (C22)
fn plugins(seed: u64, rep: &Report) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let d = scratch();
    let libs = d.path().join("libs");
    std::fs::create_dir_all(libs.join("sub")).unwrap();
    let (hello, count) = ("libindradb_plugin_hello_world.so", "libindradb_plugin_naive_vertex_count.so");
    for l in [hello, count] {
        std::fs::copy(bin(l), libs.join(l)).map_err(|e| format!("{l}: {e}"))?;
    }
    std::fs::copy(bin(hello), libs.join("sub/one.so")).unwrap();
    std::fs::write(libs.join("readme.txt"), "not a library").unwrap();
    let stores = [vec![], os(&["memory"]), vec!["rocksdb".into(), d.path().join("db").into_os_string()]];
    let ask = |s: &Proc, n: &str, arg: Value| -> Result<Value, String> {
        let (n, a) = (n.to_string(), js(&arg));
        s.grpc.call(move |mut c| async move { c.execute_plugin(&n, a).await }).map(|j| (*j).clone()).map_err(|e| format!("{e:?}"))
    };
    let globs: [(&str, bool, bool); 10] = [
        ("libs/*.so", true, true), ("libs/libindradb_plugin_*", true, true), ("libs/*hello*", true, false), ("libs/*count.so", false, true), ("libs/sub/*", true, false), ("libs/**/*.so", true, true), ("libs/lib[!x]*[!t]", true, true), ("nothing/*.so", false, false), ("libs/*.dll", false, false), ("libs/sub/one.s?", true, false),
    ];
    for (k, (g, h, c)) in globs.iter().enumerate() {
        let g = if r.chance(1, 2) { g.to_string() } else { d.path().join(g).to_str().unwrap().to_string() };
        let mut a = os(&["-a", "127.0.0.1:0"]);
        a.extend(if r.chance(1, 2) { os(&["-p", &g]) } else { os(&["--plugins", &g]) });
        a.extend(stores[k % 3].clone());
        rep.eval(1);
        rep.count("servers_with_plugins", 1);
        let s = start(&a, d.path()).map_err(|e| format!("the server with plugins did not start: {a:?} {e:?}"))?;
        rep.distinct(&("glob", k, k % 3));
        let v = exact(rand_value(&mut r, 3));
        match (h, ask(&s, "hello_world", v.clone())) {
            (true, Ok(x)) if x == json!(format!("hello, {v}")) => {}
            (false, Err(e)) if e.contains("unknown plugin") => {}
            (_, x) => return Err(format!("plugins {g:?}: hello_world of {v} said {x:?}")),
        }
        let _ = Db::delete(&s.grpc, Q::AllV.raw());
        let n = *r.pick(&[0usize, 1, 7, 8, 9, 500, 999, 1000, 1001, 1999, 2000, 2001]);
        let items: Vec<Item> = (0..n).map(|k| Item::V(k as u128 * 3 + 1, format!("t{}", k % 2))).collect();
        s.grpc.bulk(&items).map_err(|e| format!("{e:?}"))?;
        match (c, ask(&s, "naive_vertex_count", Value::Null)) {
            (true, Ok(x)) if x == json!(n) => {}
            (false, Err(e)) if e.contains("unknown plugin") => {}
            (_, x) => return Err(format!("plugins {g:?}: naive_vertex_count of {n} vertices said {x:?}")),
        }
        match ask(&s, "bogus", Value::Null) {
            Err(e) if e.contains("unknown plugin") => {}
            x => return Err(format!("plugins {g:?}: an unknown plugin said {x:?}")),
        }
        let e = s.end(libc::SIGTERM);
        if e.contains("panicked") {
            return Err(format!("plugins {g:?}: the server said {}", short(&e)));
        }
    }
    // libraries it must refuse
    let ver = bin("../../plug/debug/examples/libplugver.so");
    std::fs::copy(&ver, libs.join("version.so")).map_err(|e| format!("{ver:?}: {e}"))?;
    std::env::set_var("VHPLUG_RUSTC", "1.0.0");
    for g in ["libs/version.so", "libs/*.so", "libs/readme.txt", "libs/*", "***", "a[", "libs/sub"] {
        rep.eval(1);
        rep.count("servers_refusing_plugins", 1);
        rep.distinct(&("badglob", g));
        let a = os(&["-a", "127.0.0.1:0", "-p", g, "memory"]);
        match start(&a, d.path()) {
            Err(Start::Exited(Some(x), ..)) if x != 0 => {}
            Err(x) => return Err(format!("plugins {g:?}: {x:?}")),
            Ok(p) => {
                p.end(libc::SIGKILL);
                return Err(format!("plugins {g:?}: the server started"));
            }
        }
    }
    std::env::remove_var("VHPLUG_RUSTC");
    Ok(())
}
pub fn c22(cx: &Ctx, rep: &Report) {
    if let Err(e) = plugins(h64(&(cx.seed, "plugins")), rep) {
        rep.violation("C22:server", e.clone(), e);
    }
}
pub fn c23(cx: &Ctx, rep: &Report) {
    for b in ["indradb-server", "indradb-client"] {
        if !bin(b).exists() {
            return rep.inconclusive(format!("{:?} has not been built", bin(b)));
        }
    }
    let sd = |k: u64| h64(&(cx.seed, "c23", k));
    std::thread::scope(|sc| {
        sc.spawn(|| {
            if let Err(e) = refusals(sd(0), rep) {
                rep.violation("C23:refusal", e.clone(), e);
            }
        });
        sc.spawn(|| not_unicode(rep));
        for k in 1..=(cx.threads as u64).max(6) {
            let store = [Store::Persist, Store::Rocks, Store::Persist, Store::Rocks, Store::Plain, Store::Rocks][k as usize % 6];
            sc.spawn(move || lane(store, sd(k), cx.dur(90), rep));
        }
    });
}
