//! Generators: small pools of related, adversarial ids, names and values; random operations and query trees.
use crate::db::TCall;
use crate::model::*;
use crate::rng::Rng;
use crate::types::*;
use serde_json::{json, Value};

pub struct Pools {
    pub ids: Vec<Id>,
    pub types: Vec<String>,
    pub names: Vec<String>,
    pub values: Vec<Value>,
}
pub fn special_ids() -> Vec<Id> {
    let b = 0x1234_5678_9abc_def0_0f1e_2d3c_4b5a_6978u128;
    let mut v = vec![
        0,
        1,
        2,
        255,
        256,
        u128::MAX,
        u128::MAX - 1,
        u128::MAX - 255,
        u128::MAX << 64,
        (1u128 << 64) - 1,
        1u128 << 64,
        1u128 << 127,
        (1u128 << 127) - 1,
        0xff,
        0xffff,
        0x10000,
        b,
        b + 1,
        b ^ (1 << 120),
        b ^ (0xff << 120),
        b | 0xff,
        (b | 0xff) + 1,
        b & !0xffu128,
        0x00ff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128,
        0x0100_0000_0000_0000_0000_0000_0000_0000u128,
    ];
    for k in [1u32, 4, 8, 12, 15] {
        v.push(b ^ (1u128 << (8 * k)));
    }
    v.sort();
    v.dedup();
    v
}
pub fn special_idents() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "a", "ab", "abc", "abd", "b", "aa", "-", "_", "--", "A", "0", "1", "01", "é", "éa", "日本", "日本語", "ß", "ZZ", "z", "name", "name2", "name-2",
        "x_y", "ａ", "𝔸", "٣", "created_at", "Ⅷ",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push("x".repeat(255));
    v.push("x".repeat(254));
    v.push("x".repeat(128));
    v.push("x".repeat(127));
    v.push("é".repeat(127));
    v.push(format!("{}y", "x".repeat(254)));
    v.push("日".repeat(85));
    // first bytes that coincide with length prefixes of other identifiers
    v.push("a".repeat(97)); // length byte 'a'
    v.push("a".repeat(48)); // '0'
    v
}
/// Values that are pairwise different as JSON, many of them easily confused. All floats survive a text round trip
/// (the recorded finding on others, see known_findings.json, stays out of the random histories).
pub fn special_values() -> Vec<Value> {
    let mut v = vec![
        json!(null),
        json!(true),
        json!(false),
        json!(0),
        json!(1),
        json!(-1),
        json!(2),
        json!(10),
        json!(i64::MIN),
        json!(i64::MIN + 1),
        json!(i64::MAX),
        json!(u64::MAX),
        json!(u64::MAX - 1),
        json!(i64::MAX as u64 + 1),
        json!(0.5),
        json!(-0.5),
        json!(1.5),
        json!(-2.25),
        json!(1e-7),
        json!(0.1),
        json!(0.0),
        json!(-0.0),
        json!(1.0),
        json!(-1.0),
        json!(10.0),
        json!(9007199254740992u64),
        json!(9007199254740993u64),
        json!(9007199254740992.0),
        json!(9223372036854775808.0),
        json!(18446744073709551616.0),
        json!([1.0]),
        json!({"a": 1.0}),
        json!(f64::to_bits(0.5)),
        json!(f64::to_bits(1.0)),
        json!(f64::to_bits(0.0)),
        json!(f64::to_bits(1.5)),
        json!(""),
        json!("0"),
        json!("1"),
        json!("null"),
        json!("true"),
        json!("a"),
        json!("ab"),
        json!("A"),
        json!("é"),
        json!("e\u{301}"),
        json!("\u{0}"),
        json!("\u{0}a"),
        json!("\"\\\n\t\u{1f}\u{7f}\u{2028}😀\u{10ffff}"),
        json!("x".repeat(300)),
        json!("y".repeat(70000)),
        json!([]),
        json!([[]]),
        json!([[], []]),
        json!([[[]]]),
        json!([[], 1]),
        json!([[1]]),
        json!([1]),
        json!([1, 2]),
        json!([[1], 2]),
        json!([[1, 2]]),
        json!([1, [2]]),
        json!([2, 1]),
        json!(["a", "b"]),
        json!(["ab"]),
        json!([null]),
        json!([null, null]),
        json!({}),
        json!([{}]),
        json!({"a": 1}),
        json!({"a": 2}),
        json!({"a": null}),
        json!({"a": {}}),
        json!({"a": []}),
        json!({"": 1}),
        json!({"a": 1, "b": 2}),
        json!({"a": {"b": 2}}),
        json!({"a": [1], "b": 2}),
        json!({"a": [1, {"b": 2}]}),
        json!({"b": 1}),
        json!({"é": "ü", "k": [true, false, null, -7, "s", {"n": {"m": [0.5]}}]}),
    ];
    let mut deep = json!(7);
    for _ in 0..40 {
        deep = json!([deep]);
    }
    v.push(deep);
    v.retain(|x| serde_json::from_slice::<Value>(&serde_json::to_vec(x).unwrap()).map(|y| crate::model::same(&y, x)).unwrap_or(false));
    v
}
/// Groups of different values that a sloppy comparison, hash or encoding would confuse.
pub fn families() -> Vec<Vec<Value>> {
    vec![
        vec![json!(3), json!(3.0), json!("3"), json!([3]), json!([3.0])],
        vec![json!(0), json!(0.0), json!(-0.0), json!(false), json!(null), json!(""), json!([]), json!({})],
        vec![json!(9007199254740992u64), json!(9007199254740993u64), json!(9007199254740992.0), json!(9007199254740994.0)],
        vec![json!(-1), json!(u64::MAX), json!(18446744073709551616.0), json!(i64::MAX), json!(i64::MIN), json!(-9223372036854775808.0)],
        vec![json!([[], 1]), json!([[1]]), json!([1, []]), json!([[[]], 1])],
        vec![json!([[1], 2]), json!([[1, 2]]), json!([1, 2]), json!([1, [2]]), json!([12])],
        vec![json!(f64::to_bits(0.5)), json!(0.5), json!("0.5")],
        vec![json!({"a": {}, "b": 1}), json!({"a": {"b": 1}}), json!({"a": [], "b": 1}), json!(["a", "b", 1])],
        vec![json!(true), json!("true"), json!(1), json!([true])],
        vec![json!("a"), json!("a\u{0}"), json!("A"), json!(["a"]), json!({"a": null})],
        vec![json!("é"), json!("e\u{301}"), json!("e")],
        vec![json!({"a": 1}), json!({"a": 1.0}), json!({"a": "1"}), json!({"A": 1}), json!({"a": 1, "b": null})],
        vec![json!(["ab"]), json!(["a", "b"]), json!(["a", ["b"]]), json!("ab")],
    ]
}
pub fn rand_value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 7 } else { 10 }) {
        0 => Value::Null,
        1 => json!(r.chance(1, 2)),
        2 => json!(r.next() as i64 >> r.below(64)),
        3 => json!(r.next() >> r.below(64)),
        4 => {
            // fractional, short decimal expansion: survives text
            let f = (r.below(2_000_000) as f64 - 1_000_000.0) + 0.5;
            json!(f / (1u64 << r.below(4)) as f64)
        }
        5 => json!(rand_string(r)),
        6 => json!(format!("s{}", r.below(5))),
        7 | 8 => Value::Array((0..r.below(5)).map(|_| rand_value(r, depth - 1)).collect()),
        _ => Value::Object((0..r.below(5)).map(|_| (rand_string(r), rand_value(r, depth - 1))).collect()),
    }
}
pub fn rand_string(r: &mut Rng) -> String {
    let n = match r.below(10) {
        0 => 0,
        1 => r.range(50, 400),
        _ => r.range(1, 12),
    };
    (0..n)
        .map(|_| match r.below(6) {
            0 => char::from_u32(r.below(0x20) as u32).unwrap(),
            1 => ['"', '\\', '/', '\u{7f}', '\u{2028}', '\u{feff}'][r.below(6)],
            2 => loop {
                if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                    break c;
                }
            },
            _ => char::from_u32(r.range(0x20, 0x7e) as u32).unwrap(),
        })
        .collect()
}
pub fn rand_ident(r: &mut Rng) -> String {
    let alphabet: Vec<char> = "abcxyzABC019-_éß日本Ωж".chars().collect();
    let target = match r.below(8) {
        0 => 0,
        1 => 255,
        2 => r.range(200, 255),
        3 => r.range(30, 130),
        _ => r.range(1, 9),
    };
    let mut s = String::new();
    while s.len() < target {
        let c = *r.pick(&alphabet);
        if s.len() + c.len_utf8() > target {
            s.push('k');
        } else {
            s.push(c);
        }
    }
    s
}
/// Groups of different identifiers that a normalising, folding or truncating code would confuse.
pub fn ident_families() -> Vec<Vec<String>> {
    let g: [&[&str]; 16] = [
        &["i", "I", "\u{131}", "\u{130}", "\u{2170}", "\u{ff49}"],
        &["k", "K", "\u{212a}"],
        &["s", "S", "\u{17f}", "ss", "\u{df}", "\u{1e9e}", "SS"],
        &["\u{c5}", "\u{212b}", "\u{e5}", "A", "a"],
        &["\u{3c3}", "\u{3c2}", "\u{3a3}"],
        &["fi", "\u{fb01}", "FI"],
        &["3", "\u{663}", "\u{b3}", "\u{ff13}", "03", "30", "\u{2462}"],
        &["a-b", "a_b", "ab", "a--b", "a__b"],
        &["-", "_", "", "--", "__"],
        &["-a", "_a", "a", "a-", "a_"],
        &["a", "\u{430}", "\u{3b1}", "\u{ff41}", "\u{aa}"],
        &["\u{e9}", "\u{c9}", "e", "E"],
        &["\u{ac00}", "\u{1100}\u{1161}", "\u{3131}\u{314f}"],
        &["\u{1c4}", "\u{1c5}", "\u{1c6}"],
        &["\u{10400}", "\u{10428}", "\u{400}", "\u{428}"],
        &["1", "01", "001", "1_0", "10"],
    ];
    g.iter().map(|f| f.iter().map(|s| s.to_string()).filter(|s| s.chars().all(|c| c == '-' || c == '_' || c.is_alphanumeric())).collect()).collect()
}
impl Pools {
    pub fn new(r: &mut Rng, nids: usize, nt: usize, nn: usize, nv: usize) -> Pools {
        if cfg!(miri) {
            // (an interpreter is better used on the library than on these lists)
            let ids = (0..nids).map(|k| [0, u128::MAX, 1 << 64, 7, 8][k % 5] ^ (((k / 5) as u128) << 32)).collect();
            let w = |n: usize, at: usize| (0..n).map(|k| ["a", "b\u{e9}", "ccc", "d-_d"][(k + at) % 4].to_string()).collect();
            let at = r.below(4);
            return Pools { ids, types: w(nt, 0), names: w(nn, at), values: vec![json!(null), json!(1), json!("x\u{e9}"), json!({"a": [1.5, true]})] };
        }
        let sp = special_ids();
        let mut ids = Vec::new();
        while ids.len() < nids {
            let id = match r.below(6) {
                0..=2 => *r.pick(&sp),
                3 if !ids.is_empty() => {
                    let x: &Id = r.pick(&ids);
                    x.wrapping_add([1, u128::MAX, 256, 1 << 64][r.below(4)])
                }
                _ => r.u128(),
            };
            if !ids.contains(&id) {
                ids.push(id);
            }
        }
        let si = special_idents();
        let pick_idents = |r: &mut Rng, n: usize| {
            let mut v: Vec<String> = Vec::new();
            if r.chance(1, 4) {
                // some that look alike, alone or within a longer one
                let mut f = r.pick(&ident_families()).clone();
                r.shuffle(&mut f);
                f.truncate(n.min(3));
                let (a, b) = [("", ""), ("", ""), ("x", ""), ("", "y"), ("x-", "_y")][r.below(5)];
                v = f.iter().map(|s| format!("{a}{s}{b}")).collect();
            }
            while v.len() < n {
                let s = if r.chance(3, 4) { r.pick(&si).clone() } else { rand_ident(r) };
                if !v.contains(&s) {
                    v.push(s);
                }
            }
            v
        };
        let types = pick_idents(r, nt);
        let mut names = pick_idents(r, nn);
        // often let a property name coincide with a type name
        if r.chance(1, 2) && !names.contains(&types[0]) {
            names[0] = types[0].clone();
        }
        let sv = special_values();
        let mut values: Vec<Value> = if r.chance(1, 2) { r.pick(&families()).clone() } else { Vec::new() };
        values.truncate(nv.saturating_sub(2));
        while values.len() < nv {
            let v = if r.chance(4, 5) { r.pick(&sv).clone() } else { rand_value(r, 3) };
            if !values.iter().any(|x| crate::model::same(x, &v)) {
                values.push(v);
            }
        }
        Pools { ids, types, names, values }
    }
    pub fn id(&self, r: &mut Rng) -> Id {
        *r.pick(&self.ids)
    }
    pub fn t(&self, r: &mut Rng) -> String {
        r.pick(&self.types).clone()
    }
    pub fn name(&self, r: &mut Rng) -> String {
        r.pick(&self.names).clone()
    }
    pub fn val(&self, r: &mut Rng) -> Value {
        r.pick(&self.values).clone()
    }
    pub fn edge(&self, r: &mut Rng, m: Option<&Model>) -> EK {
        if let Some(m) = m {
            if !m.e.is_empty() && r.chance(2, 3) {
                return m.e.iter().nth(r.below(m.e.len())).unwrap().clone();
            }
            if !m.v.is_empty() && r.chance(4, 5) {
                let vs: Vec<Id> = m.v.keys().cloned().collect();
                return EK { o: *r.pick(&vs), t: self.t(r), i: *r.pick(&vs) };
            }
        }
        EK { o: self.id(r), t: self.t(r), i: self.id(r) }
    }
    pub fn limit(&self, r: &mut Rng) -> u32 {
        match r.below(10) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => r.below(6) as u32,
            4 => r.below(40) as u32,
            _ => u32::MAX,
        }
    }
    pub fn opt_t(&self, r: &mut Rng) -> Option<String> {
        if r.chance(1, 3) {
            Some(self.t(r))
        } else {
            None
        }
    }
    /// A query tree of output type V or E.
    pub fn q_elems(&self, r: &mut Rng, m: &Model, depth: usize, want_v: bool) -> Q {
        if depth == 0 || r.chance(1, 4) {
            return if want_v {
                match r.below(12) {
                    0..=1 => Q::AllV,
                    2..=5 => Q::RangeV {
                        limit: self.limit(r),
                        t: self.opt_t(r),
                        start: if r.chance(1, 2) { Some(if r.chance(4, 5) { self.id(r) } else { r.u128() }) } else { None },
                    },
                    6..=8 => Q::SpecV((0..r.below(5)).map(|_| self.id(r)).collect()),
                    9 => Q::SpecV(vec![self.id(r)]),
                    10 => Q::VHas(self.ixname(r, m)),
                    _ => {
                        let n = self.ixname(r, m);
                        Q::VVal(n.clone(), self.vval(r, m, &n))
                    }
                }
            } else {
                match r.below(8) {
                    0..=2 => Q::AllE,
                    3..=5 => Q::SpecE((0..r.below(5)).map(|_| self.edge(r, Some(m))).collect()),
                    6 => Q::EHas(self.ixname(r, m)),
                    _ => {
                        let n = self.ixname(r, m);
                        Q::EVal(n.clone(), self.eval(r, m, &n))
                    }
                }
            };
        }
        match r.below(10) {
            0..=5 => {
                let inner = self.q_elems(r, m, depth - 1, !want_v);
                let inner = self.maybe_incl(r, inner);
                Q::Pipe { inner: Box::new(inner), dir: if r.chance(1, 2) { Dir::Out } else { Dir::In }, limit: self.limit(r), t: self.opt_t(r) }
            }
            6 => {
                let inner = self.q_elems(r, m, depth - 1, want_v);
                let inner = self.maybe_incl(r, inner);
                Q::Has { inner: Box::new(inner), name: self.ixname(r, m), exists: r.chance(1, 2) }
            }
            7 | 8 => {
                let inner = self.q_elems(r, m, depth - 1, want_v);
                let inner = self.maybe_incl(r, inner);
                let name = self.ixname(r, m);
                let value = if want_v { self.vval(r, m, &name) } else { self.eval(r, m, &name) };
                Q::Val { inner: Box::new(inner), name, value, equal: r.chance(2, 3) }
            }
            _ => Q::Incl(Box::new(self.q_elems(r, m, depth - 1, want_v))),
        }
    }
    fn maybe_incl(&self, r: &mut Rng, q: Q) -> Q {
        if r.chance(1, 4) {
            Q::Incl(Box::new(q))
        } else {
            q
        }
    }
    pub fn ixname(&self, r: &mut Rng, m: &Model) -> String {
        if !m.ix.is_empty() && !r.chance(1, 25) {
            m.ix.iter().nth(r.below(m.ix.len())).unwrap().clone()
        } else {
            self.name(r)
        }
    }
    pub fn vval(&self, r: &mut Rng, m: &Model, n: &str) -> Value {
        let c: Vec<&Value> = m.vp.iter().filter(|((_, x), _)| x == n).map(|(_, v)| v).collect();
        if !c.is_empty() && r.chance(3, 4) {
            (*r.pick(&c)).clone()
        } else {
            self.val(r)
        }
    }
    pub fn eval(&self, r: &mut Rng, m: &Model, n: &str) -> Value {
        let c: Vec<&Value> = m.ep.iter().filter(|((_, x), _)| x == n).map(|(_, v)| v).collect();
        if !c.is_empty() && r.chance(3, 4) {
            (*r.pick(&c)).clone()
        } else {
            self.val(r)
        }
    }
    /// Any well-typed query.
    pub fn q_any(&self, r: &mut Rng, m: &Model, depth: usize) -> Q {
        let want_v = r.chance(1, 2);
        let q = self.q_elems(r, m, depth, want_v);
        let q = self.maybe_incl(r, q);
        match r.below(6) {
            0 | 1 => q,
            2 | 3 => {
                let p = Q::Props { inner: Box::new(q), name: if r.chance(1, 2) { Some(self.name(r)) } else { None } };
                match r.below(4) {
                    0 => Q::Count(Box::new(self.maybe_incl(r, p))),
                    1 => Q::Incl(Box::new(p)),
                    _ => p,
                }
            }
            4 => {
                let c = Q::Count(Box::new(q));
                if r.chance(1, 8) {
                    Q::Incl(Box::new(c))
                } else {
                    c
                }
            }
            _ => q,
        }
    }
    /// Any query, possibly ill-typed.
    pub fn q_wild(&self, r: &mut Rng, m: &Model, depth: usize) -> Q {
        let mut q = self.q_any(r, m, depth);
        for _ in 0..r.range(1, 2) {
            let inner = Box::new(q);
            q = match r.below(6) {
                0 => Q::Pipe { inner, dir: Dir::Out, limit: self.limit(r), t: self.opt_t(r) },
                1 => Q::Props { inner, name: None },
                2 => Q::Has { inner, name: self.ixname(r, m), exists: r.chance(1, 2) },
                3 => Q::Val { inner, name: self.ixname(r, m), value: self.val(r), equal: r.chance(1, 2) },
                4 => Q::Incl(inner),
                _ => Q::Count(inner),
            };
        }
        q
    }
    /// In-domain bulk list: owners exist or appear earlier in the list.
    pub fn bulk(&self, r: &mut Rng, m: &Model, n: usize) -> Vec<Item> {
        let mut tmp = m.clone();
        let mut items = Vec::new();
        for _ in 0..n {
            let it = match r.below(10) {
                0..=2 => {
                    let id = self.id(r);
                    let t = tmp.v.get(&id).filter(|_| r.chance(2, 3)).cloned().unwrap_or_else(|| self.t(r));
                    Item::V(id, t)
                }
                3..=5 => {
                    let vs: Vec<Id> = tmp.v.keys().cloned().collect();
                    if vs.is_empty() {
                        continue;
                    }
                    Item::E(EK { o: *r.pick(&vs), t: self.t(r), i: *r.pick(&vs) })
                }
                6..=7 => {
                    let vs: Vec<Id> = tmp.v.keys().cloned().collect();
                    if vs.is_empty() {
                        continue;
                    }
                    Item::VP(*r.pick(&vs), self.name(r), self.val(r))
                }
                _ => {
                    if tmp.e.is_empty() {
                        continue;
                    }
                    let e = tmp.e.iter().nth(r.below(tmp.e.len())).unwrap().clone();
                    Item::EP(e, self.name(r), self.val(r))
                }
            };
            tmp.bulk(std::slice::from_ref(&it));
            items.push(it);
        }
        items
    }
}

#[derive(Clone)]
pub struct Weights {
    pub create_v: usize,
    pub create_vt: usize,
    pub create_e: usize,
    pub bulk: usize,
    pub set: usize,
    pub del_elems: usize,
    pub del_props: usize,
    pub index: usize,
    pub get: usize,
    pub sync: usize,
    pub reopen: usize,
    pub wild: usize,
    pub depth: usize,
}
impl Default for Weights {
    fn default() -> Self {
        Weights { create_v: 10, create_vt: 1, create_e: 14, bulk: 4, set: 16, del_elems: 5, del_props: 6, index: 2, get: 30, sync: 1, reopen: 1, wild: 2, depth: 4 }
    }
}
pub fn gen_op(p: &Pools, r: &mut Rng, m: &Model, w: &Weights) -> Op {
    let opts = [
        w.create_v, w.create_vt, w.create_e, w.bulk, w.set, w.del_elems, w.del_props, w.index, w.get, w.sync, w.reopen, w.wild,
    ];
    let total: usize = opts.iter().sum();
    let mut x = r.below(total);
    let mut k = 0;
    while x >= opts[k] {
        x -= opts[k];
        k += 1;
    }
    match k {
        0 => Op::CreateV(p.id(r), p.t(r)),
        1 => Op::CreateVT(p.t(r)),
        2 => {
            let e = if r.chance(5, 6) && !m.v.is_empty() {
                let vs: Vec<Id> = m.v.keys().cloned().collect();
                let o = *r.pick(&vs);
                let i = if r.chance(1, 6) { o } else { *r.pick(&vs) };
                EK { o, t: p.t(r), i }
            } else {
                p.edge(r, None)
            };
            Op::CreateE(e)
        }
        3 => {
            let n = if !cfg!(miri) && r.chance(1, 30) { r.range(100, 320) } else { r.range(0, 14) };
            Op::Bulk(p.bulk(r, m, n))
        }
        4 => {
            let d = r.below(w.depth.min(3) + 1);
            let q = match r.below(4) {
                0 => Q::SpecV(vec![p.id(r)]),
                1 => Q::SpecE(vec![p.edge(r, Some(m))]),
                _ => {
                    let v = r.chance(1, 2);
                    p.q_elems(r, m, d, v)
                }
            };
            Op::Set(q, p.name(r), p.val(r))
        }
        5 => {
            let q = match r.below(6) {
                0 | 1 => Q::SpecV(vec![p.id(r)]),
                2 | 3 => Q::SpecE(vec![p.edge(r, Some(m))]),
                4 => Q::Pipe { inner: Box::new(Q::SpecV(vec![p.id(r)])), dir: if r.chance(1, 2) { Dir::Out } else { Dir::In }, limit: p.limit(r), t: p.opt_t(r) },
                _ => {
                    let v = r.chance(1, 3);
                    let d = r.below(w.depth.min(3) + 1);
                    p.q_elems(r, m, d, v)
                }
            };
            Op::Delete(q)
        }
        6 => {
            let inner = match r.below(4) {
                0 => Q::SpecV(vec![p.id(r)]),
                1 => Q::SpecE(vec![p.edge(r, Some(m))]),
                _ => {
                    let v = r.chance(1, 2);
                    let d = r.below(2);
                    p.q_elems(r, m, d, v)
                }
            };
            Op::Delete(Q::Props { inner: Box::new(inner), name: if r.chance(2, 3) { Some(p.name(r)) } else { None } })
        }
        7 => Op::Index(p.name(r)),
        8 => Op::Get(p.q_any(r, m, w.depth)),
        9 => Op::Sync,
        10 => Op::Reopen(r.below(20) as u8),
        _ => match r.below(4) {
            0 => Op::Delete(p.q_wild(r, m, 2)),
            1 => Op::Set(p.q_wild(r, m, 2), p.name(r), p.val(r)),
            _ => Op::Get(p.q_wild(r, m, 3)),
        },
    }
}

// ---------------------------------------------------------------- arguments the types admit and nobody expects
pub fn deep(n: usize, object: bool) -> Value {
    let mut v = json!("x");
    for _ in 0..n {
        v = if object { json!({"a": v}) } else { json!([v]) };
    }
    v
}
pub fn hostile_value(r: &mut Rng, p: &Pools) -> Value {
    match if cfg!(miri) { 20 } else { r.below(14) } {
        0 => deep(r.range(100, 400), false),
        1 => deep(r.range(100, 400), true),
        2 => deep([126, 127, 128, 129][r.below(4)], r.chance(1, 2)),
        3 => json!("x".repeat(r.range(10_000, 300_000))),
        4 => Value::Array((0..r.range(100, 3000)).map(|k| json!(k)).collect()),
        5 => Value::Object((0..r.range(100, 1000)).map(|k| (format!("k{k}"), json!(null))).collect()),
        6 => json!({"": {"": []}, "\u{0}": "\u{0}\u{1f}\u{7f}"}),
        7 => json!([1.0, 1, -0.0, 0, u64::MAX, i64::MIN, 1e308, 5e-324]),
        8 => json!("\u{feff}\u{202e}\u{10ffff}"),
        _ => p.val(r),
    }
}
/// Arguments the types admit; whether the effect is settled by the model does not matter here.
pub fn hostile_items(r: &mut Rng, p: &Pools) -> Vec<Item> {
    let n = if cfg!(miri) { r.below(5) } else { [0, 1, 2, 3, 8, 30, 600][r.below(7)] };
    let mut v: Vec<Item> = Vec::new();
    while v.len() < n {
        let it = match r.below(9) {
            0 | 1 => Item::V(p.id(r), p.t(r)),
            2 | 3 => Item::E(p.edge(r, None)),
            4 | 5 => Item::VP(p.id(r), p.name(r), if n > 100 { p.val(r) } else { hostile_value(r, p) }),
            6 => Item::EP(p.edge(r, None), p.name(r), if n > 100 { p.val(r) } else { hostile_value(r, p) }),
            _ if v.is_empty() => continue,
            _ => v[r.below(v.len())].clone(),
        };
        v.push(it);
    }
    v
}
pub fn many<T: Clone>(r: &mut Rng, mut one: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = if cfg!(miri) { r.below(3) } else { [0, 1, 1, 2, 5, 200][r.below(6)] };
    let mut v: Vec<T> = (0..n).map(|_| one(r)).collect();
    if n > 1 && r.chance(1, 2) {
        v[0] = v[n - 1].clone();
    }
    v
}
pub fn tcall(r: &mut Rng, p: &Pools) -> TCall {
    match r.below(24) {
        0 => TCall::DelV(many(r, |r| (p.id(r), p.t(r)))),
        1 => TCall::DelE(many(r, |r| p.edge(r, None))),
        2 => TCall::DelVP(many(r, |r| (p.id(r), p.name(r)))),
        3 => TCall::DelEP(many(r, |r| (p.edge(r, None), p.name(r)))),
        4 | 5 => TCall::SetVP(many(r, |r| p.id(r)), p.name(r), hostile_value(r, p)),
        6 | 7 => TCall::SetEP(many(r, |r| p.edge(r, None)), p.name(r), hostile_value(r, p)),
        8 => TCall::CreateV(p.id(r), p.t(r)),
        9 => TCall::CreateE(p.edge(r, None)),
        10 | 11 => TCall::Bulk(hostile_items(r, p)),
        12 => TCall::Index(p.name(r)),
        13 => TCall::VProp(p.id(r), p.t(r), p.name(r)),
        14 => TCall::VProps(p.id(r), p.t(r)),
        15 => TCall::EProp(p.edge(r, None), p.name(r)),
        16 => TCall::EProps(p.edge(r, None)),
        17 => TCall::SpecV(many(r, |r| p.id(r))),
        18 => TCall::SpecE(many(r, |r| p.edge(r, None))),
        19 => TCall::RangeV(p.id(r)),
        20 => TCall::RangeE(EK::new([0, u128::MAX, p.id(r)][r.below(3)], &p.t(r), [0, u128::MAX][r.below(2)])),
        21 => TCall::RangeR(EK::new([0, u128::MAX, p.id(r)][r.below(3)], &p.t(r), [0, u128::MAX][r.below(2)])),
        22 => match r.below(4) {
            0 => TCall::VHas(p.name(r)),
            1 => TCall::EHas(p.name(r)),
            2 => TCall::VVal(p.name(r), hostile_value(r, p)),
            _ => TCall::EVal(p.name(r), hostile_value(r, p)),
        },
        _ => TCall::Sync,
    }
}
