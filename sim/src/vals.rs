//! Values of all types: generation, and translation between the library's types and ours.
use std::collections::HashMap as StdMap;

use chrono::{DateTime, TimeZone, Utc};
use ntex_amqp::codec::protocol::{self as p, Error as AError, ErrorCondition, MessageId};
use ntex_amqp::codec::types::{
    Array, DescribedCompound, Descriptor, List, Multiple, Str, Symbol, Variant, VariantMap, VecStringMap, VecSymbolMap,
};
use ntex_amqp::codec::{Encode, Message};
use ntex_bytes::{ByteString, Bytes};
use uuid::Uuid;

use crate::rng::{Rng, mix};
use crate::wire::{self, V};

// ---- generation --------------------------------------------------------

pub struct Gv {
    pub r: Rng,
    /// octets left, approximately
    pub budget: i64,
}

impl Gv {
    pub fn new(seed: u64, salt: u64, budget: i64) -> Gv {
        Gv { r: Rng::new(mix(seed ^ mix(salt ^ 0x7a1e))), budget }
    }
    fn len(&mut self) -> usize {
        let n = match self.r.below(20) {
            0 => 0,
            1..=10 => self.r.below(12) as usize,
            11..=16 => self.r.below(60) as usize,
            17 => self.r.range(250, 260) as usize,
            18 => self.r.range(245, 257) as usize,
            _ => self.r.below(700) as usize,
        };
        let n = if self.budget <= 0 { n.min(3) } else { n.min(self.budget as usize) };
        self.budget -= n as i64;
        n
    }
    pub fn text(&mut self) -> String {
        let n = self.len();
        let wide = self.r.pct(15);
        let mut s = String::new();
        while s.len() < n {
            let c = if wide && n - s.len() >= 4 {
                *self.r.pick(&['ä', '€', '😀', '\u{0}', '\u{7f}', 'z'])
            } else {
                char::from(b'a' + self.r.below(26) as u8)
            };
            s.push(c);
        }
        s
    }
    pub fn ident(&mut self) -> String {
        let n = self.len().max(1);
        (0..n).map(|_| char::from(*self.r.pick(b"abcxyz-:.019"))).collect()
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = self.len();
        self.r.bytes(n)
    }
    fn int(&mut self) -> u64 {
        let x = self.r.next();
        match self.r.below(12) {
            0 => 0,
            1 => 1,
            2 => self.r.range(126, 130),
            3 => self.r.range(254, 258),
            4 => (-(self.r.range(1, 3) as i64)) as u64,
            5 => (-(self.r.range(126, 131) as i64)) as u64,
            6 => self.r.range(0x7ffe, 0x8002),
            7 => self.r.range(0x7fff_fffe, 0x8000_0002),
            8 => u64::MAX - self.r.below(2),
            9 => 1 << self.r.below(64),
            10 => x >> self.r.below(64),
            _ => x,
        }
    }
    pub fn time(&mut self) -> i64 {
        match self.r.below(8) {
            0 => 0,
            1 => self.r.below(3000) as i64 - 1500,
            2 => -(self.r.below(100_000) as i64) * 1000,
            3 => -(self.r.below(4_000_000_000_000) as i64),
            4 => (self.r.below(8_000_000_000_000_000)) as i64,
            5 => -(self.r.below(8_000_000_000_000_000) as i64),
            _ => 1_700_000_000_000 + self.r.below(1_000_000_000) as i64,
        }
    }
    /// the n-th primitive type
    pub fn prim(&mut self, k: u64) -> V {
        self.budget -= 4;
        match k {
            0 => V::Bool(self.r.pct(50)),
            1 => V::Ubyte(self.int() as u8),
            2 => V::Ushort(self.int() as u16),
            3 => V::Uint(self.int() as u32),
            4 => V::Ulong(self.int()),
            5 => V::Byte(self.int() as i8),
            6 => V::Short(self.int() as i16),
            7 => V::Int(self.int() as i32),
            8 => V::Long(self.int() as i64),
            9 => V::Float(match self.r.below(5) {
                0 => 0,
                1 => 0x8000_0000,
                2 => *self.r.pick(&[f32::NAN.to_bits(), f32::INFINITY.to_bits(), f32::MIN.to_bits(), 1]),
                3 => 1.5f32.to_bits(),
                _ => self.r.next() as u32,
            }),
            10 => V::Double(match self.r.below(5) {
                0 => 0,
                1 => 1 << 63,
                2 => *self.r.pick(&[f64::NAN.to_bits(), f64::NEG_INFINITY.to_bits(), f64::MAX.to_bits(), 1]),
                3 => 1.5f64.to_bits(),
                _ => self.r.next(),
            }),
            11 => V::Char(u32::from(*self.r.pick(&['a', '\u{0}', 'ß', '\u{ffff}', '\u{10ffff}', '\u{d7ff}', '\u{e000}']))),
            12 => V::Time(self.time()),
            13 => V::Uuid(self.r.bytes(16).try_into().unwrap()),
            14 => V::Bin(self.bytes()),
            15 => V::Str(self.text()),
            16 => V::Sym(self.ident()),
            17 => V::Dec32(self.r.bytes(4).try_into().unwrap()),
            18 => V::Dec64(self.r.bytes(8).try_into().unwrap()),
            19 => V::Dec128(self.r.bytes(16).try_into().unwrap()),
            _ => V::Null,
        }
    }
    fn count(&mut self) -> usize {
        let n = match self.r.below(12) {
            0 => 0,
            1..=8 => self.r.range(1, 4) as usize,
            9 => self.r.range(5, 20) as usize,
            10 => self.r.range(120, 130) as usize,
            _ => self.r.range(250, 260) as usize,
        };
        if self.budget <= 0 { n.min(1) } else { n.min(1 + self.budget as usize / 2) }
    }
    pub fn value(&mut self, depth: u32) -> V {
        let k = self.r.below(if depth == 0 { 21 } else { 30 });
        self.sized(k, depth)
    }
    fn sized(&mut self, k: u64, depth: u32) -> V {
        match k {
            0..=20 => self.prim(k),
            21..=23 => {
                let n = self.count();
                let d = if n > 20 { 0 } else { depth - 1 };
                let same = if n > 20 { Some(*self.r.pick(&[0u64, 3, 1, 20, 4])) } else { None };
                V::List(
                    (0..n)
                        .map(|_| match same {
                            Some(k) => self.prim(k),
                            None => self.value(d),
                        })
                        .collect(),
                )
            }
            24 | 25 => {
                let n = self.count().min(140);
                V::Map(self.map(n, depth - 1, 0))
            }
            26 | 27 => self.array(),
            _ => {
                let d = if self.r.pct(50) {
                    V::Ulong(*self.r.pick(&[0, 1u64 << 32, 0x0000_468c_0000_0001, 0x1000_0000_0000_0007, 200, 255, 256]))
                } else {
                    V::Sym(format!("x:{}", self.ident()))
                };
                V::Desc(Box::new(d), Box::new(self.value(depth - 1)))
            }
        }
    }
    pub fn array(&mut self) -> V {
        let n = self.count();
        let k = self.r.below(17);
        if n == 0 {
            return V::Array(vec![]);
        }
        V::Array((0..n).map(|_| self.prim(k)).collect())
    }
    /// keys: 0 anything, 1 symbols, 2 strings
    pub fn map(&mut self, n: usize, depth: u32, keys: u8) -> Vec<(V, V)> {
        let mut m: Vec<(V, V)> = vec![];
        for i in 0..n {
            self.budget -= 4;
            let k = match keys {
                1 => V::Sym(format!("{}{i}", self.ident())),
                2 => V::Str(format!("{}{i}", self.text())),
                _ => match self.r.below(9) {
                    0 => V::Uint(i as u32),
                    1 => V::Long(i as i64 - 5),
                    2 => V::Sym(format!("s{i}")),
                    3 => V::Bin(vec![i as u8; i % 5 + 1]),
                    4 => V::Uuid([i as u8; 16]),
                    5 => V::List(vec![V::Uint(i as u32), V::Null]),
                    6 => V::Map(vec![(V::Ulong(i as u64), V::Bool(true)), (V::str("k"), V::Int(3))]),
                    7 => V::Desc(Box::new(V::sym("x:k")), Box::new(V::Ulong(i as u64))),
                    _ => V::Str(format!("k{i}")),
                },
            };
            if m.iter().any(|x| x.0.same(&k)) {
                continue;
            }
            let d = if n > 20 { 0 } else { depth };
            let v = if n > 20 { self.prim(i as u64 % 2) } else { self.value(d) };
            m.push((k, v));
        }
        m
    }
    fn some(&mut self, pct: u32, f: impl FnOnce(&mut Gv) -> V) -> V {
        if self.r.pct(pct) { f(self) } else { V::Null }
    }
    fn syms(&mut self) -> V {
        let n = *self.r.pick(&[0usize, 1, 1, 2, 3, 7]);
        V::Array((0..n).map(|_| V::Sym(self.ident())).collect())
    }
    fn fields(&mut self) -> V {
        let n = self.count().min(30);
        V::Map(self.map(n, 2, 1))
    }
    fn message_id(&mut self) -> V {
        let k = *self.r.pick(&[4u64, 13, 14, 15]);
        self.prim(k)
    }
}

/// sections of the message number m
pub fn sections(seed: u64, m: u64, len: usize) -> Vec<V> {
    let mut g = Gv::new(seed, m.wrapping_mul(31), 3000);
    let mut s = vec![];
    if g.r.pct(40) {
        let f = vec![
            g.some(50, |g| V::Bool(g.r.pct(50))),
            g.some(50, |g| g.prim(1)),
            g.some(50, |g| g.prim(3)),
            g.some(50, |g| V::Bool(g.r.pct(50))),
            g.some(50, |g| g.prim(3)),
        ];
        s.push(V::desc(0x70, V::List(f)));
    }
    for c in [0x71, 0x72] {
        if g.r.pct(30) {
            let n = g.count().min(140);
            s.push(V::desc(c, V::Map(g.map(n, 2, 1))));
        }
    }
    if g.r.pct(55) {
        let p = *g.r.pick(&[10u32, 40, 90]);
        let f = vec![
            g.some(p, Gv::message_id),
            g.some(p, |g| g.prim(14)),
            g.some(p, |g| g.prim(15)),
            g.some(p, |g| g.prim(15)),
            g.some(p, |g| g.prim(15)),
            g.some(p, Gv::message_id),
            g.some(p, |g| g.prim(16)),
            g.some(p, |g| g.prim(16)),
            g.some(p, |g| g.prim(12)),
            g.some(p, |g| g.prim(12)),
            g.some(p, |g| g.prim(15)),
            g.some(p, |g| g.prim(3)),
            g.some(p, |g| g.prim(15)),
        ];
        s.push(V::desc(0x73, V::List(f)));
    }
    if g.r.pct(45) {
        let n = g.count().min(140);
        s.push(V::desc(0x74, V::Map(g.map(n, 2, 2))));
    }
    match g.r.below(10) {
        0..=3 => {
            s.push(V::desc(0x75, V::Bin(crate::node::body_bytes(m, len))));
            while g.r.pct(30) {
                s.push(V::desc(0x75, V::Bin(g.bytes())));
            }
        }
        4 | 5 => {
            for _ in 0..g.r.range(1, 3) {
                let n = g.count();
                s.push(V::desc(0x76, V::List((0..n).map(|_| g.value(if n > 9 { 0 } else { 2 })).collect())));
            }
        }
        _ => s.push(V::desc(0x77, g.value(4))),
    }
    if g.r.pct(25) {
        let n = g.count().min(140);
        s.push(V::desc(0x78, V::Map(g.map(n, 2, 1))));
    }
    s
}

const STD: &[&str] = &[
    "amqp:internal-error",
    "amqp:not-found",
    "amqp:unauthorized-access",
    "amqp:decode-error",
    "amqp:resource-limit-exceeded",
    "amqp:not-allowed",
    "amqp:invalid-field",
    "amqp:not-implemented",
    "amqp:resource-locked",
    "amqp:precondition-failed",
    "amqp:resource-deleted",
    "amqp:illegal-state",
    "amqp:frame-size-too-small",
    "amqp:connection:forced",
    "amqp:connection:framing-error",
    "amqp:connection:redirect",
    "amqp:session:window-violation",
    "amqp:session:errant-link",
    "amqp:session:handle-in-use",
    "amqp:session:unattached-handle",
    "amqp:link:detach-forced",
    "amqp:link:transfer-limit-exceeded",
    "amqp:link:message-size-exceeded",
    "amqp:link:redirect",
    "amqp:link:stolen",
];

/// names of errors this module defines the contents of
pub fn is_key(s: &str) -> bool {
    s.strip_prefix("key-").is_some_and(|x| x.parse::<u64>().is_ok())
}

/// the error that goes by this name
pub fn error(seed: u64, key: &str) -> V {
    let h = key.bytes().fold(7u64, |h, b| mix(h ^ u64::from(b)));
    let mut g = Gv::new(seed, h, 250);
    let std = g.r.pct(40);
    let c = if std { (*g.r.pick(STD)).to_string() } else { key.to_string() };
    let d = if std { V::str(key) } else { g.some(50, |g| V::Str(g.text())) };
    let i = g.some(50, Gv::fields);
    V::desc(wire::ERROR, V::List(vec![V::Sym(c), d, i]))
}

pub fn key_of_error(v: &V) -> Option<String> {
    if v.code() != Some(wire::ERROR) {
        return None;
    }
    v.fields().iter().take(2).filter_map(V::as_str).find(|s| is_key(s)).map(str::to_string)
}

/// delivery states, as in `node::make_state`
pub fn state(seed: u64, kind: usize, x: u64) -> V {
    let mut g = Gv::new(seed, x ^ 0x57a7_e000 ^ (kind as u64) << 40, 200);
    match kind {
        0 => V::desc(wire::ACCEPTED, V::List(vec![])),
        1 => {
            let e = if g.r.pct(25) { vec![] } else { vec![error(seed, &format!("key-{x}"))] };
            V::desc(wire::REJECTED, V::List(e))
        }
        2 => V::desc(wire::RELEASED, V::List(vec![])),
        3 => {
            let f = vec![
                g.some(66, |g| V::Bool(g.r.pct(50))),
                g.some(66, |g| V::Bool(g.r.pct(50))),
                g.some(70, |g| {
                    let V::Map(mut m) = g.fields() else { unreachable!() };
                    m.push((V::sym("state-no"), V::Ulong(x)));
                    V::Map(m)
                }),
            ];
            V::desc(wire::MODIFIED, V::List(f))
        }
        _ => V::desc(wire::RECEIVED, V::List(vec![V::Uint((x % 7) as u32), V::Ulong(x)])),
    }
}

/// number of a state of this module's making
pub fn no_of_state(v: &V) -> Option<u64> {
    if v.code() != Some(wire::MODIFIED) {
        return None;
    }
    let V::Map(m) = v.fields().get(2)? else { return None };
    m.iter().find(|x| x.0.as_str() == Some("state-no")).and_then(|x| x.1.as_u64())
}

/// what a link is attached with: source, target (both without an address), offered and desired
/// capabilities, properties
pub fn terms(seed: u64, l: usize) -> [V; 5] {
    let mut g = Gv::new(seed, 0xa77a_0000 ^ l as u64, 1200);
    let expiry = |g: &mut Gv| {
        V::sym(*g.r.pick(&["link-detach", "session-end", "connection-close", "never"]))
    };
    let src = vec![
        V::Null,
        g.some(40, |g| V::Uint(g.r.below(3) as u32)),
        g.some(40, expiry),
        g.some(40, |g| g.prim(3)),
        g.some(20, |_| V::Bool(false)),
        g.some(20, Gv::fields),
        g.some(40, |g| V::Sym(if g.r.pct(70) { (*g.r.pick(&["move", "copy"])).to_string() } else { g.ident() })),
        g.some(30, |g| {
            let n = g.count().min(20);
            let m = (0..n).map(|i| (V::Sym(format!("f{i}")), if g.r.pct(20) { V::Null } else { V::Str(g.text()) }));
            V::Map(m.collect())
        }),
        g.some(40, |g| {
            let k = g.r.below(4) as usize;
            let x = g.r.below(1000);
            state(seed, k, x)
        }),
        g.some(40, |g| {
            if g.r.pct(50) { V::Array(vec![V::sym("amqp:accepted:list"), V::sym("amqp:rejected:list")]) } else { g.syms() }
        }),
        g.some(40, Gv::syms),
    ];
    let tgt = vec![
        V::Null,
        g.some(40, |g| V::Uint(g.r.below(3) as u32)),
        g.some(40, expiry),
        g.some(40, |g| g.prim(3)),
        g.some(20, |_| V::Bool(false)),
        g.some(20, Gv::fields),
        g.some(40, Gv::syms),
    ];
    [
        V::desc(wire::SOURCE, V::List(src)),
        V::desc(wire::TARGET, V::List(tgt)),
        g.some(30, Gv::syms),
        g.some(30, Gv::syms),
        g.some(50, Gv::fields),
    ]
}

/// properties for open, begin and flow
pub fn extra(seed: u64, salt: u64) -> (V, V, V) {
    let mut g = Gv::new(seed, salt ^ 0xe0e0, 800);
    (g.some(60, Gv::syms), g.some(60, Gv::syms), g.some(60, Gv::fields))
}

/// with a filter as the specification has them
pub fn with_filter(t: &V) -> V {
    let mut f = t.fields().to_vec();
    let x = V::Desc(Box::new(V::sym("x:selector:string")), Box::new(V::str("color = 'red'")));
    f.resize(f.len().max(8), V::Null);
    f[7] = V::Map(vec![(V::sym("selector"), x)]);
    V::desc(t.code().unwrap(), V::List(f))
}

pub fn with_address(t: &V, addr: Option<&str>) -> V {
    let mut f = t.fields().to_vec();
    f[0] = addr.map_or(V::Null, V::str);
    V::desc(t.code().unwrap(), V::List(f))
}

// ---- normal form -------------------------------------------------------

enum F {
    /// as it is
    P,
    /// default
    D(V),
    /// several symbols
    M,
}

fn table(code: u64) -> Option<Vec<F>> {
    use F::{D, M, P};
    let no = || D(V::Bool(false));
    Some(match code {
        wire::OPEN => vec![P, P, D(V::Uint(u32::MAX)), D(V::Ushort(65_535)), P, M, M, M, M, P],
        wire::BEGIN => vec![P, P, P, P, D(V::Uint(u32::MAX)), M, M, P],
        wire::ATTACH => vec![P, P, P, D(V::Ubyte(2)), D(V::Ubyte(0)), P, P, P, no(), P, P, M, M, P],
        wire::FLOW => vec![P, P, P, P, P, P, P, P, no(), no(), P],
        wire::TRANSFER => vec![P, P, P, P, P, no(), P, P, no(), no(), no()],
        wire::DISPOSITION => vec![P, P, P, no(), P, no()],
        wire::DETACH => vec![P, no(), P],
        wire::END | wire::CLOSE | wire::REJECTED => vec![P],
        wire::ERROR | wire::MODIFIED => vec![P, P, P],
        wire::RECEIVED => vec![P, P],
        wire::ACCEPTED | wire::RELEASED => vec![],
        wire::SOURCE => {
            vec![P, D(V::Uint(0)), D(V::sym("session-end")), D(V::Uint(0)), no(), P, P, P, P, M, M]
        }
        wire::TARGET => vec![P, D(V::Uint(0)), D(V::sym("session-end")), D(V::Uint(0)), no(), P, M],
        0x70 => vec![no(), D(V::Ubyte(4)), P, no(), D(V::Uint(0))],
        0x73 => vec![F::P, P, P, P, P, P, P, P, P, P, P, P, P],
        _ => return None,
    })
}

/// all fields present, defaults filled in
pub fn norm(v: &V) -> V {
    match v {
        V::Desc(d, x) => {
            if let (Some(c), V::List(l)) = (v.code(), &**x)
                && let Some(t) = table(c)
            {
                let f = t
                    .into_iter()
                    .enumerate()
                    .map(|(i, k)| {
                        let x = l.get(i).cloned().unwrap_or(V::Null);
                        match (k, x) {
                            (F::D(d), V::Null) => d,
                            (F::M, V::Sym(s)) => V::Array(vec![V::Sym(s)]),
                            (_, x) => norm(&x),
                        }
                    })
                    .collect();
                return V::desc(c, V::List(f));
            }
            V::Desc(d.clone(), Box::new(norm(x)))
        }
        V::List(l) => V::List(l.iter().map(norm).collect()),
        V::Map(m) => V::Map(m.iter().map(|(k, x)| (norm(k), norm(x))).collect()),
        v => v.clone(),
    }
}

pub fn norm_perf(code: u64, f: &[V]) -> V {
    norm(&V::desc(code, V::List(f.to_vec())))
}

pub fn equal(a: &V, b: &V) -> bool {
    norm(a).same(&norm(b))
}

// ---- ours to the library's ---------------------------------------------

fn bs(s: &str) -> ByteString {
    ByteString::from(s)
}
fn time(t: i64) -> DateTime<Utc> {
    Utc.timestamp_millis_opt(t).unwrap()
}

pub fn descriptor(v: &V) -> Descriptor {
    match v {
        V::Ulong(x) => Descriptor::Ulong(*x),
        V::Sym(s) => Descriptor::Symbol(Symbol::from(s.clone())),
        v => panic!("descriptor {v:?}"),
    }
}

macro_rules! arr {
    ($a:expr, $t:ty, $p:pat => $e:expr) => {{
        let v: Vec<$t> = $a
            .iter()
            .map(|x| match x {
                $p => $e,
                x => panic!("mixed array {x:?}"),
            })
            .collect();
        Array::from(v)
    }};
}

fn array(a: &[V]) -> Array {
    match a.first() {
        None => Array::from(Vec::<Symbol>::new()),
        Some(V::Bool(_)) => arr!(a, bool, V::Bool(x) => *x),
        Some(V::Ubyte(_)) => arr!(a, u8, V::Ubyte(x) => *x),
        Some(V::Ushort(_)) => arr!(a, u16, V::Ushort(x) => *x),
        Some(V::Uint(_)) => arr!(a, u32, V::Uint(x) => *x),
        Some(V::Ulong(_)) => arr!(a, u64, V::Ulong(x) => *x),
        Some(V::Byte(_)) => arr!(a, i8, V::Byte(x) => *x),
        Some(V::Short(_)) => arr!(a, i16, V::Short(x) => *x),
        Some(V::Int(_)) => arr!(a, i32, V::Int(x) => *x),
        Some(V::Long(_)) => arr!(a, i64, V::Long(x) => *x),
        Some(V::Float(_)) => arr!(a, f32, V::Float(x) => f32::from_bits(*x)),
        Some(V::Double(_)) => arr!(a, f64, V::Double(x) => f64::from_bits(*x)),
        Some(V::Char(_)) => arr!(a, char, V::Char(x) => char::from_u32(*x).unwrap()),
        Some(V::Time(_)) => arr!(a, DateTime<Utc>, V::Time(x) => time(*x)),
        Some(V::Uuid(_)) => arr!(a, Uuid, V::Uuid(x) => Uuid::from_bytes(*x)),
        Some(V::Bin(_)) => arr!(a, Bytes, V::Bin(x) => Bytes::from(x.clone())),
        Some(V::Str(_)) => arr!(a, ByteString, V::Str(x) => bs(x)),
        Some(V::Sym(_)) => arr!(a, Symbol, V::Sym(x) => Symbol::from(x.clone())),
        Some(V::Map(_)) => arr!(a, StdMap<Variant, Variant>, V::Map(m) => m.iter().map(|(k, x)| (variant(k), variant(x))).collect()),
        Some(x) => panic!("array of {x:?}"),
    }
}

fn amap(m: &[(V, V)]) -> ntex_amqp::codec::protocol::Map {
    m.iter().map(|(k, x)| (variant(k), variant(x))).collect()
}

pub fn variant(v: &V) -> Variant {
    match v {
        V::Null => Variant::Null,
        V::Bool(x) => Variant::Boolean(*x),
        V::Ubyte(x) => Variant::Ubyte(*x),
        V::Ushort(x) => Variant::Ushort(*x),
        V::Uint(x) => Variant::Uint(*x),
        V::Ulong(x) => Variant::Ulong(*x),
        V::Byte(x) => Variant::Byte(*x),
        V::Short(x) => Variant::Short(*x),
        V::Int(x) => Variant::Int(*x),
        V::Long(x) => Variant::Long(*x),
        V::Float(x) => Variant::Float(f32::from_bits(*x).into()),
        V::Double(x) => Variant::Double(f64::from_bits(*x).into()),
        V::Dec32(x) => Variant::Decimal32(*x),
        V::Dec64(x) => Variant::Decimal64(*x),
        V::Dec128(x) => Variant::Decimal128(*x),
        V::Char(x) => Variant::Char(char::from_u32(*x).unwrap()),
        V::Time(x) => Variant::Timestamp(time(*x)),
        V::Uuid(x) => Variant::Uuid(Uuid::from_bytes(*x)),
        V::Bin(x) => Variant::Binary(Bytes::from(x.clone())),
        V::Str(x) => Variant::String(Str::from(x.clone())),
        V::Sym(x) => Variant::Symbol(Symbol::from(x.clone())),
        V::List(x) => Variant::List(List(x.iter().map(variant).collect())),
        V::Map(x) => Variant::Map(VariantMap::new(amap(x))),
        V::Array(x) => Variant::Array(array(x)),
        V::Desc(d, x) => match &**x {
            V::List(_) | V::Map(_) | V::Array(_) => {
                Variant::DescribedCompound(DescribedCompound::create(descriptor(d), variant(x)))
            }
            _ => Variant::Described((descriptor(d), Box::new(variant(x)))),
        },
    }
}

fn sym_map(v: &V) -> VecSymbolMap {
    let V::Map(m) = v else { panic!("{v:?}") };
    VecSymbolMap(m.iter().map(|(k, x)| (Symbol::from(k.as_str().unwrap().to_string()), variant(x))).collect())
}
fn sym_hash(v: &V) -> p::Annotations {
    let V::Map(m) = v else { panic!("{v:?}") };
    m.iter().map(|(k, x)| (Symbol::from(k.as_str().unwrap().to_string()), variant(x))).collect()
}
fn opt<T>(v: &V, f: impl FnOnce(&V) -> T) -> Option<T> {
    if v.is_null() { None } else { Some(f(v)) }
}
fn st(v: &V) -> ByteString {
    bs(v.as_str().unwrap())
}
fn sy(v: &V) -> Symbol {
    Symbol::from(v.as_str().unwrap().to_string())
}
fn syms(v: &V) -> Multiple<Symbol> {
    let V::Array(a) = v else { panic!("{v:?}") };
    Multiple(a.iter().map(sy).collect())
}
fn mid(v: &V) -> MessageId {
    match v {
        V::Ulong(x) => MessageId::Ulong(*x),
        V::Uuid(x) => MessageId::Uuid(Uuid::from_bytes(*x)),
        V::Bin(x) => MessageId::Binary(Bytes::from(x.clone())),
        V::Str(x) => MessageId::String(bs(x)),
        v => panic!("{v:?}"),
    }
}
fn tm(v: &V) -> DateTime<Utc> {
    let V::Time(t) = v else { panic!("{v:?}") };
    time(*t)
}

pub fn b_error(v: &V) -> AError {
    use p::{AmqpError as A, ConnectionError as C, LinkError as L, SessionError as S};
    let f = v.fields();
    let c = f[0].as_str().unwrap();
    let condition: ErrorCondition = match c {
        "amqp:internal-error" => A::InternalError.into(),
        "amqp:not-found" => A::NotFound.into(),
        "amqp:unauthorized-access" => A::UnauthorizedAccess.into(),
        "amqp:decode-error" => A::DecodeError.into(),
        "amqp:resource-limit-exceeded" => A::ResourceLimitExceeded.into(),
        "amqp:not-allowed" => A::NotAllowed.into(),
        "amqp:invalid-field" => A::InvalidField.into(),
        "amqp:not-implemented" => A::NotImplemented.into(),
        "amqp:resource-locked" => A::ResourceLocked.into(),
        "amqp:precondition-failed" => A::PreconditionFailed.into(),
        "amqp:resource-deleted" => A::ResourceDeleted.into(),
        "amqp:illegal-state" => A::IllegalState.into(),
        "amqp:frame-size-too-small" => A::FrameSizeTooSmall.into(),
        "amqp:connection:forced" => C::ConnectionForced.into(),
        "amqp:connection:framing-error" => C::FramingError.into(),
        "amqp:connection:redirect" => C::Redirect.into(),
        "amqp:session:window-violation" => S::WindowViolation.into(),
        "amqp:session:errant-link" => S::ErrantLink.into(),
        "amqp:session:handle-in-use" => S::HandleInUse.into(),
        "amqp:session:unattached-handle" => S::UnattachedHandle.into(),
        "amqp:link:detach-forced" => L::DetachForced.into(),
        "amqp:link:transfer-limit-exceeded" => L::TransferLimitExceeded.into(),
        "amqp:link:message-size-exceeded" => L::MessageSizeExceeded.into(),
        "amqp:link:redirect" => L::Redirect.into(),
        "amqp:link:stolen" => L::Stolen.into(),
        c => ErrorCondition::Custom(Symbol::from(c.to_string())),
    };
    AError(Box::new(p::ErrorInner {
        condition,
        description: f.get(1).and_then(|v| opt(v, st)),
        info: f.get(2).and_then(|v| opt(v, sym_map)),
    }))
}

pub fn b_state(v: &V) -> p::DeliveryState {
    let f = v.fields();
    let g = |i: usize| f.get(i).cloned().unwrap_or(V::Null);
    match v.code().unwrap() {
        wire::ACCEPTED => p::DeliveryState::Accepted(p::Accepted {}),
        wire::RELEASED => p::DeliveryState::Released(p::Released {}),
        wire::REJECTED => p::DeliveryState::Rejected(p::Rejected { error: opt(&g(0), b_error) }),
        wire::MODIFIED => p::DeliveryState::Modified(p::Modified {
            delivery_failed: g(0).as_bool(),
            undeliverable_here: g(1).as_bool(),
            message_annotations: opt(&g(2), sym_map),
        }),
        wire::RECEIVED => p::DeliveryState::Received(p::Received {
            section_number: g(0).as_u32().unwrap(),
            section_offset: g(1).as_u64().unwrap(),
        }),
        c => panic!("{c}"),
    }
}

fn b_outcome(v: &V) -> p::Outcome {
    match b_state(v) {
        p::DeliveryState::Accepted(x) => p::Outcome::Accepted(x),
        p::DeliveryState::Rejected(x) => p::Outcome::Rejected(x),
        p::DeliveryState::Released(x) => p::Outcome::Released(x),
        p::DeliveryState::Modified(x) => p::Outcome::Modified(x),
        p::DeliveryState::Received(_) => unreachable!(),
    }
}

fn durability(v: &V) -> p::TerminusDurability {
    match v.as_u32() {
        Some(1) => p::TerminusDurability::Configuration,
        Some(2) => p::TerminusDurability::UnsettledState,
        _ => p::TerminusDurability::None,
    }
}
fn expiry(v: &V) -> p::TerminusExpiryPolicy {
    match v.as_str() {
        Some("link-detach") => p::TerminusExpiryPolicy::LinkDetach,
        Some("connection-close") => p::TerminusExpiryPolicy::ConnectionClose,
        Some("never") => p::TerminusExpiryPolicy::Never,
        _ => p::TerminusExpiryPolicy::SessionEnd,
    }
}

pub fn b_source(v: &V) -> p::Source {
    let f = v.fields();
    p::Source {
        address: opt(&f[0], st),
        durable: durability(&f[1]),
        expiry_policy: expiry(&f[2]),
        timeout: f[3].as_u32().unwrap_or(0),
        dynamic: f[4].as_bool().unwrap_or(false),
        dynamic_node_properties: opt(&f[5], sym_hash),
        distribution_mode: opt(&f[6], |v| match v.as_str() {
            Some("move") => p::DistributionMode::Move,
            Some("copy") => p::DistributionMode::Copy,
            _ => p::DistributionMode::Custom(sy(v)),
        }),
        filter: opt(&f[7], |v| {
            let V::Map(m) = v else { panic!() };
            m.iter().map(|(k, x)| (sy(k), opt(x, st))).collect()
        }),
        default_outcome: opt(&f[8], b_outcome),
        outcomes: opt(&f[9], syms),
        capabilities: opt(&f[10], syms),
    }
}

pub fn b_target(v: &V) -> p::Target {
    let f = v.fields();
    p::Target {
        address: opt(&f[0], st),
        durable: durability(&f[1]),
        expiry_policy: expiry(&f[2]),
        timeout: f[3].as_u32().unwrap_or(0),
        dynamic: f[4].as_bool().unwrap_or(false),
        dynamic_node_properties: opt(&f[5], sym_hash),
        capabilities: opt(&f[6], syms),
    }
}

/// the terms of a link as the application states them; what the attach then has to contain
pub fn fill_attach(a: &mut p::Attach, seed: u64, l: usize, sender: bool, addr: &str) -> Vec<V> {
    let t = terms(seed, l);
    let both = l % 3 != 0;
    let src = with_address(&t[0], if sender { None } else { Some(addr) });
    let tgt = with_address(&t[1], if sender { Some(addr) } else { None });
    let src = if sender && !both { V::Null } else { src };
    let tgt = if !sender && !both { V::Null } else { tgt };
    *a.source_mut() = opt(&src, b_source);
    *a.target_mut() = opt(&tgt, b_target);
    a.0.offered_capabilities = opt(&t[2], syms);
    a.0.desired_capabilities = opt(&t[3], syms);
    a.0.properties = opt(&t[4], sym_hash);
    vec![src, tgt, t[2].clone(), t[3].clone(), t[4].clone()]
}

/// a message made of these sections, put together in one of several ways
pub fn message(seed: u64, m: u64, s: &[V]) -> Message {
    let mut r = Rng::new(mix(seed ^ mix(m ^ 0x3e55)));
    let touch = r.pct(40);
    let mut msg = Message::default();
    // in any order
    let mut order: Vec<usize> = (0..s.len()).collect();
    if r.pct(50) {
        r.shuffle(&mut order);
        // sections of the same kind stay in order
        order.sort_by_key(|i| if matches!(s[*i].code(), Some(0x75 | 0x76)) { *i } else { 0 });
    }
    let last = s.iter().rposition(|v| v.code() == Some(0x75));
    for i in order {
        let v = &s[i];
        if touch && r.pct(50) {
            let _ = msg.encoded_size();
        }
        let alt = r.pct(50);
        let f = v.fields();
        let g = |i: usize| f.get(i).cloned().unwrap_or(V::Null);
        let V::Desc(_, x) = v else { panic!() };
        match v.code().unwrap() {
            0x70 => {
                let mut h = p::Header { durable: false, priority: 4, ttl: None, first_acquirer: false, delivery_count: 0 };
                if let Some(b) = g(0).as_bool() {
                    h.durable = b;
                }
                if let V::Ubyte(x) = g(1) {
                    h.priority = x;
                }
                h.ttl = g(2).as_u32();
                if let Some(b) = g(3).as_bool() {
                    h.first_acquirer = b;
                }
                if let Some(x) = g(4).as_u32() {
                    h.delivery_count = x;
                }
                msg.set_header(h);
            }
            0x71 => msg.0.delivery_annotations = Some(sym_map(x)),
            0x72 => {
                if alt {
                    for (k, x) in &sym_map(x).0 {
                        msg.add_message_annotation(k.clone(), x.clone());
                        if touch && r.pct(20) {
                            let _ = msg.encoded_size();
                        }
                        if let Some(a) = msg.message_annotations_mut()
                            && r.pct(30)
                            && let Some(last) = a.pop()
                        {
                            a.push(last);
                        }
                    }
                    if msg.message_annotations().is_none() {
                        msg.0.message_annotations = Some(VecSymbolMap::default());
                    }
                } else {
                    msg.0.message_annotations = Some(sym_map(x));
                }
            }
            0x73 => {
                let pr = p::Properties {
                    message_id: opt(&g(0), mid),
                    user_id: opt(&g(1), |v| Bytes::from(v.as_bin().unwrap().to_vec())),
                    to: opt(&g(2), st),
                    subject: opt(&g(3), st),
                    reply_to: opt(&g(4), st),
                    correlation_id: opt(&g(5), mid),
                    content_type: opt(&g(6), sy),
                    content_encoding: opt(&g(7), sy),
                    absolute_expiry_time: opt(&g(8), tm),
                    creation_time: opt(&g(9), tm),
                    group_id: opt(&g(10), st),
                    group_sequence: g(11).as_u32(),
                    reply_to_group_id: opt(&g(12), st),
                };
                if alt {
                    *msg.properties_mut() = pr;
                } else {
                    msg.set_properties(|x| *x = pr);
                }
            }
            0x74 => {
                let V::Map(mm) = &**x else { panic!() };
                if alt && !mm.is_empty() {
                    let n = mm.len();
                    for (i, (k, x)) in mm.iter().enumerate() {
                        if i + 1 == n
                            && i > 0
                            && r.pct(50)
                            && let Some(a) = msg.app_properties_mut()
                        {
                            a.push((Str::from(k.as_str().unwrap().to_string()), variant(x)));
                            continue;
                        }
                        msg.set_app_property(Str::from(k.as_str().unwrap().to_string()), variant(x));
                        if touch && r.pct(20) {
                            let _ = msg.encoded_size();
                        }
                    }
                } else {
                    msg.0.application_properties = Some(VecStringMap(
                        mm.iter().map(|(k, x)| (Str::from(k.as_str().unwrap().to_string()), variant(x))).collect(),
                    ));
                }
            }
            0x75 => {
                let b = Bytes::from(if let V::Bin(b) = &**x { b.clone() } else { panic!() });
                if last == Some(i) && r.pct(20) {
                    msg.set_body(|x| x.messages.push(p::TransferBody::Data(b)));
                } else if alt {
                    msg.body_mut().data.push(b);
                } else if r.pct(50) {
                    // as an embedded message body
                    msg.set_body(|x| x.data.push(b));
                } else {
                    msg.0.body.data.push(b);
                }
            }
            0x76 => {
                let V::List(l) = &**x else { panic!() };
                msg.set_body(|b| b.sequence.push(List(l.iter().map(variant).collect())));
            }
            0x77 => {
                if alt {
                    msg.set_value(variant(x));
                } else {
                    msg.body_mut().value = Some(variant(x));
                }
            }
            0x78 => msg.0.footer = Some(sym_hash(x)),
            c => panic!("section {c}"),
        }
    }
    if touch {
        let _ = msg.encoded_size();
    }
    msg
}

// ---- the library's to ours ---------------------------------------------

fn v_desc(d: &Descriptor) -> V {
    match d {
        Descriptor::Ulong(x) => V::Ulong(*x),
        Descriptor::Symbol(s) => V::sym(s.as_str()),
    }
}

thread_local! {
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn of(v: &Variant) -> V {
    // arrays and described values are decoded when asked for, layer by layer
    let d = DEPTH.with(std::cell::Cell::get);
    if d > 200 {
        return V::Str("too deep".into());
    }
    DEPTH.with(|x| x.set(d + 1));
    let v = of2(v);
    DEPTH.with(|x| x.set(d));
    v
}

fn of2(v: &Variant) -> V {
    match v {
        Variant::Null => V::Null,
        Variant::Boolean(x) => V::Bool(*x),
        Variant::Ubyte(x) => V::Ubyte(*x),
        Variant::Ushort(x) => V::Ushort(*x),
        Variant::Uint(x) => V::Uint(*x),
        Variant::Ulong(x) => V::Ulong(*x),
        Variant::Byte(x) => V::Byte(*x),
        Variant::Short(x) => V::Short(*x),
        Variant::Int(x) => V::Int(*x),
        Variant::Long(x) => V::Long(*x),
        Variant::Float(x) => V::Float(x.to_bits()),
        Variant::Double(x) => V::Double(x.to_bits()),
        Variant::Decimal32(x) => V::Dec32(*x),
        Variant::Decimal64(x) => V::Dec64(*x),
        Variant::Decimal128(x) => V::Dec128(*x),
        Variant::Char(x) => V::Char(u32::from(*x)),
        Variant::Timestamp(x) => V::Time(x.timestamp_millis()),
        Variant::Uuid(x) => V::Uuid(x.into_bytes()),
        Variant::Binary(x) => V::Bin(x.to_vec()),
        Variant::String(x) => V::str(x.as_str()),
        Variant::Symbol(x) => V::sym(x.as_str()),
        Variant::List(x) => V::List(x.iter().map(of).collect()),
        Variant::Map(x) => V::Map(x.map.iter().map(|(k, x)| (of(k), of(x))).collect()),
        Variant::Array(a) => match a.decode::<Variant>() {
            Ok(x) => V::Array(x.iter().map(of).collect()),
            Err(e) => V::Str(format!("undecodable array: {e:?}")),
        },
        Variant::Described((d, x)) => V::Desc(Box::new(v_desc(d)), Box::new(of(x))),
        Variant::DescribedCompound(x) => match x.decode::<Variant>() {
            Ok(y) => V::Desc(Box::new(v_desc(x.descriptor())), Box::new(of(&y))),
            Err(e) => V::Str(format!("undecodable described value: {e:?}")),
        },
    }
}

fn o<T>(v: Option<&T>, f: impl FnOnce(&T) -> V) -> V {
    v.map_or(V::Null, f)
}
fn v_str(s: &ByteString) -> V {
    V::str(s)
}
fn v_sym(s: &Symbol) -> V {
    V::sym(s.as_str())
}
fn v_syms(s: &Multiple<Symbol>) -> V {
    V::Array(s.iter().map(v_sym).collect())
}
fn v_vec(m: &VecSymbolMap) -> V {
    V::Map(m.iter().map(|(k, x)| (v_sym(k), of(x))).collect())
}
fn v_hash(m: &p::Annotations) -> V {
    V::Map(m.iter().map(|(k, x)| (v_sym(k), of(x))).collect())
}
fn v_mid(m: &MessageId) -> V {
    match m {
        MessageId::Ulong(x) => V::Ulong(*x),
        MessageId::Uuid(x) => V::Uuid(x.into_bytes()),
        MessageId::Binary(x) => V::Bin(x.to_vec()),
        MessageId::String(x) => V::str(x),
    }
}
fn v_time(t: &DateTime<Utc>) -> V {
    V::Time(t.timestamp_millis())
}

pub fn v_error(e: &AError) -> V {
    V::desc(
        wire::ERROR,
        V::List(vec![
            V::sym(&crate::node::cond_str(e.condition())),
            e.description().map_or(V::Null, |d| V::str(d)),
            o(e.0.info.as_ref(), v_vec),
        ]),
    )
}

pub fn v_state(s: &p::DeliveryState) -> V {
    use p::DeliveryState as D;
    let b = |x: Option<bool>| x.map_or(V::Null, V::Bool);
    match s {
        D::Received(r) => V::desc(wire::RECEIVED, V::List(vec![V::Uint(r.section_number), V::Ulong(r.section_offset)])),
        D::Accepted(_) => V::desc(wire::ACCEPTED, V::List(vec![])),
        D::Released(_) => V::desc(wire::RELEASED, V::List(vec![])),
        D::Rejected(r) => V::desc(wire::REJECTED, V::List(vec![o(r.error.as_ref(), v_error)])),
        D::Modified(m) => V::desc(
            wire::MODIFIED,
            V::List(vec![b(m.delivery_failed), b(m.undeliverable_here), o(m.message_annotations.as_ref(), v_vec)]),
        ),
    }
}

fn v_outcome(s: &p::Outcome) -> V {
    v_state(&match s.clone() {
        p::Outcome::Accepted(x) => p::DeliveryState::Accepted(x),
        p::Outcome::Rejected(x) => p::DeliveryState::Rejected(x),
        p::Outcome::Released(x) => p::DeliveryState::Released(x),
        p::Outcome::Modified(x) => p::DeliveryState::Modified(x),
    })
}

fn v_durable(d: p::TerminusDurability) -> V {
    V::Uint(match d {
        p::TerminusDurability::None => 0,
        p::TerminusDurability::Configuration => 1,
        p::TerminusDurability::UnsettledState => 2,
    })
}
fn v_expiry(d: &p::TerminusExpiryPolicy) -> V {
    V::sym(match d {
        p::TerminusExpiryPolicy::LinkDetach => "link-detach",
        p::TerminusExpiryPolicy::SessionEnd => "session-end",
        p::TerminusExpiryPolicy::ConnectionClose => "connection-close",
        p::TerminusExpiryPolicy::Never => "never",
    })
}

fn v_source(s: &p::Source) -> V {
    V::desc(
        wire::SOURCE,
        V::List(vec![
            o(s.address.as_ref(), v_str),
            v_durable(s.durable),
            v_expiry(&s.expiry_policy),
            V::Uint(s.timeout),
            V::Bool(s.dynamic),
            o(s.dynamic_node_properties.as_ref(), v_hash),
            o(s.distribution_mode.as_ref(), |m| match m {
                p::DistributionMode::Move => V::sym("move"),
                p::DistributionMode::Copy => V::sym("copy"),
                p::DistributionMode::Custom(s) => v_sym(s),
            }),
            o(s.filter.as_ref(), |m| V::Map(m.iter().map(|(k, x)| (v_sym(k), o(x.as_ref(), v_str))).collect())),
            o(s.default_outcome.as_ref(), v_outcome),
            o(s.outcomes.as_ref(), v_syms),
            o(s.capabilities.as_ref(), v_syms),
        ]),
    )
}

fn v_target(s: &p::Target) -> V {
    V::desc(
        wire::TARGET,
        V::List(vec![
            o(s.address.as_ref(), v_str),
            v_durable(s.durable),
            v_expiry(&s.expiry_policy),
            V::Uint(s.timeout),
            V::Bool(s.dynamic),
            o(s.dynamic_node_properties.as_ref(), v_hash),
            o(s.capabilities.as_ref(), v_syms),
        ]),
    )
}

pub fn v_attach(a: &p::Attach) -> V {
    let a = &*a.0;
    V::desc(
        wire::ATTACH,
        V::List(vec![
            v_str(&a.name),
            V::Uint(a.handle),
            V::Bool(a.role == p::Role::Receiver),
            V::Ubyte(match a.snd_settle_mode {
                p::SenderSettleMode::Unsettled => 0,
                p::SenderSettleMode::Settled => 1,
                p::SenderSettleMode::Mixed => 2,
            }),
            V::Ubyte(match a.rcv_settle_mode {
                p::ReceiverSettleMode::First => 0,
                p::ReceiverSettleMode::Second => 1,
            }),
            o(a.source.as_ref(), v_source),
            o(a.target.as_ref(), v_target),
            o(a.unsettled.as_ref(), |m| V::Map(m.iter().map(|(k, x)| (of(k), of(x))).collect())),
            V::Bool(a.incomplete_unsettled),
            o(a.initial_delivery_count.as_ref(), |x| V::Uint(*x)),
            o(a.max_message_size.as_ref(), |x| V::Ulong(*x)),
            o(a.offered_capabilities.as_ref(), v_syms),
            o(a.desired_capabilities.as_ref(), v_syms),
            o(a.properties.as_ref(), v_hash),
        ]),
    )
}

pub fn v_detach(d: &p::Detach) -> V {
    V::desc(wire::DETACH, V::List(vec![V::Uint(d.handle()), V::Bool(d.closed()), o(d.error(), v_error)]))
}

pub fn v_flow(f: &p::Flow) -> V {
    let f = &*f.0;
    let u = |x: Option<u32>| x.map_or(V::Null, V::Uint);
    V::desc(
        wire::FLOW,
        V::List(vec![
            u(f.next_incoming_id),
            V::Uint(f.incoming_window),
            V::Uint(f.next_outgoing_id),
            V::Uint(f.outgoing_window),
            u(f.handle),
            u(f.delivery_count),
            u(f.link_credit),
            u(f.available),
            V::Bool(f.drain),
            V::Bool(f.echo),
            o(f.properties.as_ref(), v_hash),
        ]),
    )
}

pub fn v_begin(b: &p::Begin) -> V {
    let b = &*b.0;
    V::desc(
        wire::BEGIN,
        V::List(vec![
            b.remote_channel.map_or(V::Null, V::Ushort),
            V::Uint(b.next_outgoing_id),
            V::Uint(b.incoming_window),
            V::Uint(b.outgoing_window),
            V::Uint(b.handle_max),
            o(b.offered_capabilities.as_ref(), v_syms),
            o(b.desired_capabilities.as_ref(), v_syms),
            o(b.properties.as_ref(), v_hash),
        ]),
    )
}

pub fn v_open(b: &p::Open) -> V {
    let b = &*b.0;
    V::desc(
        wire::OPEN,
        V::List(vec![
            v_str(&b.container_id),
            o(b.hostname.as_ref(), v_str),
            V::Uint(b.max_frame_size),
            V::Ushort(b.channel_max),
            b.idle_time_out.map_or(V::Null, V::Uint),
            o(b.outgoing_locales.as_ref(), v_syms),
            o(b.incoming_locales.as_ref(), v_syms),
            o(b.offered_capabilities.as_ref(), v_syms),
            o(b.desired_capabilities.as_ref(), v_syms),
            o(b.properties.as_ref(), v_hash),
        ]),
    )
}

/// sections of a message as read, in the order of the specification
pub fn v_message(m: &Message) -> Vec<V> {
    let mut s = vec![];
    let m = &*m.0;
    if let Some(h) = &m.header {
        s.push(V::desc(
            0x70,
            V::List(vec![
                V::Bool(h.durable),
                V::Ubyte(h.priority),
                h.ttl.map_or(V::Null, V::Uint),
                V::Bool(h.first_acquirer),
                V::Uint(h.delivery_count),
            ]),
        ));
    }
    if let Some(a) = &m.delivery_annotations {
        s.push(V::desc(0x71, v_vec(a)));
    }
    if let Some(a) = &m.message_annotations {
        s.push(V::desc(0x72, v_vec(a)));
    }
    if let Some(x) = &m.properties {
        s.push(V::desc(
            0x73,
            V::List(vec![
                o(x.message_id.as_ref(), v_mid),
                o(x.user_id.as_ref(), |b| V::Bin(b.to_vec())),
                o(x.to.as_ref(), v_str),
                o(x.subject.as_ref(), v_str),
                o(x.reply_to.as_ref(), v_str),
                o(x.correlation_id.as_ref(), v_mid),
                o(x.content_type.as_ref(), v_sym),
                o(x.content_encoding.as_ref(), v_sym),
                o(x.absolute_expiry_time.as_ref(), v_time),
                o(x.creation_time.as_ref(), v_time),
                o(x.group_id.as_ref(), v_str),
                x.group_sequence.map_or(V::Null, V::Uint),
                o(x.reply_to_group_id.as_ref(), v_str),
            ]),
        ));
    }
    if let Some(a) = &m.application_properties {
        s.push(V::desc(0x74, V::Map(a.iter().map(|(k, x)| (V::str(k.as_str()), of(x))).collect())));
    }
    for d in &m.body.data {
        s.push(V::desc(0x75, V::Bin(d.to_vec())));
    }
    for l in &m.body.sequence {
        s.push(V::desc(0x76, V::List(l.iter().map(of).collect())));
    }
    if let Some(v) = &m.body.value {
        s.push(V::desc(0x77, of(v)));
    }
    if let Some(a) = &m.footer {
        s.push(V::desc(0x78, v_hash(a)));
    }
    s
}
