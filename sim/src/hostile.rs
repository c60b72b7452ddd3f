//! A peer that breaks the rules: changes to what the model sends.
use serde::{Deserialize, Serialize};

use crate::rng::Rng;
use crate::wire::{self, Enc, Perf, V};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Kind {
    /// a field gets an extreme value of its type
    Field,
    /// a field is null
    Null,
    /// a field has another type
    Type,
    /// too many fields
    Extra,
    /// too few fields
    Short,
    /// another (or unknown) performative
    Code,
    /// something deep inside a field
    Nested,
    Channel,
    /// bits of the frame change
    Flip,
    /// the frame ends early, with a consistent frame size
    Trunc,
    /// the frame size lies
    Size,
    Doff,
    FrameType,
    /// bytes that are no frame
    Garbage,
    Dup,
    Drop,
    /// after the next frame
    Hold,
    /// a compound value lies about its size or count
    Lie,
    /// deeply nested value
    Deep,
    /// much claimed by few bytes
    Bomb,
    /// a value that ends a little beyond what it is part of
    Tight,
    /// another, ill-timed performative before or after this one
    Inject,
    /// a lot of them
    Flood,
    /// a protocol header
    Header,
    /// a frame that is too big
    Big,
    /// random bytes in place of the fields
    Noise,
    /// the payload of a transfer
    Body,
}

pub const KINDS: [(Kind, &str); 27] = [
    (Kind::Field, "hostile:extreme field"),
    (Kind::Null, "hostile:null field"),
    (Kind::Type, "hostile:wrong type"),
    (Kind::Extra, "hostile:extra fields"),
    (Kind::Short, "hostile:missing fields"),
    (Kind::Code, "hostile:other performative"),
    (Kind::Nested, "hostile:nested value"),
    (Kind::Channel, "hostile:channel"),
    (Kind::Flip, "hostile:bits flipped"),
    (Kind::Trunc, "hostile:truncated"),
    (Kind::Size, "hostile:frame size lies"),
    (Kind::Doff, "hostile:data offset"),
    (Kind::FrameType, "hostile:frame type"),
    (Kind::Garbage, "hostile:garbage"),
    (Kind::Dup, "hostile:frame twice"),
    (Kind::Drop, "hostile:frame missing"),
    (Kind::Hold, "hostile:frames swapped"),
    (Kind::Lie, "hostile:compound lies"),
    (Kind::Deep, "hostile:deep nesting"),
    (Kind::Bomb, "hostile:few bytes claim much"),
    (Kind::Tight, "hostile:ends beyond its container"),
    (Kind::Inject, "hostile:ill-timed frame"),
    (Kind::Flood, "hostile:flood"),
    (Kind::Header, "hostile:protocol header"),
    (Kind::Big, "hostile:oversized frame"),
    (Kind::Noise, "hostile:noise"),
    (Kind::Body, "hostile:message body"),
];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Mut {
    /// the n-th thing the model sends
    pub at: u32,
    pub k: Kind,
    /// seed of the details
    pub x: u64,
}

/// what the model knows
#[derive(Default)]
pub struct Ctx {
    pub chans: Vec<u16>,
    pub handles: Vec<u32>,
    /// ids of deliveries, transfer numbers
    pub ids: Vec<u32>,
    pub names: Vec<String>,
    /// inbound limit of the other side (0: none)
    pub limit: usize,
}

pub fn plan(r: &mut Rng) -> Vec<Mut> {
    let n = match r.below(10) {
        0..=4 => 1,
        5..=7 => 2,
        8 => 3,
        _ => r.range(4, 9),
    };
    // swarm: only some kinds in a run
    let mut some: Vec<Kind> = KINDS.iter().map(|k| k.0).collect();
    r.shuffle(&mut some);
    some.truncate(r.range(1, 6) as usize);
    if r.pct(20) {
        // what decoders stumble over
        some = vec![Kind::Deep, Kind::Bomb, Kind::Tight, Kind::Tight, Kind::Lie, Kind::Body];
    }
    let span = r.logu(4, 120);
    let mut v: Vec<Mut> = (0..n)
        .map(|_| Mut { at: r.below(span) as u32, k: *r.pick(&some), x: r.next() })
        .collect();
    v.sort_by_key(|m| m.at);
    v
}

fn extreme(r: &mut Rng, like: &V, c: &Ctx) -> V {
    let near = |r: &mut Rng, x: u64| match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => x.wrapping_add(1),
        3 => x.wrapping_sub(1),
        4 => x.wrapping_add(1 << 31),
        5 => 1 << r.below(64),
        6 => (1u64 << r.below(64)).wrapping_sub(1),
        _ => {
            if c.ids.is_empty() {
                r.next()
            } else {
                u64::from(*r.pick(&c.ids)).wrapping_add(r.below(5)).wrapping_sub(2)
            }
        }
    };
    match like {
        V::Bool(b) => V::Bool(!b),
        V::Ubyte(x) => V::Ubyte(near(r, u64::from(*x)) as u8),
        V::Ushort(x) => V::Ushort(near(r, u64::from(*x)) as u16),
        V::Uint(x) => V::Uint(if r.pct(30) { u32::MAX } else { near(r, u64::from(*x)) as u32 }),
        V::Ulong(x) => V::Ulong(near(r, *x)),
        V::Int(x) => V::Int(near(r, *x as u64) as i32),
        V::Long(x) => V::Long(near(r, *x as u64) as i64),
        V::Time(x) => V::Time(if r.pct(30) { i64::MIN } else { near(r, *x as u64) as i64 }),
        V::Bin(x) => V::Bin(match r.below(3) {
            0 => vec![],
            1 => r.bytes(300),
            _ => x.repeat(2),
        }),
        V::Str(x) => V::Str(match r.below(3) {
            0 => String::new(),
            1 => "\u{1f980}\0x".repeat(100),
            _ => x.repeat(2),
        }),
        V::Sym(x) => V::Sym(match r.below(3) {
            0 => String::new(),
            1 => "z".repeat(300),
            _ => x.repeat(2),
        }),
        V::List(x) => V::List(if r.pct(50) { vec![] } else { [x.clone(), vec![V::Null; 300]].concat() }),
        V::Map(x) => {
            let mut m = x.clone();
            if let Some(p) = x.first() {
                // the same key twice
                m.push(p.clone());
            }
            m.push((V::Map(vec![(V::Null, V::Null)]), V::List(vec![])));
            V::Map(m)
        }
        V::Array(x) => V::Array(if r.pct(50) { vec![] } else { [x.clone(), x.clone()].concat() }),
        V::Desc(d, v) => {
            if r.pct(50) {
                let d = V::Ulong(r.below(0x80));
                V::Desc(Box::new(d), v.clone())
            } else {
                let v = extreme(r, v, c);
                V::Desc(d.clone(), Box::new(v))
            }
        }
        _ => any(r),
    }
}

/// a value of any type
fn any(r: &mut Rng) -> V {
    match r.below(24) {
        0 => V::Null,
        1 => V::Bool(r.pct(50)),
        2 => V::Ubyte(r.next() as u8),
        3 => V::Ushort(r.next() as u16),
        4 => V::Uint(r.next() as u32),
        5 => V::Ulong(r.next()),
        6 => V::Byte(r.next() as i8),
        7 => V::Short(r.next() as i16),
        8 => V::Int(r.next() as i32),
        9 => V::Long(r.next() as i64),
        10 => V::Float(r.next() as u32),
        11 => V::Double(r.next()),
        12 => V::Char(*r.pick(&[0, 0xd800, 0x0011_0000, u32::MAX, 65])),
        13 => V::Time(*r.pick(&[0, i64::MIN, i64::MAX, -1])),
        14 => V::Uuid([7; 16]),
        15 => V::Bin(r.bytes(9)),
        16 => V::str("text"),
        17 => V::sym("symbol"),
        18 => V::List(vec![V::Uint(1), V::Null]),
        19 => V::Map(vec![(V::sym("k"), V::Ulong(1))]),
        20 => V::Array(vec![V::Uint(5), V::Uint(70_000)]),
        21 => V::Dec128([1; 16]),
        22 => V::desc(r.below(0x80), V::List(vec![])),
        _ => V::Desc(Box::new(V::sym("amqp:accepted:list")), Box::new(V::List(vec![]))),
    }
}

/// changes one value somewhere inside
fn inside(r: &mut Rng, v: &V, c: &Ctx) -> V {
    match v {
        V::List(l) if !l.is_empty() && r.pct(85) => {
            let mut l = l.clone();
            let i = r.below(l.len() as u64) as usize;
            l[i] = inside(r, &l[i], c);
            V::List(l)
        }
        V::Map(m) if !m.is_empty() && r.pct(85) => {
            let mut m = m.clone();
            let i = r.below(m.len() as u64) as usize;
            if r.pct(40) {
                m[i].0 = inside(r, &m[i].0, c);
            } else {
                m[i].1 = inside(r, &m[i].1, c);
            }
            V::Map(m)
        }
        V::Desc(d, x) if r.pct(85) => {
            let x = inside(r, x, c);
            V::Desc(d.clone(), Box::new(x))
        }
        v => {
            if r.pct(50) {
                extreme(r, v, c)
            } else {
                any(r)
            }
        }
    }
}

fn state(r: &mut Rng) -> V {
    match r.below(8) {
        0 => V::Null,
        1 => V::desc(wire::ACCEPTED, V::List(vec![])),
        2 => V::desc(wire::RELEASED, V::List(vec![])),
        3 => V::desc(wire::REJECTED, V::List(vec![wire::err("amqp:internal-error", None)])),
        4 => V::desc(wire::MODIFIED, V::List(vec![V::Bool(true), V::Bool(true)])),
        5 => V::desc(wire::RECEIVED, V::List(vec![V::Uint(r.next() as u32), V::Ulong(r.next())])),
        // transactional state, declared
        6 => V::desc(0x34, V::List(vec![V::Bin(vec![1])])),
        _ => V::desc(0x33, V::List(vec![V::Bin(vec![1])])),
    }
}

/// a performative that is well formed but comes when it should not
fn odd(r: &mut Rng, c: &Ctx) -> (u16, Perf) {
    let ch = if !c.chans.is_empty() && r.pct(85) { *r.pick(&c.chans) } else { *r.pick(&[0, 1, 2, 9, 65_535]) };
    let h = if !c.handles.is_empty() && r.pct(80) { *r.pick(&c.handles) } else { *r.pick(&[0, 1, 2, 77, u32::MAX]) };
    let id = |r: &mut Rng| {
        if !c.ids.is_empty() && r.pct(70) {
            r.pick(&c.ids).wrapping_add(r.below(4) as u32).wrapping_sub(1)
        } else {
            *r.pick(&[0, 1, 2, 3, 7, 1 << 31, u32::MAX - 1, u32::MAX])
        }
    };
    let cnt = |r: &mut Rng| *r.pick(&[0u32, 1, 2, 100, 1 << 31, u32::MAX]);
    let opt = |r: &mut Rng, v: V| if r.pct(50) { v } else { V::Null };
    let (code, f) = match r.below(12) {
        0 => {
            let mf = *r.pick(&[0u32, 1, 8, 511, 512, 4096, u32::MAX]);
            (
                wire::OPEN,
                vec![V::str("again"), V::Null, V::Uint(mf), V::Ushort(r.next() as u16), V::Uint(*r.pick(&[0, 1, 100, u32::MAX]))],
            )
        }
        1 => {
            let rc = *r.pick(&[V::Null, V::Ushort(0), V::Ushort(1), V::Ushort(65_535)][..].iter().collect::<Vec<_>>());
            (wire::BEGIN, vec![rc.clone(), V::Uint(id(r)), V::Uint(cnt(r)), V::Uint(cnt(r))])
        }
        2 | 3 => {
            let name = if !c.names.is_empty() && r.pct(70) { r.pick(&c.names).clone() } else { format!("odd-{}", r.below(3)) };
            let snd = r.pct(50);
            let role = r.pct(50);
            let src = opt(r, V::desc(wire::SOURCE, V::List(vec![V::str("addr")])));
            let tgt = opt(r, V::desc(wire::TARGET, V::List(vec![V::str("addr")])));
            // coordinator now and then
            let tgt = if r.pct(10) { V::desc(0x30, V::List(vec![])) } else { tgt };
            let dc = if snd || r.pct(50) { V::Uint(id(r)) } else { V::Null };
            (
                wire::ATTACH,
                vec![
                    V::Str(name),
                    V::Uint(h),
                    V::Bool(role),
                    V::Ubyte(r.below(4) as u8),
                    V::Ubyte(r.below(3) as u8),
                    src,
                    tgt,
                    opt(r, V::Map(vec![(V::Bin(vec![1]), V::Null)])),
                    V::Bool(r.pct(50)),
                    dc,
                    { let v = V::Ulong(r.below(3)); opt(r, v) },
                ],
            )
        }
        4 | 5 => {
            let hh = if r.pct(70) { V::Uint(h) } else { V::Null };
            let a = if r.pct(80) { V::Uint(id(r)) } else { V::Null };
            (
                wire::FLOW,
                vec![
                    a,
                    V::Uint(cnt(r)),
                    V::Uint(id(r)),
                    V::Uint(cnt(r)),
                    hh,
                    { let v = V::Uint(id(r)); opt(r, v) },
                    { let v = V::Uint(cnt(r)); opt(r, v) },
                    { let v = V::Uint(cnt(r)); opt(r, v) },
                    V::Bool(r.pct(40)),
                    V::Bool(r.pct(50)),
                ],
            )
        }
        6 | 7 => {
            let did = if r.pct(70) { V::Uint(id(r)) } else { V::Null };
            let tag = match r.below(4) {
                0 => V::Null,
                1 => V::Bin(r.bytes(40)),
                _ => V::Bin(vec![1, 2]),
            };
            let mut p = Perf::new(
                wire::TRANSFER,
                vec![
                    V::Uint(h),
                    did,
                    tag,
                    V::Uint(0),
                    { let v = V::Bool(r.pct(50)); opt(r, v) },
                    V::Bool(r.pct(40)),
                    { let v = V::Ubyte(r.below(3) as u8); opt(r, v) },
                    { let v = state(r); opt(r, v) },
                    V::Bool(r.pct(10)),
                    V::Bool(r.pct(15)),
                    V::Bool(r.pct(20)),
                ],
            );
            let n = r.below(60) as usize;
            p.payload = r.bytes(n);
            return (ch, p);
        }
        8 | 9 => {
            let a = id(r);
            let b = match r.below(4) {
                0 => V::Null,
                1 => V::Uint(a),
                2 => V::Uint(u32::MAX),
                _ => V::Uint(id(r)),
            };
            let s = state(r);
            (wire::DISPOSITION, vec![V::Bool(r.pct(60)), V::Uint(a), b, V::Bool(r.pct(70)), s, V::Bool(r.pct(10))])
        }
        10 => {
            let e = if r.pct(50) { V::Null } else { wire::err("amqp:internal-error", Some("odd")) };
            (wire::DETACH, vec![V::Uint(h), V::Bool(r.pct(70)), e])
        }
        _ => {
            let e = if r.pct(50) { V::Null } else { wire::err("amqp:internal-error", Some("odd")) };
            let k = *r.pick(&[wire::END, wire::END, wire::END, wire::CLOSE, wire::SASL_OUTCOME, wire::SASL_INIT]);
            let f = match k {
                wire::SASL_OUTCOME => vec![V::Ubyte(r.below(3) as u8)],
                wire::SASL_INIT => vec![V::sym("PLAIN"), V::Null],
                _ => vec![e],
            };
            (k, f)
        }
    };
    (ch, Perf::new(code, f))
}

/// nested values of the given depth
fn deep(r: &mut Rng, depth: usize) -> Vec<u8> {
    let mut out = match r.below(5) {
        // described by a described value
        0 => {
            let mut o = vec![0u8; depth];
            o.extend([0x40, 0x40]);
            o
        }
        // a described value that holds a described value
        1 => {
            let mut o = [0u8, 0x53, 0x70].repeat(depth);
            o.push(0x40);
            o
        }
        k => {
            // from the inside out
            let mut head: Vec<Vec<u8>> = vec![];
            let mut len = 1usize;
            for _ in 0..depth {
                let mut h = vec![];
                match k {
                    2 => {
                        h.push(0xd0);
                        h.extend((len as u32 + 4).to_be_bytes());
                        h.extend(1u32.to_be_bytes());
                    }
                    3 => {
                        h.push(0xd1);
                        h.extend((len as u32 + 5).to_be_bytes());
                        h.extend(2u32.to_be_bytes());
                        h.push(0x40);
                    }
                    _ => {
                        // one element of the same kind, without a constructor of its own
                        h.push(0xf0);
                        h.extend((len as u32 + 4).to_be_bytes());
                        h.extend(1u32.to_be_bytes());
                    }
                }
                len += h.len();
                head.push(h);
            }
            head.reverse();
            let mut o = head.concat();
            o.push(0x40);
            o
        }
    };
    out.shrink_to_fit();
    out
}

/// few bytes that claim a lot
fn bomb(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[u32::MAX, 1 << 31, 1 << 28, 10_000_000, 70_000]);
    let mut o = vec![];
    match r.below(9) {
        0..=2 => {
            // an array of elements without bytes
            let ec = *r.pick(&[0x40u8, 0x43, 0x44, 0x45, 0x41, 0x42]);
            o.push(0xf0);
            o.extend(5u32.to_be_bytes());
            o.extend(n.to_be_bytes());
            o.push(ec);
        }
        3 => {
            o.push(0xd0);
            o.extend(4u32.to_be_bytes());
            o.extend(n.to_be_bytes());
        }
        4 => {
            o.push(0xd1);
            o.extend(4u32.to_be_bytes());
            o.extend((n & !1).to_be_bytes());
        }
        5 => {
            let c = *r.pick(&[0xb0u8, 0xb1, 0xb3]);
            o.push(c);
            o.extend(n.to_be_bytes());
            o.push(65);
        }
        6 => {
            let c = *r.pick(&[0xd0u8, 0xd1, 0xf0]);
            o.push(c);
            o.extend(n.to_be_bytes());
            o.extend(n.to_be_bytes());
            o.push(0x53);
        }
        7 => {
            // empty lists in an array
            o.push(0xf0);
            let k = 200u32;
            o.extend((5 + k).to_be_bytes());
            o.extend(n.to_be_bytes());
            o.push(0xc0);
            o.extend(vec![0u8; k as usize]);
        }
        _ => {
            // described elements
            o.push(0xf0);
            o.extend(8u32.to_be_bytes());
            o.extend(n.to_be_bytes());
            o.extend([0, 0x53, 0x24, 0x45]);
        }
    }
    o
}

/// a value, plain or described, that lacks a few of its bytes
fn tight(r: &mut Rng) -> Vec<u8> {
    let mut o = match r.below(6) {
        0..=2 => vec![],
        3 => vec![0, 0x53, *r.pick(&[0x24u8, 0x26, 0x28, 0x70, 0x75, 0x77])],
        4 => [&[0u8, 0xa3, 3][..], b"x:y"].concat(),
        _ => [&[0u8, 0x80][..], &r.next().to_be_bytes()].concat(),
    };
    // items of two bytes
    let items = r.below(9) as usize;
    let body = [0x50u8, 0x07].repeat(items);
    let over = match r.below(8) {
        0 => 0,
        1 => r.range(1, 300) as usize,
        _ => r.range(1, 9) as usize,
    };
    let c = *r.pick(&[0xc0u8, 0xc1, 0xe0, 0xd0, 0xd0, 0xd1, 0xf0, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3, 0x98, 0x94, 0x80, 0x83, 0x70, 0x60, 0x56]);
    o.push(c);
    match c >> 4 {
        0xc | 0xe => {
            o.push((body.len() + 1 + over).min(255) as u8);
            o.push(items as u8);
            o.extend(&body);
        }
        0xd | 0xf => {
            o.extend(((body.len() + 4 + over) as u32).to_be_bytes());
            o.extend((items as u32).to_be_bytes());
            o.extend(&body);
        }
        0xa => {
            o.push((body.len() + over).min(255) as u8);
            o.extend(&body);
        }
        0xb => {
            o.extend(((body.len() + over) as u32).to_be_bytes());
            o.extend(&body);
        }
        k => {
            let n = match k {
                9 => 16,
                8 => 8,
                7 => 4,
                6 => 2,
                _ => 1,
            };
            o.extend(vec![7u8; n - over.min(n)]);
        }
    }
    if r.pct(25) {
        // not even its header is there
        o.truncate(o.len() - r.range(1, o.len() as u64) as usize);
    }
    o
}

/// finds compound or sized values in an encoding and changes their numbers
fn lie(r: &mut Rng, b: &mut [u8], from: usize) {
    let at: Vec<usize> = (from..b.len())
        .filter(|i| matches!(b[*i], 0xc0 | 0xc1 | 0xe0 | 0xd0 | 0xd1 | 0xf0 | 0xa0 | 0xa1 | 0xa3 | 0xb0 | 0xb1 | 0xb3))
        .collect();
    if at.is_empty() {
        return;
    }
    let i = *r.pick(&at);
    let wide = matches!(b[i], 0xd0 | 0xd1 | 0xf0 | 0xb0 | 0xb1 | 0xb3);
    let second = r.pct(50) && !matches!(b[i] >> 4, 0xa | 0xb);
    if wide {
        let p = i + 1 + 4 * usize::from(second);
        if p + 4 <= b.len() {
            let old = u32::from_be_bytes(b[p..p + 4].try_into().unwrap());
            let new = match r.below(8) {
                0 => 0,
                1 => 1,
                2 => 3,
                3 => u32::MAX,
                4 => 1 << 31,
                5 => old.wrapping_add(1),
                6 => old.wrapping_sub(1),
                _ => old.wrapping_mul(2).wrapping_add(4),
            };
            b[p..p + 4].copy_from_slice(&new.to_be_bytes());
        }
    } else {
        let p = i + 1 + usize::from(second);
        if p < b.len() {
            b[p] = match r.below(5) {
                0 => 0,
                1 => 255,
                2 => b[p].wrapping_add(1),
                3 => b[p].wrapping_sub(1),
                _ => r.next() as u8,
            };
        }
    }
}

/// map with one entry
fn entry(key: &[u8], v: &[u8]) -> Vec<u8> {
    let mut o = vec![0xd1];
    o.extend((v.len() as u32 + 4 + key.len() as u32).to_be_bytes());
    o.extend(2u32.to_be_bytes());
    o.extend(key);
    o.extend(v);
    o
}

/// described list
fn desc_list(code: u8, fields: &[&[u8]]) -> Vec<u8> {
    let n: usize = fields.iter().map(|f| f.len()).sum();
    let mut o = vec![0, 0x53, code, 0xd0];
    o.extend((n as u32 + 4).to_be_bytes());
    o.extend((fields.len() as u32).to_be_bytes());
    for f in fields {
        o.extend(*f);
    }
    o
}

/// puts the encoded value where it is likely to be looked at
fn place(r: &mut Rng, f: &mut Vec<Vec<u8>>, code: u64, d: Vec<u8>) {
    let key: &[u8] = *r.pick(&[&[0xa3u8, 1, b'k'][..], &[0xa1, 1, b'k'], &[0xa0, 1, b'k']]);
    let m = if r.pct(70) { entry(key, &d) } else { d.clone() };
    let error = desc_list(0x1d, &[&[0xa3, 1, b'x'], &[0x40], &m]);
    let state = |r: &mut Rng| match r.below(3) {
        0 => desc_list(0x25, &[&error]),
        1 => desc_list(0x27, &[&[0x41], &[0x42], &m]),
        _ => m.clone(),
    };
    let (i, v) = match code {
        _ if r.pct(25) => (r.below(f.len() as u64 + 1) as usize, d),
        wire::OPEN => (*r.pick(&[9, 7, 8, 5]), m),
        wire::BEGIN => (*r.pick(&[7, 5, 6]), m),
        wire::ATTACH => match r.below(4) {
            0 => (13, m),
            1 => (7, m),
            2 => {
                let nul: &[u8] = &[0x40];
                let (a, b) = *r.pick(&[(6, 7), (7, 8), (8, 7), (10, 8), (9, 8)]);
                let dynamic: &[u8] = &[0x41];
                let mut l = vec![nul; 11];
                l[4] = dynamic;
                l[a] = &m;
                if b == 8 && a != 8 {
                    l[b] = &d;
                }
                (5, desc_list(0x28, &l))
            }
            _ => {
                let nul: &[u8] = &[0x40];
                let mut l = vec![nul; 7];
                l[*r.pick(&[5usize, 6])] = &m;
                (6, desc_list(0x29, &l))
            }
        },
        wire::FLOW => (10, m),
        wire::TRANSFER => (7, state(r)),
        wire::DISPOSITION => (4, state(r)),
        wire::DETACH => (2, error.clone()),
        wire::END | wire::CLOSE => (0, error.clone()),
        wire::SASL_MECHANISMS => (0, d),
        _ => (r.below(f.len() as u64 + 1) as usize, d),
    };
    while f.len() <= i {
        f.push(vec![0x40]);
    }
    f[i] = v;
}

fn fix(b: &mut [u8]) {
    if b.len() >= 4 {
        let n = (b.len() as u32).to_be_bytes();
        b[..4].copy_from_slice(&n);
    }
}

/// a frame with fields given as bytes
fn assemble(sasl: bool, ch: u16, code: u64, fields: &[Vec<u8>], payload: &[u8]) -> Vec<u8> {
    let mut o = vec![0, 0, 0, 0, 2, u8::from(sasl)];
    o.extend(ch.to_be_bytes());
    o.extend([0, 0x53, code as u8, 0xd0]);
    let n: usize = fields.iter().map(Vec::len).sum();
    o.extend((n as u32 + 4).to_be_bytes());
    o.extend((fields.len() as u32).to_be_bytes());
    for f in fields {
        o.extend(f);
    }
    o.extend(payload);
    fix(&mut o);
    o
}

pub enum Out {
    /// send this now
    Now(Vec<u8>),
    /// send the second after the next frame
    Later(Vec<u8>),
}

/// What is sent in place of `p` (None: `raw`, a protocol header).
pub fn apply(m: &Mut, enc: &mut Enc, ch: u16, p: Option<&Perf>, raw: &[u8], c: &Ctx) -> Out {
    let mut r = Rng::new(m.x);
    let r = &mut r;
    let sasl = p.is_some_and(|p| p.code >= 0x40);
    let build = |enc: &mut Enc, ch: u16, p: &Perf| wire::build(enc, p.code >= 0x40, ch, Some(p));
    let mut good = match p {
        Some(p) => build(enc, ch, p),
        None => raw.to_vec(),
    };
    let k = match (m.k, p) {
        // only for frames
        (Kind::Field | Kind::Null | Kind::Type | Kind::Nested, Some(p)) if p.f.is_empty() => Kind::Extra,
        (
            Kind::Field
            | Kind::Null
            | Kind::Type
            | Kind::Extra
            | Kind::Short
            | Kind::Code
            | Kind::Nested
            | Kind::Channel
            | Kind::Lie
            | Kind::Deep
            | Kind::Bomb
            | Kind::Tight
            | Kind::Noise
            | Kind::Body,
            None,
        ) => Kind::Flip,
        (Kind::Body, Some(p)) if p.payload.is_empty() => Kind::Bomb,
        (k, _) => k,
    };
    let fields = |enc: &mut Enc, p: &Perf| -> Vec<Vec<u8>> {
        p.f.iter()
            .map(|v| {
                let mut b = vec![];
                enc.value(v, &mut b);
                b
            })
            .collect()
    };
    let b = match (k, p) {
        (Kind::Field | Kind::Null | Kind::Type | Kind::Nested, Some(p)) => {
            let mut q = p.clone();
            let n = if r.pct(70) { 1 } else { r.range(1, 4) };
            for _ in 0..n {
                let i = r.below(q.f.len() as u64) as usize;
                q.f[i] = match k {
                    Kind::Field => extreme(r, &q.f[i], c),
                    Kind::Null => V::Null,
                    Kind::Type => any(r),
                    _ => inside(r, &q.f[i], c),
                };
            }
            build(enc, ch, &q)
        }
        (Kind::Extra, Some(p)) => {
            let mut q = p.clone();
            for _ in 0..r.range(1, 20) {
                q.f.push(any(r));
            }
            build(enc, ch, &q)
        }
        (Kind::Short, Some(p)) => {
            let mut q = p.clone();
            q.f.truncate(r.below(q.f.len() as u64 + 1) as usize);
            build(enc, ch, &q)
        }
        (Kind::Code, Some(p)) => {
            let mut q = p.clone();
            q.code = if r.pct(80) { r.range(0x10, 0x18) } else { r.below(256) };
            build(enc, ch, &q)
        }
        (Kind::Channel, Some(p)) => {
            let ch = match r.below(4) {
                0 => 65_535,
                1 => ch.wrapping_add(1),
                2 => r.next() as u16,
                _ => c.chans.first().copied().unwrap_or(3),
            };
            build(enc, ch, p)
        }
        (Kind::Deep, Some(p)) => {
            let mut f = fields(enc, p);
            let room = if c.limit == 0 { 2_000_000 } else { c.limit.saturating_sub(good.len() + 40) };
            let most = (room / 10).clamp(2, 150_000) as u64;
            let depth = if r.pct(60) { r.range(most / 2, most) } else { r.logu(2, most) } as usize;
            let d = deep(r, depth);
            place(r, &mut f, p.code, d);
            assemble(sasl, ch, p.code, &f, &p.payload)
        }
        (Kind::Bomb | Kind::Tight, Some(p)) => {
            let mut f = fields(enc, p);
            let d = if k == Kind::Tight { tight(r) } else { bomb(r) };
            // half of them as part of a map or list
            let d = match r.below(4) {
                0 => {
                    let mut o = vec![0xd1];
                    o.extend((d.len() as u32 + 4 + 3).to_be_bytes());
                    o.extend(2u32.to_be_bytes());
                    o.extend([0xa3, 1, b'k']);
                    o.extend(&d);
                    o
                }
                1 => {
                    let mut o = vec![0xd0];
                    o.extend((d.len() as u32 + 4).to_be_bytes());
                    o.extend(1u32.to_be_bytes());
                    o.extend(&d);
                    o
                }
                _ => d,
            };
            place(r, &mut f, p.code, d);
            assemble(sasl, ch, p.code, &f, &p.payload)
        }
        (Kind::Noise, Some(p)) => {
            let n = r.below(60) as usize;
            let mut f = r.bytes(n);
            // likelier to look like something
            for x in &mut f {
                if r.pct(40) {
                    *x = *r.pick(&[0x00u8, 0x40, 0x43, 0x45, 0x52, 0x53, 0x70, 0xa1, 0xa3, 0xb0, 0xc0, 0xc1, 0xd0, 0xd1, 0xe0, 0xf0, 0x83, 0x98]);
                }
            }
            let code = p.code as u8;
            let mut o = good[..8].to_vec();
            o[4] = 2;
            if r.pct(70) {
                o.extend([0, 0x53, code]);
            }
            o.extend(f);
            fix(&mut o);
            o
        }
        (Kind::Body, Some(p)) => {
            let mut q = p.clone();
            let b = &mut q.payload;
            match r.below(6) {
                0 => lie(r, b, 0),
                1 => {
                    let i = r.below(b.len() as u64) as usize;
                    b[i] = r.next() as u8;
                }
                2 => {
                    let n = r.below(b.len() as u64 + 1) as usize;
                    b.truncate(n);
                }
                k => {
                    // a section: properties, annotations, value ...
                    let d = if k == 3 {
                        let room = if c.limit == 0 { 2_000_000 } else { c.limit.saturating_sub(good.len() + 40) };
                        let most = (room / 10).clamp(2, 150_000) as u64;
                        let depth = if r.pct(60) { r.range(most / 2, most) } else { r.logu(2, most) } as usize;
                        deep(r, depth)
                    } else if k == 4 {
                        bomb(r)
                    } else {
                        let n = r.below(40) as usize;
                        r.bytes(n)
                    };
                    let code = r.range(0x70, 0x79) as u8;
                    let d = if r.pct(40) { entry(&[0xa3, 1, b'k'], &d) } else { d };
                    let mut s = vec![0, 0x53, code];
                    s.extend(d);
                    if r.pct(50) {
                        *b = s;
                    } else {
                        b.splice(0..0, s);
                    }
                }
            }
            build(enc, ch, &q)
        }
        (Kind::Lie, _) => {
            for _ in 0..r.range(1, 3) {
                lie(r, &mut good, 8);
            }
            good
        }
        (Kind::Flip, _) => {
            let from = if good.len() > 8 && r.pct(80) { 8 } else { 0 };
            for _ in 0..r.logu(1, 12) {
                let i = r.range(from, good.len() as u64 - 1) as usize;
                if r.pct(50) {
                    good[i] ^= 1 << r.below(8);
                } else {
                    good[i] = *r.pick(&[0, 0xff, 0x7f, 0x80, 0x40, 0x45, 0x70, 0xd0, 0xf0]);
                }
            }
            good
        }
        (Kind::Trunc, _) => {
            let n = r.below(good.len() as u64 + 1) as usize;
            good.truncate(n);
            if r.pct(80) && n >= 8 {
                fix(&mut good);
            }
            good
        }
        (Kind::Size, _) => {
            let n = match r.below(8) {
                0 => r.below(8) as u32,
                1 => 8,
                2 => good.len() as u32 + 1,
                3 => good.len() as u32 - 1,
                4 => u32::MAX,
                5 => 1 << 31,
                6 => (c.limit as u32).wrapping_add(1),
                _ => r.logu(1, 1 << 30) as u32,
            };
            good[..4].copy_from_slice(&n.to_be_bytes());
            good
        }
        (Kind::Doff, _) => {
            good[4] = *r.pick(&[0u8, 1, 3, 4, 100, 255]);
            good
        }
        (Kind::FrameType, _) => {
            good[5] = *r.pick(&[0u8, 1, 2, 3, 255]);
            good
        }
        (Kind::Garbage, _) => {
            let n = r.logu(1, 400) as usize;
            let mut o = r.bytes(n);
            if r.pct(50) {
                o.extend(&good);
            }
            o
        }
        (Kind::Dup, _) => good.repeat(2),
        (Kind::Drop, _) => vec![],
        (Kind::Hold, _) => return Out::Later(good),
        (Kind::Header, _) => {
            let h = *r.pick(&[&b"AMQP\0\x01\0\0"[..], b"AMQP\x03\x01\0\0", b"AMQP\x02\x01\0\0", b"HTTP/1.1"]);
            let mut o = h.to_vec();
            if r.pct(50) {
                o.extend(&good);
            } else {
                let mut g = good;
                g.extend(o);
                o = g;
            }
            o
        }
        (Kind::Inject, _) => {
            let (ch, q) = odd(r, c);
            let x = build(enc, ch, &q);
            if r.pct(50) { [x, good].concat() } else { [good, x].concat() }
        }
        (Kind::Flood, _) => {
            let n = r.logu(2, 400);
            let mut o = good;
            let (ch, q) = odd(r, c);
            let how = r.below(5);
            for i in 0..n {
                let b = match how {
                    // the same one again and again
                    0 => build(enc, ch, &q),
                    // other channels or handles
                    1 => build(enc, i as u16, &q),
                    2 => {
                        let mut q = q.clone();
                        let f = usize::from(q.code == wire::ATTACH || q.code == wire::TRANSFER);
                        if q.code == wire::ATTACH {
                            q.f[0] = V::Str(format!("flood-{i}"));
                        }
                        if let Some(V::Uint(x)) = q.f.get(f).cloned() {
                            q.f[f] = V::Uint(x.wrapping_add(i as u32));
                        }
                        build(enc, ch, &q)
                    }
                    // empty frames
                    3 => vec![0, 0, 0, 8, 2, 0, 0, 0],
                    _ => {
                        let (ch, q) = odd(r, c);
                        build(enc, ch, &q)
                    }
                };
                o.extend(b);
            }
            o
        }
        (Kind::Big, _) => {
            let base = if c.limit == 0 { 65_536 } else { c.limit };
            let n = (base as u64).saturating_add(r.logu(1, 100_000)).min(3_000_000) as usize;
            let mut o = if r.pct(50) || p.is_none_or(|p| p.code != wire::TRANSFER) {
                let mut q = Perf::new(
                    wire::TRANSFER,
                    vec![
                        V::Uint(c.handles.first().copied().unwrap_or(0)),
                        V::Uint(c.ids.first().copied().unwrap_or(0)),
                        V::Bin(vec![9]),
                        V::Uint(0),
                        V::Bool(true),
                        V::Bool(false),
                    ],
                );
                q.payload = vec![];
                build(enc, c.chans.first().copied().unwrap_or(0), &q)
            } else {
                good
            };
            if o.len() < n {
                o.resize(n, 0x40);
            }
            fix(&mut o);
            o
        }
        _ => good,
    };
    Out::Now(b)
}
