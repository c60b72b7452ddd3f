//! Independent AMQP 1.0 types, encodings and framing (shares no code with /repo).
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Ubyte(u8),
    Ushort(u16),
    Uint(u32),
    Ulong(u64),
    Byte(i8),
    Short(i16),
    Int(i32),
    Long(i64),
    /// raw bits, so that NaN compares
    Float(u32),
    Double(u64),
    Dec32([u8; 4]),
    Dec64([u8; 8]),
    Dec128([u8; 16]),
    Char(u32),
    Time(i64),
    Uuid([u8; 16]),
    Bin(Vec<u8>),
    Str(String),
    Sym(String),
    List(Vec<V>),
    Map(Vec<(V, V)>),
    Array(Vec<V>),
    Desc(Box<V>, Box<V>),
}

impl V {
    pub fn str(s: &str) -> V {
        V::Str(s.to_string())
    }
    pub fn sym(s: &str) -> V {
        V::Sym(s.to_string())
    }
    pub fn desc(code: u64, v: V) -> V {
        V::Desc(Box::new(V::Ulong(code)), Box::new(v))
    }
    pub fn as_u64(&self) -> Option<u64> {
        Some(match self {
            V::Ubyte(v) => u64::from(*v),
            V::Ushort(v) => u64::from(*v),
            V::Uint(v) => u64::from(*v),
            V::Ulong(v) => *v,
            _ => return None,
        })
    }
    pub fn as_u32(&self) -> Option<u32> {
        if let V::Uint(v) = self { Some(*v) } else { None }
    }
    pub fn as_bool(&self) -> Option<bool> {
        if let V::Bool(v) = self { Some(*v) } else { None }
    }
    pub fn as_bin(&self) -> Option<&[u8]> {
        if let V::Bin(v) = self { Some(v) } else { None }
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            V::Str(v) | V::Sym(v) => Some(v),
            _ => None,
        }
    }
    pub fn code(&self) -> Option<u64> {
        match self {
            V::Desc(d, _) => match &**d {
                V::Ulong(c) => Some(*c),
                V::Sym(s) => code_of(s),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn fields(&self) -> &[V] {
        match self {
            V::Desc(_, v) => match &**v {
                V::List(l) => l,
                _ => &[],
            },
            _ => &[],
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, V::Null)
    }
    /// maps compared as unordered sets of pairs
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::Map(a), V::Map(b)) => {
                a.len() == b.len()
                    && a.iter().all(|(k, v)| b.iter().any(|(k2, v2)| k.same(k2) && v.same(v2)))
            }
            (V::List(a), V::List(b)) | (V::Array(a), V::Array(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
            }
            (V::Desc(a, b), V::Desc(c, d)) => {
                let ka = if let V::Sym(s) = &**a { code_of(s).map(V::Ulong) } else { None };
                let kc = if let V::Sym(s) = &**c { code_of(s).map(V::Ulong) } else { None };
                ka.as_ref().unwrap_or(a).same(kc.as_ref().unwrap_or(c)) && b.same(d)
            }
            _ => self == o,
        }
    }
}

pub const OPEN: u64 = 0x10;
pub const BEGIN: u64 = 0x11;
pub const ATTACH: u64 = 0x12;
pub const FLOW: u64 = 0x13;
pub const TRANSFER: u64 = 0x14;
pub const DISPOSITION: u64 = 0x15;
pub const DETACH: u64 = 0x16;
pub const END: u64 = 0x17;
pub const CLOSE: u64 = 0x18;
pub const ERROR: u64 = 0x1d;
pub const RECEIVED: u64 = 0x23;
pub const ACCEPTED: u64 = 0x24;
pub const REJECTED: u64 = 0x25;
pub const RELEASED: u64 = 0x26;
pub const MODIFIED: u64 = 0x27;
pub const SOURCE: u64 = 0x28;
pub const TARGET: u64 = 0x29;
pub const SASL_MECHANISMS: u64 = 0x40;
pub const SASL_INIT: u64 = 0x41;
pub const SASL_CHALLENGE: u64 = 0x42;
pub const SASL_RESPONSE: u64 = 0x43;
pub const SASL_OUTCOME: u64 = 0x44;

const NAMES: &[(u64, &str)] = &[
    (OPEN, "amqp:open:list"),
    (BEGIN, "amqp:begin:list"),
    (ATTACH, "amqp:attach:list"),
    (FLOW, "amqp:flow:list"),
    (TRANSFER, "amqp:transfer:list"),
    (DISPOSITION, "amqp:disposition:list"),
    (DETACH, "amqp:detach:list"),
    (END, "amqp:end:list"),
    (CLOSE, "amqp:close:list"),
    (ERROR, "amqp:error:list"),
    (RECEIVED, "amqp:received:list"),
    (ACCEPTED, "amqp:accepted:list"),
    (REJECTED, "amqp:rejected:list"),
    (RELEASED, "amqp:released:list"),
    (MODIFIED, "amqp:modified:list"),
    (SOURCE, "amqp:source:list"),
    (TARGET, "amqp:target:list"),
    (SASL_MECHANISMS, "amqp:sasl-mechanisms:list"),
    (SASL_INIT, "amqp:sasl-init:list"),
    (SASL_CHALLENGE, "amqp:sasl-challenge:list"),
    (SASL_RESPONSE, "amqp:sasl-response:list"),
    (SASL_OUTCOME, "amqp:sasl-outcome:list"),
    (0x70, "amqp:header:list"),
    (0x71, "amqp:delivery-annotations:map"),
    (0x72, "amqp:message-annotations:map"),
    (0x73, "amqp:properties:list"),
    (0x74, "amqp:application-properties:map"),
    (0x75, "amqp:data:binary"),
    (0x76, "amqp:amqp-sequence:list"),
    (0x77, "amqp:amqp-value:*"),
    (0x78, "amqp:footer:map"),
];

pub fn code_of(name: &str) -> Option<u64> {
    NAMES.iter().find(|n| n.1 == name).map(|n| n.0)
}
pub fn name_of(code: u64) -> &'static str {
    NAMES.iter().find(|n| n.0 == code).map_or("?", |n| n.1)
}

/// How freely the encoder uses the alternatives the specification allows.
#[derive(Clone, Debug)]
pub struct Enc {
    pub rng: Rng,
    /// 0 = always the most compact form; 100 = alternatives as often as possible
    pub vary: u32,
    /// may use symbolic descriptors for performatives
    pub sym_desc: bool,
}

impl Enc {
    pub fn compact() -> Enc {
        Enc { rng: Rng::new(1), vary: 0, sym_desc: false }
    }
    fn alt(&mut self) -> bool {
        self.vary > 0 && self.rng.pct(self.vary)
    }

    pub fn value(&mut self, v: &V, o: &mut Vec<u8>) {
        match v {
            V::Null => o.push(0x40),
            V::Bool(b) => {
                if self.alt() {
                    o.push(0x56);
                    o.push(u8::from(*b));
                } else {
                    o.push(if *b { 0x41 } else { 0x42 });
                }
            }
            V::Ubyte(x) => o.extend([0x50, *x]),
            V::Ushort(x) => {
                o.push(0x60);
                o.extend(x.to_be_bytes());
            }
            V::Uint(x) => {
                if *x == 0 && !self.alt() {
                    o.push(0x43);
                } else if *x < 256 && !self.alt() {
                    o.extend([0x52, *x as u8]);
                } else {
                    o.push(0x70);
                    o.extend(x.to_be_bytes());
                }
            }
            V::Ulong(x) => {
                if *x == 0 && !self.alt() {
                    o.push(0x44);
                } else if *x < 256 && !self.alt() {
                    o.extend([0x53, *x as u8]);
                } else {
                    o.push(0x80);
                    o.extend(x.to_be_bytes());
                }
            }
            V::Byte(x) => o.extend([0x51, *x as u8]),
            V::Short(x) => {
                o.push(0x61);
                o.extend(x.to_be_bytes());
            }
            V::Int(x) => {
                if (-128..=127).contains(x) && !self.alt() {
                    o.extend([0x54, *x as i8 as u8]);
                } else {
                    o.push(0x71);
                    o.extend(x.to_be_bytes());
                }
            }
            V::Long(x) => {
                if (-128..=127).contains(x) && !self.alt() {
                    o.extend([0x55, *x as i8 as u8]);
                } else {
                    o.push(0x81);
                    o.extend(x.to_be_bytes());
                }
            }
            V::Float(x) => {
                o.push(0x72);
                o.extend(x.to_be_bytes());
            }
            V::Double(x) => {
                o.push(0x82);
                o.extend(x.to_be_bytes());
            }
            V::Dec32(x) => {
                o.push(0x74);
                o.extend(x);
            }
            V::Dec64(x) => {
                o.push(0x84);
                o.extend(x);
            }
            V::Dec128(x) => {
                o.push(0x94);
                o.extend(x);
            }
            V::Char(x) => {
                o.push(0x73);
                o.extend(x.to_be_bytes());
            }
            V::Time(x) => {
                o.push(0x83);
                o.extend(x.to_be_bytes());
            }
            V::Uuid(x) => {
                o.push(0x98);
                o.extend(x);
            }
            V::Bin(x) => self.var(0xa0, 0xb0, x, o),
            V::Str(x) => self.var(0xa1, 0xb1, x.as_bytes(), o),
            V::Sym(x) => self.var(0xa3, 0xb3, x.as_bytes(), o),
            V::List(l) => {
                if l.is_empty() && !self.alt() {
                    o.push(0x45);
                    return;
                }
                let mut b = Vec::new();
                for x in l {
                    self.value(x, &mut b);
                }
                self.compound(0xc0, 0xd0, l.len(), &b, o);
            }
            V::Map(m) => {
                let mut b = Vec::new();
                for (k, x) in m {
                    self.value(k, &mut b);
                    self.value(x, &mut b);
                }
                self.compound(0xc1, 0xd1, m.len() * 2, &b, o);
            }
            V::Array(a) => {
                let (code, mut b) = self.array_body(a);
                let mut body = code;
                body.append(&mut b);
                self.compound(0xe0, 0xf0, a.len(), &body, o);
            }
            V::Desc(d, x) => {
                o.push(0);
                let alt_sym = self.sym_desc && self.alt();
                match &**d {
                    V::Ulong(c) if alt_sym && code_of(name_of(*c)).is_some() => {
                        self.value(&V::sym(name_of(*c)), o);
                    }
                    d => self.value(d, o),
                }
                self.value(x, o);
            }
        }
    }

    fn var(&mut self, c8: u8, c32: u8, x: &[u8], o: &mut Vec<u8>) {
        if x.len() < 256 && !self.alt() {
            o.extend([c8, x.len() as u8]);
        } else {
            o.push(c32);
            o.extend((x.len() as u32).to_be_bytes());
        }
        o.extend(x);
    }

    fn compound(&mut self, c8: u8, c32: u8, n: usize, b: &[u8], o: &mut Vec<u8>) {
        if b.len() < 255 && n < 256 && !self.alt() {
            o.extend([c8, (b.len() + 1) as u8, n as u8]);
        } else {
            o.push(c32);
            o.extend((b.len() as u32 + 4).to_be_bytes());
            o.extend((n as u32).to_be_bytes());
        }
        o.extend(b);
    }

    /// constructor and element bytes of an array
    fn array_body(&mut self, a: &[V]) -> (Vec<u8>, Vec<u8>) {
        let mut b = Vec::new();
        let mut small = !self.alt();
        if a.is_empty() {
            // an element constructor has to be present all the same
            return (vec![0xa3], b);
        }
        for x in a {
            let fits = match x {
                V::Uint(v) => *v < 256,
                V::Ulong(v) => *v < 256,
                V::Int(v) => (-128..=127).contains(v),
                V::Long(v) => (-128..=127).contains(v),
                V::Bin(v) => v.len() < 256,
                V::Str(v) | V::Sym(v) => v.len() < 256,
                V::Bool(_) => true,
                _ => false,
            };
            small &= fits;
        }
        let code = match (&a[0], small) {
            (V::Null, _) => 0x40,
            (V::Bool(_), _) => 0x56,
            (V::Ubyte(_), _) => 0x50,
            (V::Ushort(_), _) => 0x60,
            (V::Uint(_), true) => 0x52,
            (V::Uint(_), false) => 0x70,
            (V::Ulong(_), true) => 0x53,
            (V::Ulong(_), false) => 0x80,
            (V::Byte(_), _) => 0x51,
            (V::Short(_), _) => 0x61,
            (V::Int(_), true) => 0x54,
            (V::Int(_), false) => 0x71,
            (V::Long(_), true) => 0x55,
            (V::Long(_), false) => 0x81,
            (V::Float(_), _) => 0x72,
            (V::Double(_), _) => 0x82,
            (V::Dec32(_), _) => 0x74,
            (V::Dec64(_), _) => 0x84,
            (V::Dec128(_), _) => 0x94,
            (V::Char(_), _) => 0x73,
            (V::Time(_), _) => 0x83,
            (V::Uuid(_), _) => 0x98,
            (V::Bin(_), true) => 0xa0,
            (V::Bin(_), false) => 0xb0,
            (V::Str(_), true) => 0xa1,
            (V::Str(_), false) => 0xb1,
            (V::Sym(_), true) => 0xa3,
            (V::Sym(_), false) => 0xb3,
            (V::List(_), _) => 0xd0,
            (V::Map(_), _) => 0xd1,
            (V::Array(_), _) => 0xf0,
            (V::Desc(..), _) => panic!("arrays of described values are not generated"),
        };
        for x in a {
            match (x, code) {
                (V::Null, _) => {}
                (V::Bool(v), _) => b.push(u8::from(*v)),
                (V::Uint(v), 0x52) => b.push(*v as u8),
                (V::Ulong(v), 0x53) => b.push(*v as u8),
                (V::Int(v), 0x54) => b.push(*v as i8 as u8),
                (V::Long(v), 0x55) => b.push(*v as i8 as u8),
                (V::Bin(v), 0xa0) => {
                    b.push(v.len() as u8);
                    b.extend(v);
                }
                (V::Str(v) | V::Sym(v), 0xa1 | 0xa3) => {
                    b.push(v.len() as u8);
                    b.extend(v.as_bytes());
                }
                (V::List(v), _) => {
                    let mut t = Vec::new();
                    for y in v {
                        self.value(y, &mut t);
                    }
                    b.extend((t.len() as u32 + 4).to_be_bytes());
                    b.extend((v.len() as u32).to_be_bytes());
                    b.extend(t);
                }
                (V::Map(v), _) => {
                    let mut t = Vec::new();
                    for (k, y) in v {
                        self.value(k, &mut t);
                        self.value(y, &mut t);
                    }
                    b.extend((t.len() as u32 + 4).to_be_bytes());
                    b.extend((v.len() as u32 * 2).to_be_bytes());
                    b.extend(t);
                }
                (V::Array(v), _) => {
                    let (c, t) = self.array_body(v);
                    b.extend((t.len() as u32 + c.len() as u32 + 4).to_be_bytes());
                    b.extend((v.len() as u32).to_be_bytes());
                    b.extend(c);
                    b.extend(t);
                }
                (x, _) => {
                    // fixed width: encode in full and drop the constructor
                    let mut t = Vec::new();
                    let (sv, sr) = (self.vary, self.sym_desc);
                    self.vary = 0;
                    match x {
                        V::Uint(v) => t.extend(v.to_be_bytes()),
                        V::Ulong(v) => t.extend(v.to_be_bytes()),
                        V::Int(v) => t.extend(v.to_be_bytes()),
                        V::Long(v) => t.extend(v.to_be_bytes()),
                        V::Bin(v) => {
                            t.extend((v.len() as u32).to_be_bytes());
                            t.extend(v);
                        }
                        V::Str(v) | V::Sym(v) => {
                            t.extend((v.len() as u32).to_be_bytes());
                            t.extend(v.as_bytes());
                        }
                        x => {
                            self.value(x, &mut t);
                            t.remove(0);
                        }
                    }
                    self.vary = sv;
                    self.sym_desc = sr;
                    b.extend(t);
                }
            }
        }
        (vec![code], b)
    }
}

pub type R<T> = Result<T, String>;

/// strict decoder
pub struct Dec<'a> {
    pub b: &'a [u8],
    depth: u32,
}

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Dec<'a> {
        Dec { b, depth: 0 }
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() < n {
            return Err(format!("value truncated: need {n}, have {}", self.b.len()));
        }
        let (a, b) = self.b.split_at(n);
        self.b = b;
        Ok(a)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u32(&mut self) -> R<u32> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn value(&mut self) -> R<V> {
        let c = self.u8()?;
        if self.depth > 200 {
            return Err("nested too deeply".into());
        }
        self.depth += 1;
        let v = self.value2(c);
        self.depth -= 1;
        v
    }
    fn value2(&mut self, c: u8) -> R<V> {
        if c == 0 {
            let d = self.value()?;
            let v = self.value()?;
            return Ok(V::Desc(Box::new(d), Box::new(v)));
        }
        self.body(c)
    }
    fn body(&mut self, c: u8) -> R<V> {
        macro_rules! fx {
            ($t:ty) => {
                <$t>::from_be_bytes(self.take(size_of::<$t>())?.try_into().unwrap())
            };
        }
        Ok(match c {
            0x40 => V::Null,
            0x41 => V::Bool(true),
            0x42 => V::Bool(false),
            0x43 => V::Uint(0),
            0x44 => V::Ulong(0),
            0x45 => V::List(vec![]),
            0x50 => V::Ubyte(self.u8()?),
            0x51 => V::Byte(self.u8()? as i8),
            0x52 => V::Uint(u32::from(self.u8()?)),
            0x53 => V::Ulong(u64::from(self.u8()?)),
            0x54 => V::Int(i32::from(self.u8()? as i8)),
            0x55 => V::Long(i64::from(self.u8()? as i8)),
            0x56 => match self.u8()? {
                0 => V::Bool(false),
                1 => V::Bool(true),
                x => return Err(format!("boolean byte {x}")),
            },
            0x60 => V::Ushort(fx!(u16)),
            0x61 => V::Short(fx!(i16)),
            0x70 => V::Uint(fx!(u32)),
            0x71 => V::Int(fx!(i32)),
            0x72 => V::Float(fx!(u32)),
            0x73 => V::Char(fx!(u32)),
            0x74 => V::Dec32(self.take(4)?.try_into().unwrap()),
            0x80 => V::Ulong(fx!(u64)),
            0x81 => V::Long(fx!(i64)),
            0x82 => V::Double(fx!(u64)),
            0x83 => V::Time(fx!(i64)),
            0x84 => V::Dec64(self.take(8)?.try_into().unwrap()),
            0x94 => V::Dec128(self.take(16)?.try_into().unwrap()),
            0x98 => V::Uuid(self.take(16)?.try_into().unwrap()),
            0xa0 | 0xb0 | 0xa1 | 0xb1 | 0xa3 | 0xb3 => {
                let n = if c < 0xb0 { usize::from(self.u8()?) } else { self.u32()? as usize };
                let x = self.take(n)?;
                match c & 0xf {
                    0 => V::Bin(x.to_vec()),
                    1 => V::Str(
                        String::from_utf8(x.to_vec()).map_err(|_| "string is not UTF-8".to_string())?,
                    ),
                    _ => {
                        if !x.is_ascii() {
                            return Err("symbol is not ASCII".into());
                        }
                        V::Sym(String::from_utf8(x.to_vec()).unwrap())
                    }
                }
            }
            0xc0 | 0xd0 | 0xc1 | 0xd1 | 0xe0 | 0xf0 => {
                let wide = matches!(c, 0xd0 | 0xd1 | 0xf0);
                let size = if wide { self.u32()? as usize } else { usize::from(self.u8()?) };
                let body = self.take(size)?;
                if self.depth > 200 {
                    return Err("nested too deeply".into());
                }
                let mut d = Dec { b: body, depth: self.depth + 1 };
                let n = if wide { d.u32()? as usize } else { usize::from(d.u8()?) };
                if n > 256 + 2 * body.len() {
                    return Err(format!("{n} elements claimed in {} bytes", body.len()));
                }
                let v = match c {
                    0xc0 | 0xd0 => {
                        let mut l = Vec::new();
                        for _ in 0..n {
                            l.push(d.value()?);
                        }
                        V::List(l)
                    }
                    0xc1 | 0xd1 => {
                        if n % 2 != 0 {
                            return Err("map with an odd number of elements".into());
                        }
                        let mut m = Vec::new();
                        for _ in 0..n / 2 {
                            let k = d.value()?;
                            let v = d.value()?;
                            m.push((k, v));
                        }
                        V::Map(m)
                    }
                    _ => {
                        let ec = d.u8()?;
                        if ec == 0 {
                            let ds = d.value()?;
                            let ec = d.u8()?;
                            let mut l = Vec::new();
                            for _ in 0..n {
                                let x = d.body(ec)?;
                                l.push(V::Desc(Box::new(ds.clone()), Box::new(x)));
                            }
                            V::Array(l)
                        } else {
                            let mut l = Vec::new();
                            for _ in 0..n {
                                l.push(d.body(ec)?);
                            }
                            V::Array(l)
                        }
                    }
                };
                if !d.b.is_empty() {
                    return Err(format!("{} stray bytes inside a compound value", d.b.len()));
                }
                v
            }
            c => return Err(format!("unknown constructor {c:#04x}")),
        })
    }
}

/// A parsed frame.
#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub sasl: bool,
    pub channel: u16,
    /// None: empty frame
    pub perf: Option<Perf>,
    /// total bytes on the wire
    pub size: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Perf {
    pub code: u64,
    pub f: Vec<V>,
    pub payload: Vec<u8>,
}

impl Perf {
    pub fn new(code: u64, f: Vec<V>) -> Perf {
        Perf { code, f, payload: Vec::new() }
    }
    pub fn get(&self, i: usize) -> &V {
        self.f.get(i).unwrap_or(&V::Null)
    }
    pub fn u32(&self, i: usize) -> Option<u32> {
        self.get(i).as_u32()
    }
    pub fn u64(&self, i: usize) -> Option<u64> {
        self.get(i).as_u64()
    }
    pub fn bool(&self, i: usize) -> bool {
        self.get(i).as_bool().unwrap_or(false)
    }
    pub fn str(&self, i: usize) -> Option<&str> {
        self.get(i).as_str()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    /// protocol header: id byte (0 amqp, 3 sasl, 2 tls), version bytes
    Proto([u8; 4]),
    Frame(Frame),
    /// the stream cannot be parsed from here on
    Bad(String),
}

/// allowed field types, used to check well-formedness of performatives
fn field_ok(code: u64, i: usize, v: &V) -> bool {
    if v.is_null() {
        return true;
    }
    let is_sym_multi = |v: &V| {
        matches!(v, V::Sym(_))
            || matches!(v, V::Array(a) if a.iter().all(|x| matches!(x, V::Sym(_))))
    };
    let t: u8 = match (code, i) {
        (OPEN, 0 | 1) => b's',
        (OPEN, 2) => b'u',
        (OPEN, 3) => b'h',
        (OPEN, 4) => b'u',
        (OPEN, 5..=8) => b'Y',
        (OPEN, 9) => b'm',
        (BEGIN, 0) => b'h',
        (BEGIN, 1..=4) => b'u',
        (BEGIN, 5 | 6) => b'Y',
        (BEGIN, 7) => b'm',
        (ATTACH, 0) => b's',
        (ATTACH, 1) => b'u',
        (ATTACH, 2) => b'b',
        (ATTACH, 3 | 4) => b'1',
        (ATTACH, 5 | 6) => b'd',
        (ATTACH, 7) => b'm',
        (ATTACH, 8) => b'b',
        (ATTACH, 9) => b'u',
        (ATTACH, 10) => b'U',
        (ATTACH, 11 | 12) => b'Y',
        (ATTACH, 13) => b'm',
        (FLOW, 0..=7) => b'u',
        (FLOW, 8 | 9) => b'b',
        (FLOW, 10) => b'm',
        (TRANSFER, 0 | 1 | 3) => b'u',
        (TRANSFER, 2) => b'x',
        (TRANSFER, 4 | 5 | 8 | 9 | 10) => b'b',
        (TRANSFER, 6) => b'1',
        (TRANSFER, 7) => b'd',
        (DISPOSITION, 0 | 3 | 5) => b'b',
        (DISPOSITION, 1 | 2) => b'u',
        (DISPOSITION, 4) => b'd',
        (DETACH, 0) => b'u',
        (DETACH, 1) => b'b',
        (DETACH, 2) => b'd',
        (END | CLOSE, 0) => b'd',
        (SASL_MECHANISMS, 0) => b'Y',
        (SASL_INIT, 0) => b'y',
        (SASL_INIT, 1) => b'x',
        (SASL_INIT, 2) => b's',
        (SASL_CHALLENGE | SASL_RESPONSE, 0) => b'x',
        (SASL_OUTCOME, 0) => b'1',
        (SASL_OUTCOME, 1) => b'x',
        _ => return false,
    };
    match t {
        b's' => matches!(v, V::Str(_)),
        b'y' => matches!(v, V::Sym(_)),
        b'Y' => is_sym_multi(v),
        b'u' => matches!(v, V::Uint(_)),
        b'U' => matches!(v, V::Ulong(_)),
        b'h' => matches!(v, V::Ushort(_)),
        b'1' => matches!(v, V::Ubyte(_)),
        b'b' => matches!(v, V::Bool(_)),
        b'x' => matches!(v, V::Bin(_)),
        b'm' => matches!(v, V::Map(_)),
        b'd' => matches!(v, V::Desc(..)),
        _ => false,
    }
}

fn mandatory(code: u64) -> &'static [usize] {
    match code {
        OPEN => &[0],
        BEGIN => &[1, 2, 3],
        ATTACH => &[0, 1, 2],
        FLOW => &[1, 2, 3],
        TRANSFER => &[0],
        DISPOSITION => &[0, 1],
        DETACH => &[0],
        SASL_MECHANISMS => &[0],
        SASL_INIT => &[0],
        SASL_CHALLENGE | SASL_RESPONSE => &[0],
        SASL_OUTCOME => &[0],
        _ => &[],
    }
}

pub fn check_perf(sasl: bool, p: &Perf) -> R<()> {
    let known = if sasl { (0x40..=0x44).contains(&p.code) } else { (0x10..=0x18).contains(&p.code) };
    if !known {
        return Err(format!("unexpected performative {:#x}", p.code));
    }
    for (i, v) in p.f.iter().enumerate() {
        if !field_ok(p.code, i, v) {
            return Err(format!("{}: field {i} has a wrong type: {v:?}", name_of(p.code)));
        }
    }
    for i in mandatory(p.code) {
        if p.get(*i).is_null() {
            return Err(format!("{}: mandatory field {i} is missing", name_of(p.code)));
        }
    }
    if !p.payload.is_empty() && p.code != TRANSFER {
        return Err(format!("{}: unexpected {} payload bytes", name_of(p.code), p.payload.len()));
    }
    Ok(())
}

pub fn parse_frame(b: &[u8]) -> R<Frame> {
    let doff = usize::from(b[4]) * 4;
    let typ = b[5];
    if doff < 8 || doff > b.len() {
        return Err(format!("data offset {doff} in a frame of {} bytes", b.len()));
    }
    if typ > 1 {
        return Err(format!("frame type {typ}"));
    }
    let channel = u16::from_be_bytes([b[6], b[7]]);
    let body = &b[doff..];
    let sasl = typ == 1;
    if body.is_empty() {
        return Ok(Frame { sasl, channel, perf: None, size: b.len() });
    }
    let mut d = Dec::new(body);
    let v = d.value()?;
    let code = v.code().ok_or_else(|| "frame body is not a described list".to_string())?;
    if !matches!(&v, V::Desc(_, l) if matches!(&**l, V::List(_))) {
        return Err("frame body is not a described list".into());
    }
    let perf = Perf { code, f: v.fields().to_vec(), payload: d.b.to_vec() };
    check_perf(sasl, &perf)?;
    Ok(Frame { sasl, channel, perf: Some(perf), size: b.len() })
}

/// Incremental parser over one direction of a connection.
#[derive(Default)]
pub struct Parser {
    buf: Vec<u8>,
    pos: usize,
    pub consumed: u64,
    bad: bool,
}

impl Parser {
    pub fn feed(&mut self, b: &[u8]) {
        self.buf.extend_from_slice(b);
    }
    /// next item and the stream offset of its end
    pub fn next(&mut self) -> Option<(Item, u64)> {
        if self.bad {
            return None;
        }
        let b = &self.buf[self.pos..];
        if b.len() < 8 {
            return None;
        }
        let (item, n) = if &b[..4] == b"AMQP" {
            (Item::Proto([b[4], b[5], b[6], b[7]]), 8)
        } else {
            let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
            if n < 8 || n > 64 << 20 {
                self.bad = true;
                return Some((Item::Bad(format!("frame size {n}")), self.consumed));
            }
            if b.len() < n {
                return None;
            }
            match parse_frame(&b[..n]) {
                Ok(f) => (Item::Frame(f), n),
                Err(e) => (Item::Bad(e), n),
            }
        };
        self.pos += n;
        self.consumed += n as u64;
        if self.pos > 1 << 16 {
            self.buf.drain(..self.pos);
            self.pos = 0;
        }
        Some((item, self.consumed))
    }
    /// size of the incomplete frame at the end
    pub fn head(&self) -> Option<u64> {
        let b = &self.buf[self.pos.min(self.buf.len())..];
        if b.len() < 8 || &b[..4] == b"AMQP" {
            return None;
        }
        Some(u64::from(u32::from_be_bytes(b[..4].try_into().unwrap())))
    }
    pub fn leftover(&self) -> usize {
        self.buf.len() - self.pos
    }
}

/// Build the bytes of a frame.
pub fn build(enc: &mut Enc, sasl: bool, channel: u16, perf: Option<&Perf>) -> Vec<u8> {
    let mut o = vec![0, 0, 0, 0, 2, u8::from(sasl)];
    o.extend(channel.to_be_bytes());
    if enc.vary > 0 && enc.rng.pct(enc.vary / 4) {
        // extended header, to be ignored
        let n = enc.rng.range(1, 3) as u8;
        o[4] = 2 + n;
        let x = enc.rng.bytes(usize::from(n) * 4);
        o.extend(x);
    }
    if let Some(p) = perf {
        let mut f = p.f.clone();
        if enc.vary > 0 && enc.rng.pct(enc.vary) {
            // trailing nulls written out
        } else {
            while matches!(f.last(), Some(V::Null)) {
                f.pop();
            }
        }
        enc.value(&V::desc(p.code, V::List(f)), &mut o);
        o.extend(&p.payload);
    }
    let n = (o.len() as u32).to_be_bytes();
    o[..4].copy_from_slice(&n);
    o
}

pub fn err(cond: &str, desc: Option<&str>) -> V {
    V::desc(
        ERROR,
        V::List(vec![V::sym(cond), desc.map_or(V::Null, V::str)]),
    )
}

pub fn brief(i: &Item) -> String {
    match i {
        Item::Proto(p) => format!("proto {p:?}"),
        Item::Bad(e) => format!("BAD {e}"),
        Item::Frame(f) => match &f.perf {
            None => format!("ch{} empty", f.channel),
            Some(p) => {
                let mut s = format!("ch{} {}", f.channel, name_of(p.code).trim_end_matches(":list"));
                let mut fs = p.f.clone();
                if p.code == OPEN {
                    fs[0] = V::Null; // container id is random
                }
                let t = format!("{fs:?}");
                if t.len() > 400 {
                    s.push_str(&t.chars().take(400).collect::<String>());
                } else {
                    s.push_str(&t);
                }
                if !p.payload.is_empty() {
                    s.push_str(&format!(" +{}", p.payload.len()));
                }
                s
            }
        },
    }
}
