//! C19: values arrive as they were given.
use std::collections::HashMap;

use crate::hist::{AppEv, Call, EvK, Ret};
use crate::oracle::Ck;
use crate::scen::OpK;
use crate::vals;
use crate::wire::{self, Dec, Item, V};

fn each(v: &V, f: &mut dyn FnMut(&V)) {
    match v {
        V::Desc(_, x) => {
            f(v);
            each(x, f);
        }
        V::List(l) => l.iter().for_each(|x| each(x, f)),
        _ => {}
    }
}

/// where two values differ
pub fn diff(a: &V, b: &V, path: &str) -> Option<String> {
    if a.same(b) {
        return None;
    }
    let cut = |v: &V| {
        let s = format!("{v:?}");
        if s.len() > 160 { format!("{}…", s.chars().take(160).collect::<String>()) } else { s }
    };
    match (a, b) {
        (V::Desc(_, x), V::Desc(_, y)) if a.code() == b.code() => {
            diff(x, y, &format!("{path}/{}", a.code().map_or("?", wire::name_of)))
        }
        (V::List(x), V::List(y)) if x.len() == y.len() => {
            x.iter().zip(y).enumerate().find_map(|(i, (x, y))| diff(x, y, &format!("{path}[{i}]")))
        }
        (V::Map(x), V::Map(y)) if x.len() == y.len() => x
            .iter()
            .find_map(|(k, v)| match y.iter().find(|(k2, _)| k.same(k2)) {
                None => Some(format!("{path}: no {} in {}", cut(k), cut(b))),
                Some((_, v2)) => diff(v, v2, &format!("{path}{{{}}}", cut(k))),
            })
            .or_else(|| Some(format!("{path}: {} is not {}", cut(a), cut(b)))),
        _ => Some(format!("{path}: {} is not {}", cut(a), cut(b))),
    }
}

impl Ck<'_> {
    pub fn c19(&mut self) {
        if !self.s.flag("values") {
            return;
        }
        let t = self.t;
        let seed = self.s.seed;
        // what was written, per connection and side
        let mut out: HashMap<(usize, usize), Vec<(usize, u64, V)>> = HashMap::new();
        for e in t.evs {
            if let EvK::Wire { conn, from, item, .. } = &e.k
                && let Item::Frame(f) = &**item
                && let Some(p) = &f.perf
            {
                out.entry((*conn, *from)).or_default().push((e.seq, p.code, vals::norm_perf(p.code, &p.f)));
            }
        }
        let none = vec![];
        let mut given: Vec<(usize, V)> = vec![];
        for e in t.evs {
            let EvK::App { conn, side, e: a } = &e.k else { continue };
            let theirs = out.get(&(*conn, 1 - side)).unwrap_or(&none);
            let ours = out.get(&(*conn, *side)).unwrap_or(&none);
            match a {
                AppEv::Seen { v } => {
                    let n = vals::norm(v);
                    let c = v.code().unwrap();
                    let mut near = None;
                    let mut ok = false;
                    for (seq, code, x) in theirs {
                        if *code != c || *seq > e.seq {
                            continue;
                        }
                        if x.same(&n) {
                            ok = true;
                            break;
                        }
                        // the one meant: by its name or handle and the fields never changed
                        let key = |v: &V| match c {
                            wire::ATTACH => format!("{:?}", &v.fields()[..3]),
                            wire::FLOW => format!("{:?}", &v.fields()[..7]),
                            wire::BEGIN => format!("{:?}", &v.fields()[..2]),
                            wire::DETACH => format!("{:?}", &v.fields()[..2]),
                            _ => String::new(),
                        };
                        if near.is_none() || key(x) == key(&n) {
                            near = Some(x);
                        }
                    }
                    if !ok {
                        let d = near.and_then(|x| diff(&n, x, "")).unwrap_or_default();
                        self.fail(
                            "C19",
                            e.seq,
                            format!("side {side} is given a {} the peer has not sent{d}", wire::name_of(c)),
                        );
                    }
                }
                AppEv::SeenErr { v } => {
                    let mut ok = false;
                    for (_, _, x) in theirs.iter().chain(ours) {
                        each(x, &mut |y| ok |= y.code() == Some(wire::ERROR) && vals::equal(y, v));
                    }
                    if !ok && !vals::key_of_error(v).is_some_and(|k| vals::equal(&vals::error(seed, &k), v)) {
                        self.fail("C19", e.seq, format!("side {side} sees an error nobody has sent: {v:?}"));
                    }
                    self.keyed(e.seq, *side, v, "an application sees");
                }
                AppEv::Settle { state, .. } | AppEv::Update { state, .. } => given.push((*side, vals::norm(state))),
                AppEv::Decoded { body, r } => {
                    let mut d = Dec::new(body);
                    let mut want = vec![];
                    let mut last = 0;
                    let mut valid = !body.is_empty();
                    while valid && !d.b.is_empty() {
                        match d.value() {
                            Ok(v) => {
                                let c = v.code().unwrap_or(0);
                                valid = (0x70..=0x78).contains(&c) && last <= c;
                                last = c;
                                want.push(v);
                            }
                            Err(_) => valid = false,
                        }
                    }
                    if !valid || !want.iter().any(|v| matches!(v.code(), Some(0x75..=0x77))) {
                        continue;
                    }
                    match r {
                        Err(x) => self.fail(
                            "C19",
                            e.seq,
                            format!("a message that was received cannot be read ({x}): {}", brief(&want)),
                        ),
                        Ok(got) => {
                            let a = V::List(got.iter().map(vals::norm).collect());
                            let b = V::List(want.iter().map(vals::norm).collect());
                            if let Some(d) = diff(&a, &b, "message") {
                                self.fail("C19", e.seq, format!("a message is read differently from what was sent: {d}"));
                            }
                        }
                    }
                }
                AppEv::Terms { name, sender, f, .. } if self.real(*side) => {
                    let role = V::Bool(!sender);
                    let twice = t.evs.iter().filter(|o| {
                        matches!(&o.k, EvK::App { conn: c, side: s, e: AppEv::Terms { name: n, sender: r, .. } }
                            if c == conn && s == side && n == name && r == sender)
                    });
                    if twice.count() > 1 {
                        continue;
                    }
                    let Some(x) = ours.iter().find(|x| {
                        x.0 > e.seq
                            && x.1 == wire::ATTACH
                            && x.2.fields()[0].as_str() == Some(name)
                            && x.2.fields()[2] == role
                    }) else {
                        continue;
                    };
                    for (i, w) in [5, 6, 11, 12, 13].into_iter().zip(f) {
                        let w = match vals::norm(w) {
                            V::Sym(s) if i > 10 => V::Array(vec![V::Sym(s)]),
                            w => w,
                        };
                        if let Some(d) = diff(&x.2.fields()[i], &w, "") {
                            self.fail(
                                "C19",
                                x.0,
                                format!("field {i} of the attach of link {name:?} is not what was asked for{d}"),
                            );
                        }
                    }
                }
                AppEv::Ctl { kind, detail, .. } if *kind == "ProtocolError" && detail.contains("Codec") => {
                    let filter = theirs.iter().any(|x| {
                        x.0 < e.seq
                            && x.1 == wire::ATTACH
                            && matches!(x.2.fields()[5].fields().get(7), Some(V::Map(m))
                                if m.iter().any(|x| matches!(x.1, V::Desc(..))))
                    });
                    let msg = if filter {
                        "an attach whose source has a described filter ends the connection".to_string()
                    } else {
                        format!("side {side} does not understand a valid frame: {detail}")
                    };
                    self.fail("C19", e.seq, msg);
                }
                _ => {}
            }
        }
        // values of the real side on the wire
        for ((_, from), v) in &out {
            if !self.real(*from) {
                continue;
            }
            for (seq, _, v) in v {
                self.keyed(*seq, *from, v, "a frame carries");
            }
        }
        for s in &t.sess {
            for d in &s.disps {
                if !self.real(d.from) || !d.receiver || self.s.eps[d.from].router {
                    continue;
                }
                let n = vals::norm(&d.state);
                // ends up without contents when nothing was decided
                let plain = match n.code() {
                    Some(wire::MODIFIED) => n.fields().iter().all(V::is_null),
                    // the library has reasons of its own
                    Some(wire::REJECTED) => {
                        let e = &n.fields()[0];
                        e.is_null() || e.fields()[0].as_str() == Some("Internal error")
                    }
                    _ => true,
                };
                if !plain && !given.iter().any(|(x, v)| *x == d.from && v.same(&n)) {
                    let near = given.iter().find(|(x, v)| *x == d.from && v.code() == n.code());
                    let d_ = near.and_then(|x| diff(&n, &x.1, "")).unwrap_or_default();
                    self.fail("C19", d.fr.seq, format!("a disposition carries a state nobody has given{d_}"));
                }
            }
        }
        // the outcomes reported
        for o in &t.ops {
            let Some((seq, _, Ret::Outcome(Some(v)))) = &o.ret else { continue };
            let said: Vec<&V> = t
                .sess
                .iter()
                .filter(|s| t.conns[s.conn].id == o.conn)
                .flat_map(|s| &s.disps)
                .filter(|d| d.from != o.side && d.fr.seq < *seq)
                .map(|d| &d.state)
                .collect();
            if !said.iter().any(|x| vals::equal(x, v))
                && let Some(x) = said.iter().find(|x| x.code() == v.code())
            {
                let d = diff(&vals::norm(v), &vals::norm(x), "").unwrap_or_default();
                self.fail("C19", *seq, format!("an outcome nobody has sent is reported{d}"));
            }
        }
        self.c19_given();
    }

    /// errors and states of ours are as they were made
    fn keyed(&mut self, seq: usize, side: usize, v: &V, what: &str) {
        let seed = self.s.seed;
        let mut bad = None;
        each(v, &mut |x| {
            let want = match x.code() {
                Some(wire::ERROR) => vals::key_of_error(x).map(|k| vals::error(seed, &k)),
                Some(wire::MODIFIED) => vals::no_of_state(x).map(|n| vals::state(seed, 3, n)),
                _ => None,
            };
            if let Some(w) = want
                && let Some(d) = diff(&vals::norm(x), &vals::norm(&w), "")
            {
                bad = Some(d);
            }
        });
        if let Some(d) = bad {
            self.fail("C19", seq, format!("{what} (side {side}) a value that was given differently{d}"));
        }
    }

    /// errors given to the one call that ends something are sent
    fn c19_given(&mut self) {
        let t = self.t;
        let seed = self.s.seed;
        for x in 0..2 {
            if !self.real(x) {
                continue;
            }
            for li in 0..t.links.len() {
                let l = &t.links[li];
                let Some((fr, p)) = &l.detach[x] else { continue };
                if l.detach[1 - x].as_ref().is_some_and(|d| d.0.seq < fr.seq) {
                    continue;
                }
                let calls: Vec<_> = t
                    .ops
                    .iter()
                    .filter(|o| {
                        o.side == x
                            && matches!(o.c, Call::CloseLink { lid } | Call::DetachLink { lid }
                                if t.lapi.get(&lid).and_then(|a| a.link) == Some(li))
                    })
                    .collect();
                let [o] = calls[..] else { continue };
                if o.call > fr.seq {
                    continue;
                }
                let k = t.evs.iter().find_map(|e| match &e.k {
                    EvK::App { e: AppEv::Given { op, err: Some(err) }, .. } if *op == o.op => Some(err),
                    _ => None,
                });
                let Some(k) = k else { continue };
                if !vals::is_key(k) {
                    continue;
                }
                if let Some(d) = diff(&vals::norm(p.get(2)), &vals::norm(&vals::error(seed, k)), "") {
                    let s = self.link_str(li);
                    self.fail("C19", fr.seq, format!("the error {k} given for closing {s} is not what is sent{d}"));
                }
            }
            for c in 0..t.conns.len() {
                let k = &t.conns[c];
                let Some((fr, p)) = &k.close[x] else { continue };
                if k.close[1 - x].as_ref().is_some_and(|d| d.0.seq < fr.seq) {
                    continue;
                }
                let mut keys = vec![];
                for o in &self.s.ops {
                    if o.side == x
                        && let OpK::CloseConn { err } = &o.k
                    {
                        keys.push(err.clone());
                    }
                }
                let called =
                    t.ops.iter().any(|o| o.side == x && o.conn == k.id && o.call < fr.seq && matches!(o.c, Call::CloseConn));
                let [Some(e)] = &keys[..] else { continue };
                if called && vals::is_key(e) {
                    if p.get(0).is_null() && self.real(1 - x) {
                        continue;
                    }
                    if let Some(d) = diff(&vals::norm(p.get(0)), &vals::norm(&vals::error(seed, e)), "") {
                        self.fail("C19", fr.seq, format!("the error {e} given for closing the connection is not what is sent{d}"));
                    }
                }
            }
        }
    }
}

fn brief(v: &[V]) -> String {
    let s = format!("{v:?}");
    s.chars().take(300).collect()
}
