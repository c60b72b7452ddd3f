//! Checks over the recorded history, property by property.
use std::collections::{BTreeMap, HashMap, HashSet};

use crate::hist::{AppEv, Call, Ev, EvK, Ret};
use crate::scen::{After, OpK, Scenario};
use crate::tracker::{Fr, NEVER, OpRec, TDel, Tr, body_matches, trim};
use crate::wire::{self, V};

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: String,
    pub msg: String,
    pub seq: usize,
}

pub const S: u64 = 1_000_000_000;

pub struct Ck<'a> {
    pub s: &'a Scenario,
    pub t: &'a Tr<'a>,
    pub v: Vec<Violation>,
    /// end of the observation period proper (the cut)
    pub quiet: usize,
    /// frames read before this had ample time to be dealt with
    pub ample: usize,
    /// m -> index of the Send op
    pub sends: HashMap<u64, usize>,
    /// link -> lid on a side
    pub lid_of: HashMap<(usize, usize), usize>,
}

pub fn check(s: &Scenario, h: &[Ev]) -> Vec<Violation> {
    let t = Tr::new(h);
    let mut quiet = t.end;
    for e in h {
        if let EvK::Note(n) = &e.k
            && n == "cut"
        {
            quiet = e.seq;
            break;
        }
    }
    let quiet_t = t.time(quiet);
    let ample = h.partition_point(|e| e.t + 3 * S < quiet_t);
    let mut sends = HashMap::new();
    for (i, o) in t.ops.iter().enumerate() {
        if let Call::Send { m, .. } = o.c {
            sends.insert(m, i);
        }
    }
    let mut lid_of = HashMap::new();
    for a in t.lapi.values() {
        if let Some(l) = a.link {
            lid_of.insert((l, a.side), a.lid);
        }
    }
    let mut c = Ck { s, t: &t, v: vec![], quiet, ample, sends, lid_of };
    // a connection that is ending since the peer went over its channels ends when the services
    // have done what they have in hand
    for ci in 0..t.conns.len() {
        for x in 0..2 {
            let over = |o: &OpRec| {
                o.conn == t.conns[ci].id
                    && o.side == x
                    && matches!(o.c, Call::Serve)
                    && matches!(&o.ret, Some((_, _, Ret::Err { kind, .. })) if kind.contains("Protocol(TooManyChannels)"))
            };
            if c.real(x) && t.ops.iter().any(over) {
                let at = c.channel_refusal(ci, x);
                t.conns[ci].refused.set(t.conns[ci].refused.get().min(at));
            }
        }
    }
    c.c13();
    c.c16();
    c.c03();
    c.c04();
    c.c01_send();
    c.c01_recv();
    c.c02();
    c.queues();
    c.peeks();
    c.lookups();
    c.c12();
    c.c07();
    c.c05();
    c.c06();
    c.conn_says();
    c.c11();
    c.c18();
    c.c17();
    c.c15();
    c.c10();
    c.c09();
    c.c19();
    let mut v = c.v;
    v.sort_by_key(|v| v.seq);
    v
}

fn is_state(v: &V) -> bool {
    matches!(
        v.code(),
        Some(wire::RECEIVED | wire::ACCEPTED | wire::REJECTED | wire::RELEASED | wire::MODIFIED)
    )
}
fn terminal(v: &V) -> bool {
    is_state(v) && v.code() != Some(wire::RECEIVED)
}
/// recursively without trailing nulls
pub fn norm(v: &V) -> V {
    match trim(v) {
        V::Desc(d, x) => match *x {
            V::List(l) => V::Desc(d, Box::new(V::List(l.iter().map(norm).collect()))),
            x => V::Desc(d, Box::new(x)),
        },
        v => v,
    }
}
fn same_state(a: &V, b: &V) -> bool {
    norm(a).same(&norm(b))
}
fn hexs(b: &[u8]) -> String {
    crate::node::hex(&b[..b.len().min(40)])
}

impl Ck<'_> {
    pub fn real(&self, side: usize) -> bool {
        self.s.eps[side].real
    }
    pub fn fail(&mut self, prop: &str, seq: usize, msg: impl Into<String>) {
        self.v.push(Violation { prop: prop.into(), msg: msg.into(), seq });
    }
    pub fn link_str(&self, li: usize) -> String {
        let l = &self.t.links[li];
        format!("link {:?} (sender side {}, handles {:?})", l.name, l.sender, l.h)
    }
    pub fn link_of_lid(&self, lid: usize) -> Option<usize> {
        self.t.lapi.get(&lid).and_then(|a| a.link)
    }

    // ---- C13 -----------------------------------------------------------
    fn c13(&mut self) {
        let t = self.t;
        let illegal = self.s.flag("illegal") || self.s.eps.iter().any(|e| !e.model.mute.is_empty());
        // a peer that leaves out an attach or begin does not converse legally afterwards
        let odd = self
            .s
            .eps
            .iter()
            .any(|e| e.model.mute.iter().any(|c| [wire::ATTACH, wire::BEGIN].contains(c)));
        for p in &t.problems {
            if odd {
                continue;
            }
            if self.real(p.side) {
                self.fail("C13", p.seq, format!("side {} writes: {}", p.side, p.msg));
            } else if !illegal {
                if p.msg.starts_with("flow without next-incoming") { continue; }
                if self.s.script.is_empty() {
                    self.fail("SELF", p.seq, format!("model side {}: {}", p.side, p.msg));
                }
            }
        }
        // fields of flows
        for s in &t.sess {
            for f in &s.flows {
                let x = f.from;
                if !self.real(x) {
                    continue;
                }
                let (Some((_, b)), y) = (&s.begin[1 - x], 1 - x) else { continue };
                let Some(nii) = f.p.u32(0) else { continue };
                let init = b.u32(1).unwrap_or(0);
                let d = nii.wrapping_sub(init);
                let read = s.transfers[y].iter().filter(|r| r.read < f.fr.seq).count() as u32;
                let done = s.transfers[y]
                    .iter()
                    .filter(|r| t.processed(s.conn, x, r, f.fr.seq))
                    .count() as u32;
                if d < done || d > read {
                    self.fail(
                        "C13",
                        f.fr.seq,
                        format!(
                            "side {x} writes flow with next-incoming-id {nii}: it has received {done}..={read} transfers starting from {init}"
                        ),
                    );
                }
            }
        }
        if illegal {
            return;
        }
        // answers
        for (ci, c) in t.conns.iter().enumerate() {
            let down = t.conn_down(ci).min(self.quiet);
            for x in 0..2 {
                let y = 1 - x;
                if !self.real(x) || t.conn_down(ci) <= self.ample {
                    continue;
                }
                if let Some((fr, _)) = &c.open[y]
                    && fr.read < self.ample
                    && c.open[x].is_none()
                {
                    self.fail("C13", down, format!("side {x} never answered the open"));
                }
            }
            for x in 0..2 {
                let y = 1 - x;
                if self.real(x)
                    && let Some((fr, _)) = &c.close[y]
                    && c.close[x].is_none()
                    && fr.read < self.ample
                    && c.cut.iter().flatten().all(|s| *s >= self.ample)
                {
                    self.fail("C13", down, format!("side {x} never answered the close"));
                }
            }
        }
        for si in 0..t.sess.len() {
            let s = &t.sess[si];
            for x in 0..2 {
                let y = 1 - x;
                if !self.real(x) || t.conn_down(s.conn) <= self.ample {
                    continue;
                }
                if let (Some((fr, _)), None) = (&s.begin[y], &s.begin[x])
                    && fr.read < self.ample
                    && s.end[y].is_none()
                    && !self.s.flag("channel-max")
                {
                    self.fail("C13", fr.seq, format!("side {x} never answered this begin"));
                }
                if let (Some((fr, _)), None, true) = (&s.end[y], &s.end[x], s.begin[x].is_some())
                    && fr.read < self.ample
                {
                    self.fail("C13", fr.seq, format!("side {x} never answered this end"));
                }
            }
        }
        for li in 0..t.links.len() {
            let l = &t.links[li];
            for x in 0..2 {
                let y = 1 - x;
                if !self.real(x) || t.sess_down(l.sess) <= self.ample {
                    continue;
                }
                if let (Some((fr, _)), None, None) = (&l.attach[y], &l.attach[x], &l.detach[y])
                    && fr.read < self.ample
                {
                    self.fail("C13", fr.seq, format!("side {x} never answered this attach of {:?}", l.name));
                }
                if let (Some((fr, _)), None, true) = (&l.detach[y], &l.detach[x], l.attach[x].is_some())
                    && fr.read < self.ample
                {
                    self.fail("C13", fr.seq, format!("side {x} never answered this detach of {:?}", l.name));
                }
            }
        }
    }

    // ---- C16 -----------------------------------------------------------
    fn c16(&mut self) {
        let t = self.t;
        for (c, x, seq, size) in &t.sizes {
            if !self.real(*x) {
                continue;
            }
            if let Some((fr, p)) = &t.conns[*c].open[1 - x]
                && fr.read < *seq
                && let Some(m) = p.u32(2)
            {
                let m = m.max(512) as usize;
                if *size > m {
                    self.fail(
                        "C16",
                        *seq,
                        format!("side {x} writes a frame of {size} bytes, the peer announced a maximum of {m}"),
                    );
                }
            }
        }
    }

    // ---- C03 -----------------------------------------------------------
    /// (limits that may be in force for the sender `x` of the link at `seq`)
    pub fn limits(&self, li: usize, seq: usize) -> Vec<u32> {
        let t = self.t;
        let l = &t.links[li];
        let x = l.sender;
        let s = &t.sess[l.sess];
        let init = l.attach[x].as_ref().and_then(|a| a.1.u32(9)).unwrap_or(0);
        let mut v: Vec<u32> = vec![];
        for f in &s.flows {
            if f.from == x || f.link != Some(li) || f.fr.read >= seq {
                continue;
            }
            let Some(c) = f.p.u32(6) else { continue };
            let lim = f.p.u32(5).unwrap_or(init).wrapping_add(c);
            if t.processed(s.conn, x, &f.fr, seq) {
                v.clear();
            }
            v.push(lim);
        }
        v
    }

    fn c03(&mut self) {
        let t = self.t;
        for li in 0..t.links.len() {
            let l = &t.links[li];
            let x = l.sender;
            if !self.real(x) {
                continue;
            }
            let init = l.attach[x].as_ref().and_then(|a| a.1.u32(9)).unwrap_or(0);
            for (i, d) in l.dels.iter().enumerate() {
                let seq = d.frames[0].seq;
                let lim = self.limits(li, seq);
                let dc = init.wrapping_add(i as u32);
                if !lim.iter().any(|x| (1..1 << 31).contains(&x.wrapping_sub(dc))) {
                    self.fail(
                        "C03",
                        seq,
                        format!(
                            "side {x} starts delivery {} on {} with delivery-count {dc} although the credit reaches only to {lim:?}",
                            d.id,
                            self.link_str(li)
                        ),
                    );
                    break;
                }
            }
        }
        // what a sending link says about itself
        for s in &t.sess {
            for f in &s.flows {
                let (x, seq) = (f.from, f.fr.seq);
                let Some(li) = f.link else { continue };
                let l = &t.links[li];
                if !self.real(x) || l.sender != x || t.link_down(li) < seq {
                    continue;
                }
                let init = l.attach[x].as_ref().and_then(|a| a.1.u32(9)).unwrap_or(0);
                let sent = l.dels.iter().filter(|d| d.frames[0].seq < seq).count() as u32;
                let dc = init.wrapping_add(sent);
                let lim = self.limits(li, seq);
                let left = |x: u32| Some(x.wrapping_sub(dc)).filter(|d| *d < 1 << 31).unwrap_or(0);
                let what = if f.p.u32(5) != Some(dc) {
                    format!("delivery-count {:?}", f.p.u32(5))
                } else if !(lim.is_empty() && f.p.u32(6) == Some(0)
                    || lim.iter().any(|x| f.p.u32(6) == Some(left(*x))))
                {
                    format!("link-credit {:?}", f.p.u32(6))
                } else {
                    continue;
                };
                self.fail(
                    "C03,C05",
                    seq,
                    format!(
                        "side {x} states {what} in a flow for {}: {sent} deliveries have been started from {init}, the credit reaches to {lim:?}",
                        self.link_str(li)
                    ),
                );
            }
        }
        // what the application reads
        for e in t.evs {
            let EvK::App { side, e: AppEv::Credit { lid, n }, .. } = &e.k else { continue };
            let Some(li) = self.link_of_lid(*lid) else { continue };
            if t.link_down(li) < e.seq {
                continue;
            }
            let l = &t.links[li];
            let x = l.sender;
            if x != *side {
                continue;
            }
            let init = l.attach[x].as_ref().and_then(|a| a.1.u32(9)).unwrap_or(0);
            let sent = l.dels.iter().filter(|d| d.frames[0].seq < e.seq).count() as u32;
            let dc = init.wrapping_add(sent);
            let lim = self.limits(li, e.seq);
            let exp: Vec<u32> = if lim.is_empty() {
                vec![0]
            } else {
                lim.iter()
                    .map(|l| {
                        let d = l.wrapping_sub(dc);
                        if d < 1 << 31 { d } else { 0 }
                    })
                    .collect()
            };
            let pending = t
                .ops
                .iter()
                .filter(|o| {
                    matches!(o.c, Call::Send { lid: b, .. } if b == *lid)
                        && o.call < e.seq
                        && o.ret.as_ref().is_none_or(|r| r.0 > e.seq)
                })
                .count() as u32;
            if !exp.iter().any(|x| *n <= *x && *n >= x.saturating_sub(pending)) {
                self.fail(
                    "C03",
                    e.seq,
                    format!(
                        "credit() of {} reads {n}; the allowance is {exp:?} ({pending} sends in progress)",
                        self.link_str(li)
                    ),
                );
            }
        }
    }

    // ---- C04 -----------------------------------------------------------
    pub fn windows(&self, si: usize, x: usize, seq: usize) -> Vec<(u32, u32)> {
        let t = self.t;
        let s = &t.sess[si];
        let y = 1 - x;
        let init = s.begin[x].as_ref().map_or(0, |b| b.1.u32(1).unwrap_or(0));
        let mut v = vec![];
        if let Some((fr, p)) = &s.begin[y]
            && fr.read < seq
        {
            v.push((init, p.u32(2).unwrap_or(0)));
        }
        for f in &s.flows {
            if f.from == x || f.fr.read >= seq {
                continue;
            }
            if t.processed(s.conn, x, &f.fr, seq) {
                v.clear();
            }
            v.push((f.p.u32(0).unwrap_or(init), f.p.u32(1).unwrap_or(0)));
        }
        v
    }

    fn c04(&mut self) {
        let t = self.t;
        for si in 0..t.sess.len() {
            let s = &t.sess[si];
            for x in 0..2 {
                if !self.real(x) {
                    continue;
                }
                let Some((_, b)) = &s.begin[x] else { continue };
                let init = b.u32(1).unwrap_or(0);
                for (n, fr) in s.transfers[x].iter().enumerate() {
                    let id = init.wrapping_add(n as u32);
                    let w = self.windows(si, x, fr.seq);
                    if !w.iter().any(|(nid, win)| id.wrapping_sub(*nid) < *win) {
                        self.fail(
                            "C04",
                            fr.seq,
                            format!(
                                "side {x} writes transfer frame {id} on the session although the window is {w:?} (next-incoming-id, incoming-window)"
                            ),
                        );
                        break;
                    }
                }
                for f in &s.flows {
                    if f.from == x {
                        let want = init.wrapping_add(f.tx_before as u32);
                        if f.p.u32(2) != Some(want) {
                            self.fail(
                                "C04",
                                f.fr.seq,
                                format!(
                                    "side {x} announces next-outgoing-id {:?} after {} transfer frames starting from {init}",
                                    f.p.u32(2),
                                    f.tx_before
                                ),
                            );
                            break;
                        }
                    }
                }
            }
        }
    }

    // ---- C01 -----------------------------------------------------------
    fn match_send(&self, o: &OpRec, d: &TDel) -> Result<(), String> {
        let Call::Send { settled, tag, format, body, m, .. } = &o.c else { return Err("?".into()) };
        if d.settled != *settled {
            return Err(format!("message {m} was sent with settled={settled}, the wire says {}", d.settled));
        }
        if let Some(t) = tag
            && *t != d.tag
        {
            return Err(format!("message {m} was sent with tag {}, the wire has {}", hexs(t), hexs(&d.tag)));
        }
        if format.unwrap_or(0) != d.format.unwrap_or(0) || (format.is_some() && d.format.is_none()) {
            return Err(format!("message {m} was sent with format {format:?}, the wire has {:?}", d.format));
        }
        let whole = d.complete && !d.aborted;
        if !body_matches(body, &d.payload, whole) {
            return Err(format!(
                "the payload of message {m} on the wire ({} bytes, {}) is not what was sent",
                d.payload.len(),
                hexs(&d.payload)
            ));
        }
        Ok(())
    }

    fn c01_send(&mut self) {
        let t = self.t;
        for li in 0..t.links.len() {
            let l = &t.links[li];
            let x = l.sender;
            if !self.real(x) {
                continue;
            }
            let lids: Vec<usize> =
                t.lapi.values().filter(|a| a.link == Some(li) && a.side == x).map(|a| a.lid).collect();
            let sends: Vec<&OpRec> = t
                .ops
                .iter()
                .filter(|o| matches!(&o.c, Call::Send { lid, .. } if lids.contains(lid)))
                .collect();
            let sent_id = |o: &OpRec| match &o.ret {
                Some((_, _, Ret::Sent { id, tag })) => Some((*id, tag.clone())),
                _ => None,
            };
            let mut i = 0;
            let mut ok = true;
            for d in &l.dels {
                let seq = d.frames[0].seq;
                let known = (i..sends.len()).find(|j| sent_id(sends[*j]).is_some_and(|s| s.0 == d.id));
                let j = match known {
                    Some(j) => {
                        if let Some(k) = (i..j).find(|k| sent_id(sends[*k]).is_some()) {
                            let b = format!("{:?}", sends[k].c);
                            self.fail(
                                "C01",
                                seq,
                                format!(
                                    "delivery {} on {} overtakes an earlier successful send ({:.120})",
                                    d.id,
                                    self.link_str(li),
                                    b
                                ),
                            );
                            ok = false;
                            break;
                        }
                        if let Err(e) = self.match_send(sends[j], d) {
                            let msg = e.contains("payload of message") && self.s.flag("values");
                            let tag = if msg { "C01,C19" } else { "C01" };
                            self.fail(tag, seq, format!("delivery {} on {}: {e}", d.id, self.link_str(li)));
                            ok = false;
                            break;
                        }
                        if sent_id(sends[j]).unwrap().1 != d.tag {
                            self.fail("C01", seq, format!("delivery {}: the tag returned by send differs", d.id));
                        }
                        Some(j)
                    }
                    None => (i..sends.len()).find(|j| {
                        sent_id(sends[*j]).is_none()
                            && sends[*j].call < seq
                            && self.match_send(sends[*j], d).is_ok()
                    }),
                };
                match j {
                    None => {
                        self.fail(
                            "C01",
                            seq,
                            format!(
                                "delivery {} ({} bytes) on {} corresponds to no send, or is a duplicate or out of order",
                                d.id,
                                d.payload.len(),
                                self.link_str(li)
                            ),
                        );
                        ok = false;
                        break;
                    }
                    Some(j) => {
                        if let Some(k) = (i..j).find(|k| sent_id(sends[*k]).is_some()) {
                            self.fail(
                                "C01",
                                seq,
                                format!("delivery {} on {} overtakes an earlier successful send", d.id, self.link_str(li)),
                            );
                            let _ = k;
                            ok = false;
                            break;
                        }
                        i = j + 1;
                    }
                }
            }
            if !ok {
                continue;
            }
            let down = t.conn_down(l.conn);
            for o in &sends[i..] {
                if sent_id(o).is_some() {
                    let r = o.ret.as_ref().unwrap().0;
                    if t.mark_after(l.conn, x, r).is_some_and(|m| m < down) {
                        let gone = t.link_down(li) < r;
                        self.fail(
                            if gone { "C06" } else { "C01" },
                            r,
                            format!(
                                "send of message {:?} on {} reported success but the message was never written{}",
                                if let Call::Send { m, .. } = o.c { m } else { 0 },
                                self.link_str(li),
                                if gone { " (the link was gone)" } else { "" }
                            ),
                        );
                        break;
                    }
                }
            }
            // started but never finished although nothing went down
            if let Some(d) = l.dels.last()
                && !d.complete
                && t.link_down(li) > self.quiet
                && d.frames[0].seq < t.heal
                && !self.blocked_window(l.sess, x, self.quiet)
                && t.mark_after(l.conn, x, d.frames.last().unwrap().seq).is_some_and(|m| m < self.quiet)
            {
                self.fail("C05", d.frames[0].seq, format!("delivery {} on {} was never completed", d.id, self.link_str(li)));
            }
        }
    }

    /// no window left for `x`
    pub fn blocked_window(&self, si: usize, x: usize, seq: usize) -> bool {
        let s = &self.t.sess[si];
        let init = s.begin[x].as_ref().map_or(0, |b| b.1.u32(1).unwrap_or(0));
        let n = s.transfers[x].iter().filter(|f| f.seq < seq).count() as u32;
        let id = init.wrapping_add(n);
        !self.windows(si, x, seq).iter().all(|(nid, w)| id.wrapping_sub(*nid) < *w)
    }

    fn c01_recv(&mut self) {
        let t = self.t;
        let mut got: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for e in t.evs {
            match &e.k {
                EvK::App { e: AppEv::Deliver { lid, .. }, .. } => {
                    got.entry(*lid).or_default().push(e.seq);
                }
                EvK::App { side, e: AppEv::Handler { lnk, kind: "call", .. }, .. } => {
                    if let Some(li) = t.lnks.get(lnk)
                        && let Some(lid) = self.lid_of.get(&(*li, *side))
                    {
                        got.entry(*lid).or_default().push(e.seq);
                    }
                }
                _ => {}
            }
        }
        for a in t.lapi.values() {
            if a.sender || !self.real(a.side) {
                continue;
            }
            let Some(li) = a.link else { continue };
            let l = &t.links[li];
            let y = a.side;
            let empty = vec![];
            let g = got.get(&a.lid).unwrap_or(&empty);
            let good: Vec<&TDel> = l.dels.iter().filter(|d| d.complete && !d.aborted).collect();
            let mut bad = false;
            for (i, seq) in g.iter().enumerate() {
                let EvK::App {
                    e: AppEv::Deliver { id, tag, settled, format, body, .. } | AppEv::Handler { id, tag, settled, format, body, .. },
                    ..
                } = &t.evs[*seq].k
                else {
                    continue;
                };
                let Some(d) = good.get(i) else {
                    self.fail(
                        "C01",
                        *seq,
                        format!("{} is handed delivery {id} which was not sent (or not completed)", self.link_str(li)),
                    );
                    bad = true;
                    break;
                };
                let what = if d.frames.last().unwrap().read >= *seq {
                    "before it has arrived completely"
                } else if d.payload != *body {
                    "with a different payload"
                } else if d.id != *id {
                    "with a different delivery number"
                } else if d.tag != *tag {
                    "with a different tag"
                } else if d.settled != *settled {
                    "with a different settled flag"
                } else if d.format != *format {
                    "with a different message format"
                } else {
                    continue;
                };
                self.fail(
                    "C01",
                    *seq,
                    format!(
                        "{} hands over delivery number {i} (id {id}, {} bytes, {}) {what}: expected id {} with {} bytes {}",
                        self.link_str(li),
                        body.len(),
                        hexs(body),
                        d.id,
                        d.payload.len(),
                        hexs(&d.payload)
                    ),
                );
                bad = true;
                break;
            }
            if bad || t.link_down(li) <= self.quiet {
                continue;
            }
            let due = good.iter().filter(|d| d.frames.last().unwrap().read < self.ample).count();
            // taking them takes its time; what is taken when all is over comes too late
            let pace = self.s.eps[y].rcv.take_delay.1.max(self.s.eps[y].pub_delay.1);
            let time = t.time(self.quiet);
            let over = g.partition_point(|q| *q < self.quiet);
            let late = (over..due).any(|i| t.time(good[i].frames.last().unwrap().read) + 3 * S + due as u64 * pace < time);
            if late && !self.s.flag("no-consume") {
                let d = good[over];
                self.fail(
                    "C01",
                    d.frames.last().unwrap().read,
                    format!("delivery {} on {} was never handed to the application of side {y}", d.id, self.link_str(li)),
                );
            }
        }
    }

    // ---- C02 -----------------------------------------------------------
    fn c02(&mut self) {
        let t = self.t;
        let locally: HashSet<u64> = self
            .s
            .ops
            .iter()
            .filter_map(|o| match &o.k {
                OpK::Send { spec, .. } if spec.after == After::Settle || spec.settled => Some(spec.m),
                _ => None,
            })
            .collect();
        for o in &t.ops {
            let Call::Wait { m } = o.c else { continue };
            let Some(so) = self.sends.get(&m).map(|i| &t.ops[*i]) else { continue };
            let (Call::Send { lid, .. }, Some((_, _, Ret::Sent { id, .. }))) = (&so.c, &so.ret) else {
                continue;
            };
            let Some(li) = self.link_of_lid(*lid) else { continue };
            let l = &t.links[li];
            let s = &t.sess[l.sess];
            let x = o.side;
            let said: Vec<_> = s
                .disps
                .iter()
                .filter(|d| d.from != x && d.receiver && d.covers(*id))
                .collect();
            let down = t.link_down(li);
            let (rseq, _, r) = match &o.ret {
                Some(r) => (r.0, r.1, &r.2),
                None => (NEVER, 0, &Ret::None),
            };
            if rseq != NEVER {
                match r {
                    Ret::Outcome(Some(v)) => {
                        if !said.iter().any(|d| d.fr.read < rseq && same_state(&d.state, v)) {
                            self.fail(
                                "C02",
                                rseq,
                                format!(
                                    "waiting for delivery {id} (message {m}) on {} reports {v:?}; the receiver has said {:?}",
                                    self.link_str(li),
                                    said.iter().filter(|d| d.fr.read < rseq).map(|d| &d.state).collect::<Vec<_>>()
                                ),
                            );
                        } else if !terminal(v)
                            && said
                                .iter()
                                .any(|d| terminal(&d.state) && t.processed(s.conn, x, &d.fr, o.call))
                        {
                            self.fail(
                                "C02",
                                rseq,
                                format!("waiting for delivery {id} reports {v:?} although a final outcome had been received"),
                            );
                        } else if !terminal(v) {
                            // an update is news once
                            let told = said
                                .iter()
                                .filter(|d| d.fr.read < rseq && matches!(&d.state, s if !matches!(s, V::Null) && !terminal(s)))
                                .count();
                            let reported = t
                                .ops
                                .iter()
                                .filter(|p| matches!(p.c, Call::Wait { m: pm } if pm == m))
                                .filter(|p| matches!(&p.ret, Some((s, _, Ret::Outcome(Some(w)))) if *s <= rseq && !terminal(w)))
                                .count();
                            if reported > told {
                                self.fail(
                                    "C02",
                                    rseq,
                                    format!("waiting for delivery {id} reports an update {reported} times, the receiver has sent {told}"),
                                );
                            }
                        }
                    }
                    Ret::Outcome(None) => {
                        let null = said.iter().any(|d| d.fr.read < rseq && d.settled && !terminal(&d.state));
                        let used = said.iter().any(|d| d.fr.read < rseq && d.settled);
                        // settled, with the outcome told then or before
                        let known = said.iter().filter(|d| d.fr.read < rseq && d.settled).all(|d| {
                            said.iter().any(|e| e.fr.seq <= d.fr.seq && terminal(&e.state))
                        });
                        // an earlier wait may have taken the state already
                        let earlier = t.ops.iter().any(|p| {
                            matches!(p.c, Call::Wait { m: pm } if pm == m)
                                && p.call < o.call
                                && matches!(&p.ret, Some((_, _, Ret::Outcome(Some(_)))))
                        });
                        if !locally.contains(&m) && (known || !(null || (used && earlier))) {
                            self.fail(
                                "C02",
                                rseq,
                                format!(
                                    "waiting for delivery {id} (message {m}) on {} reports that there is no outcome; the receiver has said {:?}",
                                    self.link_str(li),
                                    said.iter().filter(|d| d.fr.read < rseq).map(|d| (&d.state, d.settled)).collect::<Vec<_>>()
                                ),
                            );
                        }
                    }
                    Ret::Err { kind, .. } => {
                        if down > rseq {
                            self.fail(
                                "C02,C11",
                                rseq,
                                format!("waiting for delivery {id} on {} fails with {kind} although nothing has ended", self.link_str(li)),
                            );
                        }
                    }
                    _ => {}
                }
            }
            // still waiting although the outcome is there
            for d in &said {
                if !(terminal(&d.state) || d.settled) || d.fr.read == NEVER {
                    continue;
                }
                let from = d.fr.read.max(o.call);
                if let Some(mk) = t.mark_after(s.conn, x, from)
                    && mk < rseq
                    && mk < down
                {
                    self.fail(
                        "C02",
                        mk,
                        format!(
                            "still waiting for delivery {id} (message {m}) on {} although the receiver has said {:?} settled={}",
                            self.link_str(li),
                            d.state,
                            d.settled
                        ),
                    );
                    break;
                }
            }
        }
    }

    /// what looking links and sessions up finds
    fn lookups(&mut self) {
        let t = self.t;
        let mut who: HashMap<usize, usize> = HashMap::new();
        let dets: Vec<_> = t
            .evs
            .iter()
            .filter_map(|q| match &q.k {
                EvK::App { side, e: AppEv::Ctl { kind, name: Some(n), ch, .. }, .. } if kind.starts_with("LocalDetach") => {
                    Some((q.seq, *side, n, *ch))
                }
                _ => None,
            })
            .collect();
        for e in t.evs {
            let EvK::App { side, e: a, .. } = &e.k else { continue };
            let x = *side;
            match a {
                AppEv::LinkUp { lid, lnk, .. } => {
                    who.insert(*lid, *lnk);
                }
                AppEv::Lookup { lid, by, found } if self.real(x) => {
                    let (Some(li), Some(mine), Some(a)) = (self.link_of_lid(*lid), who.get(lid), t.lapi.get(lid))
                    else {
                        continue;
                    };
                    let l = &t.links[li];
                    let y = 1 - x;
                    let asked = t
                        .ops
                        .iter()
                        .filter(|o| {
                            o.side == x
                                && matches!(o.c, Call::CloseLink { lid: b } | Call::DetachLink { lid: b } if self.link_of_lid(b) == Some(li))
                        })
                        .map(|o| o.call)
                        .min()
                        .unwrap_or(NEVER);
                    let by_itself = dets.iter().any(|(seq, side, n, ch)| {
                        *seq < asked && *side == x && **n == a.name && *ch == t.sess[l.sess].ch[x]
                    });
                    let up = !by_itself
                        && l.attach[x].as_ref().is_some_and(|q| q.0.seq < e.seq)
                        && l.attach[y].as_ref().is_some_and(|q| t.processed(l.conn, x, &q.0, e.seq))
                        && t.link_down(li) > e.seq
                        // what the endpoint ends by itself is over before it can be seen
                        && l.detach[x].as_ref().is_none_or(|d| {
                            l.detach[y].as_ref().is_some_and(|q| q.0.read < d.0.seq)
                                || t.ops.iter().any(|o| {
                                    o.side == x
                                        && o.call < d.0.seq
                                        && matches!(o.c, Call::CloseLink { lid: b } | Call::DetachLink { lid: b } if self.link_of_lid(b) == Some(li))
                                })
                        })
                        && t.conns[l.conn].close[x].as_ref().is_none_or(|d| {
                            t.conns[l.conn].close[y].as_ref().is_some_and(|q| q.0.read < d.0.seq)
                                || t.ops.iter().any(|o| o.side == x && o.call < d.0.seq && o.conn == t.conns[l.conn].id && matches!(o.c, Call::CloseConn))
                        });
                    let twins = t.lapi.values().any(|b| {
                        b.lid != a.lid && b.side == x && b.sid == a.sid && b.sender == a.sender && b.name == a.name && b.link != a.link
                    });
                    let what = match found {
                        None if up && (*by != "name" || !twins) => "nothing".to_string(),
                        Some((k, ..)) if up && k != mine && (*by != "name" || !twins) => "another link".into(),
                        Some((k, h, rh)) => {
                            let Some(o) = t.lnks.get(k).map(|o| &t.links[*o]) else { continue };
                            let its = |b: &crate::tracker::LinkApi| b.name == a.name && b.link.is_some_and(|b| std::ptr::eq(&t.links[b], o));
                            if *by == "name" && !t.lapi.values().any(its) || *by == "local handle" && l.h[x].is_some_and(|q| q != *h)
                                || *by == "remote handle" && l.h[y].is_some_and(|q| q != *rh)
                                || o.sess != l.sess
                            {
                                "another link".into()
                            } else if o.detach[x].as_ref().is_some_and(|q| q.0.seq < e.seq)
                                || o.detach[y].as_ref().is_some_and(|q| t.processed(o.conn, x, &q.0, e.seq))
                                || t.sess[o.sess].end[y].as_ref().is_some_and(|q| t.processed(o.conn, x, &q.0, e.seq))
                            {
                                "a link that has ended".into()
                            } else {
                                continue;
                            }
                        }
                        None => continue,
                    };
                    self.fail(
                        "C11",
                        e.seq,
                        format!("looking {} up by its {by} on side {x} finds {what}", self.link_str(li)),
                    );
                }
                // a channel stays taken until the peer has answered
                AppEv::EndSays { sid, found: true } if self.real(x) => {
                    let Some(si) = t.sapi.get(sid).and_then(|a| a.sess) else { continue };
                    if t.sess[si].end[1 - x].as_ref().is_none_or(|f| f.0.read > e.seq) {
                        self.fail("C11", e.seq, format!("the session on channel {:?} is handed out on side {x} after its end", t.sess[si].ch[x]));
                    }
                }
                AppEv::SessSays { sid, window, ch, rch, found } if self.real(x) => {
                    let Some(si) = t.sapi.get(sid).and_then(|a| a.sess) else { continue };
                    let s = &t.sess[si];
                    let y = 1 - x;
                    let (Some(bx), Some(by)) = (&s.begin[x], &s.begin[y]) else { continue };
                    if bx.0.seq > e.seq || by.0.read > e.seq || t.sess_down(si) < e.seq {
                        continue;
                    }
                    if s.ch[x] != Some(*ch) || s.ch[y] != Some(*rch) {
                        self.fail("C11", e.seq, format!("a session on the channels {:?} calls them {ch} and {rch}", s.ch));
                    }
                    if *found != Some((*ch, *rch)) {
                        self.fail("C11", e.seq, format!("looking the session on channel {ch} up on side {x} finds {found:?}"));
                    }
                    let init = bx.1.u32(1).unwrap_or(0);
                    let next = |n: usize| init.wrapping_add(n as u32);
                    let before = next(s.transfers[x].iter().filter(|f| f.seq < e.seq).count());
                    // frames that are written later, unless they can get lost on the way
                    let kept = t.sess_down(si) > self.quiet;
                    let w = self.windows(si, x, e.seq);
                    let left = |at: u32, n: u32, w: u32| w.saturating_sub(at.wrapping_sub(n));
                    if !w.iter().any(|(n, w)| {
                        let low = if kept { left(next(s.transfers[x].len()), *n, *w) } else { 0 };
                        (low..=left(before, *n, *w)).contains(window)
                    }) {
                        self.fail(
                            "C04",
                            e.seq,
                            format!("the session says there is room for {window} transfers; next is {before}, the window {w:?}"),
                        );
                    }
                }
                _ => {}
            }
        }
    }

    /// whether a receiver says that a delivery waits
    fn queues(&mut self) {
        for e in self.t.evs {
            let EvK::App { side, e: AppEv::Queue { lid, has, got }, .. } = &e.k else { continue };
            if has != got && self.real(*side)
                && let Some(li) = self.link_of_lid(*lid)
            {
                let m = format!(
                    "{} says that {} delivery is waiting, taking one gives {}",
                    self.link_str(li),
                    if *has { "a" } else { "no" },
                    if *got { "one" } else { "none" }
                );
                self.fail("C01", e.seq, m);
            }
        }
    }

    /// what a delivery says without being waited for
    fn peeks(&mut self) {
        let t = self.t;
        let mut handed: HashMap<(usize, u32), usize> = HashMap::new();
        for e in t.evs {
            let EvK::App { side, e: a, .. } = &e.k else { continue };
            if !self.real(*side) {
                continue;
            }
            let (lid, id, sender, settled, state) = match a {
                AppEv::Deliver { lid, id, .. } => {
                    handed.insert((*lid, *id), e.seq);
                    continue;
                }
                AppEv::Peek { lid, id, sender, settled, state } => (*lid, *id, *sender, *settled, state),
                _ => continue,
            };
            let Some(li) = self.link_of_lid(lid) else { continue };
            let (l, x) = (&t.links[li], *side);
            let s = &t.sess[l.sess];
            let p = if sender { "C02" } else { "C12" };
            let since = if sender { 0 } else { handed.get(&(lid, id)).copied().unwrap_or(NEVER) };
            let said: Vec<_> = s
                .disps
                .iter()
                .filter(|d| d.from != x && d.receiver == sender && d.covers(id) && d.fr.read < e.seq)
                .collect();
            let alive = t.link_down(li) > e.seq;
            let sure: Vec<_> = said
                .iter()
                .filter(|d| alive && d.fr.read > since && t.processed(s.conn, x, &d.fr, e.seq))
                .collect();
            let what = if settled && !said.iter().any(|d| d.settled) {
                "says that the other side has settled it"
            } else if !settled && sure.iter().any(|d| d.settled) {
                "says that the other side has not settled it"
            } else if state.as_ref().is_some_and(|v| !said.iter().any(|d| same_state(&d.state, v))) {
                "reports a state the other side has not told"
            } else if let Some(d) = sure.iter().rev().find(|d| terminal(&d.state))
                && !said.iter().any(|q| q.fr.seq > d.fr.seq && !terminal(&q.state))
                && !state.as_ref().is_some_and(terminal)
            {
                "does not report the final outcome it was told"
            } else {
                continue;
            };
            self.fail(
                p,
                e.seq,
                format!(
                    "delivery {id} on {} {what}: state {state:?} settled={settled}; the other side has said {:?}",
                    self.link_str(li),
                    said.iter().map(|d| (&d.state, d.settled)).collect::<Vec<_>>()
                ),
            );
        }
    }

    // ---- C12 -----------------------------------------------------------
    fn c12(&mut self) {
        let t = self.t;
        // decisions
        #[derive(Default)]
        struct Dec {
            handed: usize,
            settled: bool,
            steps: Vec<(usize, V, bool)>,
        }
        let mut dec: HashMap<(usize, u32), Dec> = HashMap::new();
        for e in t.evs {
            let EvK::App { side, e: a, .. } = &e.k else { continue };
            if !self.real(*side) {
                continue;
            }
            match a {
                AppEv::Deliver { lid, id, settled, .. } => {
                    if let Some(li) = self.link_of_lid(*lid) {
                        let d = dec.entry((li, *id)).or_default();
                        d.handed = e.seq;
                        d.settled = *settled;
                    }
                }
                AppEv::Update { lid, id, state } => {
                    if let Some(li) = self.link_of_lid(*lid) {
                        dec.entry((li, *id)).or_default().steps.push((e.seq, state.clone(), false));
                    }
                }
                AppEv::Settle { lid, id, state } => {
                    if let Some(li) = self.link_of_lid(*lid) {
                        dec.entry((li, *id)).or_default().steps.push((e.seq, state.clone(), true));
                    }
                }
                AppEv::Handler { lnk, kind, id, settled, detail, .. } => {
                    let Some(li) = t.lnks.get(lnk) else { continue };
                    match *kind {
                        "call" => {
                            let d = dec.entry((*li, *id)).or_default();
                            d.handed = e.seq;
                            d.settled = *settled;
                        }
                        "done" => {
                            let st = match detail.as_str() {
                                "accept" => V::desc(wire::ACCEPTED, V::List(vec![])),
                                "reject" => V::desc(wire::REJECTED, V::List(vec![])),
                                c => V::desc(
                                    wire::REJECTED,
                                    V::List(vec![V::desc(
                                        wire::ERROR,
                                        V::List(if c.starts_with("out") {
                                            vec![V::sym(c), V::str(&format!("d-{c}"))]
                                        } else {
                                            vec![V::sym(c)]
                                        }),
                                    )]),
                                ),
                            };
                            dec.entry((*li, *id)).or_default().steps.push((e.seq, st, true));
                        }
                        _ => {}
                    }
                }
                AppEv::DropDelivery { lid, id } => {
                    if let Some(li) = self.link_of_lid(*lid) {
                        let v = V::desc(wire::REJECTED, V::List(vec![]));
                        dec.entry((li, *id)).or_default().steps.push((e.seq, v, true));
                    }
                }
                _ => {}
            }
        }
        for li in 0..t.links.len() {
            let l = &t.links[li];
            let y = 1 - l.sender;
            if !self.real(y) || self.s.flag("no-c12") {
                continue;
            }
            let s = &t.sess[l.sess];
            let down = t.link_down(li);
            for d in &l.dels {
                let said: Vec<_> =
                    s.disps.iter().filter(|q| q.from == y && q.receiver && q.covers(d.id)).collect();
                let none = Dec::default();
                let k = dec.get(&(li, d.id)).unwrap_or(&none);
                if d.settled {
                    if let Some(q) = said.first() {
                        self.fail(
                            "C12",
                            q.fr.seq,
                            format!("side {y} writes a disposition for delivery {} which arrived settled", d.id),
                        );
                    }
                    continue;
                }
                let mut fin = false;
                let mut i = 0;
                for q in &said {
                    if q.fr.seq > down && k.steps.is_empty() {
                        // what becomes of undecided deliveries of a link that is gone is open
                        break;
                    }
                    if fin {
                        self.fail(
                            "C12",
                            q.fr.seq,
                            format!("side {y} says something about delivery {} again after its final outcome", d.id),
                        );
                        break;
                    }
                    let Some((ds, st, f)) = k.steps.get(i) else {
                        self.fail(
                            "C12",
                            q.fr.seq,
                            format!(
                                "side {y} tells {:?} (settled={}) about delivery {} which the application has not decided",
                                q.state, q.settled, d.id
                            ),
                        );
                        break;
                    };
                    let drop = matches!(&t.evs[*ds].k, EvK::App { e: AppEv::DropDelivery { .. }, .. });
                    let same = if drop {
                        q.state.code() == Some(wire::REJECTED)
                    } else {
                        same_state(st, &q.state)
                    };
                    if *ds > q.fr.seq || !same || *f != q.settled {
                        self.fail(
                            "C12",
                            q.fr.seq,
                            format!(
                                "side {y} tells {:?} (settled={}) about delivery {} of {}; the application's decision is {st:?} (final={f})",
                                q.state,
                                q.settled,
                                d.id,
                                self.link_str(li)
                            ),
                        );
                        break;
                    }
                    fin |= *f;
                    i += 1;
                }
                // missing?
                for (ds, st, f) in k.steps.iter().skip(i) {
                    // nothing to tell once the sender has settled it
                    let moot = s.disps.iter().any(|q| {
                        q.from == l.sender && !q.receiver && q.settled && q.covers(d.id) && q.fr.read <= *ds
                    });
                    if let Some(mk) = t.mark_after(l.conn, y, *ds)
                        && mk < down
                        && !moot
                    {
                        self.fail(
                            "C12",
                            *ds,
                            format!(
                                "the application's decision {st:?} (final={f}) about delivery {} of {} was not told to the sender",
                                d.id,
                                self.link_str(li)
                            ),
                        );
                        break;
                    }
                }
            }
        }
    }

}

pub fn probes(h: &[Ev], c: &mut BTreeMap<String, u64>) {
    let mut add = |k: &str, n: u64| *c.entry(k.to_string()).or_insert(0) += n;
    // sends in progress: (call, seen idle)
    let mut sends: BTreeMap<usize, (usize, bool)> = BTreeMap::new();
    let mut handles: BTreeMap<(usize, usize), Vec<(u16, u32)>> = BTreeMap::new();
    let mut pending = 0u64;
    for e in h {
        match &e.k {
            EvK::Wire { conn, from, item, .. } => {
                if let wire::Item::Frame(f) = &**item
                    && let Some(p) = &f.perf
                {
                    add(&format!("frame:{}", wire::name_of(p.code).split(':').nth(1).unwrap_or("?")), 1);
                    if p.code == wire::TRANSFER {
                        let k = handles.entry((*conn, *from)).or_default();
                        let h = (f.channel, p.u32(0).unwrap_or(0));
                        if !k.contains(&h) {
                            k.push(h);
                            if k.len() == 2 {
                                add("probe:two_links_transfer", 1);
                            }
                        }
                        if p.bool(5) {
                            add("probe:transfer_more", 1);
                        }
                    }
                    if p.code == wire::FLOW && p.u32(3).is_some() && p.u32(1) == Some(0) {
                        add("probe:window_closed", 1);
                    }
                }
            }
            EvK::Settled { side, .. } => {
                for s in sends.values_mut().filter(|s| s.0 == *side) {
                    s.1 = true;
                }
            }
            EvK::App { e: AppEv::Seen { .. }, .. } => add("values:seen", 1),
            EvK::App { e: AppEv::SeenErr { .. }, .. } => add("values:seen_error", 1),
            EvK::App { e: AppEv::Terms { .. }, .. } => add("values:terms", 1),
            EvK::App { e: AppEv::Decoded { .. }, .. } => add("values:decoded", 1),
            EvK::Call { op, side, c, .. } => {
                pending += 1;
                if matches!(c, Call::Send { .. }) {
                    sends.insert(*op, (*side, false));
                }
            }
            EvK::Ret { op, r, .. } => {
                pending = pending.saturating_sub(1);
                if sends.remove(op).is_some_and(|s| s.1) {
                    add("probe:blocked_send", 1);
                }
                match r {
                    Ret::Sent { .. } => add("ret:sent", 1),
                    Ret::Outcome(_) => add("ret:outcome", 1),
                    Ret::Err { .. } => add("ret:err", 1),
                    _ => {}
                }
            }
            EvK::Cut { .. } if pending > 0 => add("probe:cut_with_pending", 1),
            EvK::App { e: AppEv::Deliver { .. }, .. } => add("app:deliver", 1),
            EvK::App { e: AppEv::Handler { kind, .. }, .. } => add(&format!("handler:{kind}"), 1),
            EvK::App { e: AppEv::Ctl { kind, .. }, .. } => add(&format!("ctl:{kind}"), 1),
            _ => {}
        }
    }
}

#[allow(dead_code)]
pub fn _unused(_: &Fr) {}
