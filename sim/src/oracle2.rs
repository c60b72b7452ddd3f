//! Checks over the recorded history: receiver limits, progress, teardown, isolation, control service.
use std::collections::BTreeMap;

use crate::hist::{AppEv, Body, Call, EvK, Ret};
use crate::oracle::{Ck, S};
use crate::tracker::{Fr, NEVER, OpRec, TDel};
use crate::wire::{Perf, V};

const TLE: &str = "amqp:link:transfer-limit-exceeded";
const MSE: &str = "amqp:link:message-size-exceeded";

/// condition of an error field
pub fn cond(v: &V) -> Option<String> {
    if let V::Desc(_, l) = v
        && let V::List(l) = &**l
    {
        return l.first().and_then(V::as_str).map(ToString::to_string);
    }
    None
}
pub fn detach_cond(d: &Option<(Fr, Perf)>) -> Option<String> {
    d.as_ref().and_then(|d| cond(d.1.get(2)))
}

impl Ck<'_> {
    /// a sender keeps to the maximum message size the receiver has announced, and only to that
    fn sizes_sent(&mut self) {
        let t = self.t;
        let limit = |li: usize| {
            let l = &t.links[li];
            l.attach[1 - l.sender].as_ref().map(|a| a.1.u64(10).unwrap_or(0))
        };
        for li in 0..t.links.len() {
            let l = &t.links[li];
            let Some(max) = limit(li).filter(|m| *m > 0) else { continue };
            if !self.real(l.sender) {
                continue;
            }
            if let Some(d) = l.dels.iter().find(|d| d.payload.len() as u64 > max) {
                self.fail(
                    "C07",
                    d.frames[0].seq,
                    format!(
                        "delivery {} on {} has {} bytes, the receiver has announced a maximum of {max}",
                        d.id,
                        self.link_str(li),
                        d.payload.len()
                    ),
                );
            }
        }
        for o in &t.ops {
            let (Call::Send { lid, m, body, .. }, Some((s, _, Ret::Err { kind, .. }))) = (&o.c, &o.ret) else { continue };
            if kind != "BodyTooLarge" || !self.real(o.side) {
                continue;
            }
            let Some(li) = self.link_of_lid(*lid) else { continue };
            let Some(max) = limit(li) else { continue };
            let fits = match body {
                Body::Raw(b) => max == 0 || b.len() as u64 <= max,
                Body::Msg(_) => max == 0,
            };
            if fits {
                self.fail(
                    "C07",
                    *s,
                    format!(
                        "sending message {m} on {} is refused as too large, the receiver has announced a maximum of {max}",
                        self.link_str(li)
                    ),
                );
            }
        }
    }

    // ---- C07 -----------------------------------------------------------
    pub fn c07(&mut self) {
        self.sizes_sent();
        let t = self.t;
        for li in 0..t.links.len() {
            let l = &t.links[li];
            let x = l.sender;
            let y = 1 - x;
            if !self.real(y) {
                continue;
            }
            let (Some(ax), Some(ay)) = (&l.attach[x], &l.attach[y]) else { continue };
            let init = ax.1.u32(9).unwrap_or(0);
            let max = ay.1.get(10).as_u64().unwrap_or(0);
            let flows: Vec<(usize, u64, u32)> = t.sess[l.sess]
                .flows
                .iter()
                .filter(|f| f.from == y && f.link == Some(li))
                .filter_map(|f| {
                    let dc = f.p.u32(5).unwrap_or(init).wrapping_sub(init);
                    f.p.u32(6).map(|c| (f.fr.seq, u64::from(dc) + u64::from(c), dc))
                })
                .collect();
            // the delivery-count it reports
            for (seq, _, dc) in &flows {
                let starts = l.dels.iter().filter(|d| d.frames[0].read < *seq).count() as u32;
                let done = l
                    .dels
                    .iter()
                    .filter(|d| d.complete && t.processed(l.conn, y, d.frames.last().unwrap(), *seq))
                    .count() as u32;
                if *dc > starts || *dc < done {
                    self.fail(
                        "C07",
                        *seq,
                        format!(
                            "side {y} reports delivery-count init+{dc} on {}: it has received {done}..={starts} deliveries",
                            self.link_str(li)
                        ),
                    );
                    break;
                }
            }
            let lids: Vec<usize> =
                t.lapi.values().filter(|a| a.link == Some(li) && a.side == y).map(|a| a.lid).collect();
            // upper bound of what the application has granted so far
            let mut bound: u64 = 0;
            if l.first_by != y && !self.s.eps[y].default_ctl {
                // default credit of remotely attached links
                bound = 50;
            }
            let mut handed = 0usize;
            let good: Vec<(usize, &TDel)> =
                l.dels.iter().enumerate().filter(|d| d.1.complete && !d.1.aborted).collect();
            let mut fi = 0;
            for e in t.evs {
                let EvK::App { e: a, .. } = &e.k else { continue };
                match a {
                    AppEv::Granted { lid, n } if lids.contains(lid) => {
                        let starts = l.dels.iter().filter(|d| d.frames[0].read < e.seq).count() as u64;
                        bound = bound.max(starts + u64::from(*n));
                    }
                    AppEv::Deliver { lid, .. } if lids.contains(lid) => {
                        while fi < flows.len() && flows[fi].0 < e.seq {
                            bound = bound.max(flows[fi].1);
                            fi += 1;
                        }
                        let Some((i, d)) = good.get(handed) else { break };
                        handed += 1;
                        if self.s.eps[y].router {
                            continue;
                        }
                        if *i as u64 >= bound {
                            self.fail(
                                "C07",
                                e.seq,
                                format!(
                                    "delivery number {i} on {} is handed over although at most {bound} were granted",
                                    self.link_str(li)
                                ),
                            );
                            break;
                        }
                        if max > 0 && d.payload.len() as u64 > max {
                            self.fail(
                                "C07",
                                e.seq,
                                format!(
                                    "a message of {} bytes is handed over on {} whose maximum is {max}",
                                    d.payload.len(),
                                    self.link_str(li)
                                ),
                            );
                            break;
                        }
                    }
                    _ => {}
                }
            }
            // what the application has set last is what it tells the sender
            for (i, (seq, _, _)) in flows.iter().enumerate() {
                let Some(mark) = t.mark_after(l.conn, y, *seq) else { break };
                if self.s.eps[y].router || flows.get(i + 1).is_some_and(|f| f.0 < mark) {
                    continue;
                }
                let mut sets = t.evs[..mark].iter().rev().filter_map(|e| match &e.k {
                    EvK::App { e: AppEv::Granted { lid, n }, .. } if lids.contains(lid) => Some((e.seq, *n)),
                    _ => None,
                });
                let set = sets.next();
                // what was set before has been written before; the default comes with the attach
                let before = sets.next().map_or(ay.0.seq, |b| b.0.max(ay.0.seq));
                if t.mark_after(l.conn, y, before).is_none_or(|m| set.is_some_and(|s| m > s.0)) {
                    continue;
                }
                let f = t.sess[l.sess].flows.iter().find(|f| f.fr.seq == *seq).unwrap();
                let credit = f.p.u32(6).unwrap_or(0);
                if let Some((at, n)) = set
                    && at < *seq
                    && credit > n
                {
                    self.fail("C07", *seq, format!("side {y} grants {credit} on {}, the application only {n}", self.link_str(li)));
                    break;
                }
            }
            let total_bound = flows.iter().map(|f| f.1).max().unwrap_or(0).max(bound);
            // refusals must be deserved
            let det = &l.detach[y];
            if let Some((fr, _)) = det {
                let own = det.as_ref().is_some_and(|d| crate::vals::key_of_error(d.1.get(2)).is_some());
                match detach_cond(det).as_deref() {
                    // an error of the application's choice
                    _ if own => {}
                    Some(TLE) => {
                        let deserved = l.dels.iter().enumerate().any(|(i, d)| {
                            d.frames[0].read < fr.seq
                                && i as u64
                                    >= flows.iter().filter(|f| f.0 < d.frames[0].read).map(|f| f.1).max().unwrap_or(0)
                        });
                        if !deserved {
                            self.fail(
                                "C07",
                                fr.seq,
                                format!("side {y} refuses {} for exceeded credit, which the sender has respected", self.link_str(li)),
                            );
                        }
                    }
                    Some(MSE) => {
                        let deserved = max > 0
                            && l.dels.iter().any(|d| {
                                d.frames[0].read < fr.seq && d.payload.len() as u64 > max
                            });
                        if !deserved {
                            self.fail(
                                "C07",
                                fr.seq,
                                format!(
                                    "side {y} refuses {} for an exceeded message size (maximum {max}), which the sender has respected",
                                    self.link_str(li)
                                ),
                            );
                        }
                    }
                    _ => {}
                }
            }
            // breaches must be refused
            for (i, d) in l.dels.iter().enumerate() {
                let over = i as u64 >= total_bound && !self.s.eps[y].router;
                let mut big = NEVER;
                if max > 0 && d.payload.len() as u64 > max {
                    // the frame that goes beyond
                    big = if d.frames.len() == 1 { 0 } else { d.frames.len() - 1 };
                }
                if !over && big == NEVER {
                    continue;
                }
                let fr = if over { &d.frames[0] } else { &d.frames[big] };
                let Some(mk) = t.mark_after(l.conn, y, fr.read) else { break };
                // something else has ended the link before
                let other = t.sess_down(l.sess).min(
                    t.ops
                        .iter()
                        .filter(|o| {
                            matches!(o.c, Call::CloseLink { lid } | Call::DetachLink { lid }
                                if self.link_of_lid(lid) == Some(li))
                        })
                        .map(|o| o.call)
                        .min()
                        .unwrap_or(NEVER),
                );
                let peer = l.detach[x].as_ref().map_or(NEVER, |d| d.0.read);
                if other.min(peer) <= mk || mk > self.ample || fr.read == NEVER {
                    break;
                }
                let c = detach_cond(det);
                let want = if over { TLE } else { MSE };
                let ok = c.as_deref() == Some(want) || (c.as_deref() == Some(TLE) && over) || matches!(c.as_deref(), Some(TLE | MSE));
                // a handler that is not ready has ended the link at the same time
                let unready = self.s.eps[y].router && self.s.flag("ready-fail") && det.is_some();
                if !ok && (self.s.flag("refuse") || unready) {
                    break;
                }
                if !ok {
                    self.fail(
                        "C07",
                        mk,
                        format!(
                            "delivery number {i} ({} bytes) on {} exceeds {} and the link was not closed with {want} (detach: {c:?})",
                            d.payload.len(),
                            self.link_str(li),
                            if over {
                                format!("the credit for {total_bound} deliveries")
                            } else {
                                format!("the maximum size {max}")
                            }
                        ),
                    );
                }
                break;
            }
        }
    }

    // ---- C05 -----------------------------------------------------------
    pub fn c05(&mut self) {
        let t = self.t;
        if self.s.eps.iter().any(|e| !e.model.mute.is_empty()) {
            return;
        }
        for o in &t.ops {
            let Some(c) = t.conns.iter().position(|c| c.id == o.conn) else { continue };
            let lid = match o.c {
                Call::Send { lid, .. } | Call::Ready { lid } | Call::OnCredit { lid } => lid,
                _ => continue,
            };
            let Some(li) = self.link_of_lid(lid) else { continue };
            let l = &t.links[li];
            let x = o.side;
            if l.sender != x || !self.real(x) {
                continue;
            }
            let rseq = o.ret.as_ref().map_or(NEVER, |r| r.0);
            let down = t.link_down(li);
            let init = l.attach[x].as_ref().and_then(|a| a.1.u32(9)).unwrap_or(0);
            let sent = |seq: usize| l.dels.iter().filter(|d| d.frames[0].seq < seq).count() as u32;
            // (least) number of deliveries allowed at a moment
            let allow = |c: &Self, seq: usize| -> u32 {
                let lim = c.limits(li, seq);
                lim.iter()
                    .map(|l| {
                        let d = l.wrapping_sub(init.wrapping_add(sent(seq)));
                        if d < 1 << 31 { d } else { 0 }
                    })
                    .min()
                    .unwrap_or(0)
            };
            match o.c {
                Call::Send { m, .. } => {
                    if o.call < self.ample
                        && rseq > self.quiet
                        && down > self.quiet
                        && allow(self, self.quiet) > 0
                        && !self.blocked_window(l.sess, x, self.quiet)
                    {
                        self.fail(
                            "C05",
                            o.call,
                            format!(
                                "send of message {m} on {} is still waiting long after the peer gave credit for {} deliveries and an open window",
                                self.link_str(li),
                                allow(self, self.quiet)
                            ),
                        );
                    }
                }
                Call::Ready { .. } | Call::OnCredit { .. } => {
                    // settled moments while it was waiting
                    let marks = &t.conns[c].marks[x];
                    let from = marks.partition_point(|m| *m <= o.call);
                    for mk in &marks[from..] {
                        if *mk >= rseq || *mk >= down {
                            break;
                        }
                        let sending = t.ops.iter().any(|p| {
                            matches!(p.c, Call::Send { lid: b, .. } if b == lid)
                                && p.call < *mk
                                && p.ret.as_ref().is_none_or(|r| r.0 > *mk)
                        });
                        if sending || allow(self, *mk) == 0 {
                            continue;
                        }
                        if matches!(o.c, Call::OnCredit { .. }) {
                            // it is told about updates after it has asked
                            let updated = t.sess[l.sess].flows.iter().any(|f| {
                                f.from != x
                                    && f.link == Some(li)
                                    && f.fr.read > o.call
                                    && t.processed(l.conn, x, &f.fr, *mk)
                            });
                            let before = allow(self, o.call);
                            if !updated || before > 0 {
                                continue;
                            }
                        }
                        self.fail(
                            "C05",
                            *mk,
                            format!(
                                "waiting for the possibility to send on {} goes on although there is credit for {} deliveries",
                                self.link_str(li),
                                allow(self, *mk)
                            ),
                        );
                        break;
                    }
                }
                _ => {}
            }
        }
        // requests for the flow state
        for si in 0..t.sess.len() {
            let s = &t.sess[si];
            for f in &s.flows {
                let x = 1 - f.from;
                if !self.real(x) || !f.p.bool(9) || f.fr.read >= self.ample || s.begin[x].is_none() {
                    continue;
                }
                let down = match f.link {
                    Some(li) => t.link_down(li),
                    None => t.sess_down(si),
                };
                if down <= self.quiet {
                    continue;
                }
                if let Some(li) = f.link
                    && t.links[li].attach[x].is_none()
                {
                    continue;
                }
                let ok = s.flows.iter().any(|g| {
                    g.from == x && g.fr.seq > f.fr.read && (f.link.is_none() || g.link == f.link)
                });
                if !ok {
                    self.fail(
                        "C05",
                        f.fr.read,
                        format!("side {x} never answered the request for its flow state ({:?})", f.link.map(|l| self.link_str(l))),
                    );
                }
            }
        }
    }

    // ---- C06 -----------------------------------------------------------
    /// position from which side `x` certainly knows that the connection is over
    fn conn_gone(&self, c: usize, x: usize) -> usize {
        let t = self.t;
        let k = &t.conns[c];
        let mut m = k.io_closed[x].and_then(|s| t.mark_after(c, x, s)).unwrap_or(NEVER);
        if let Some((fr, _)) = &k.close[1 - x]
            && fr.read != NEVER
        {
            m = m.min(t.mark_after(c, x, fr.read).unwrap_or(NEVER));
        }
        for o in &t.ops {
            if o.conn == k.id && o.side == x {
                match (&o.c, &o.ret) {
                    (Call::ForceClose, _) => m = m.min(o.call + 1),
                    (Call::CloseConn, Some(r)) => m = m.min(r.0),
                    _ => {}
                }
            }
        }
        m
    }
    fn sess_gone(&self, si: usize, x: usize) -> usize {
        let t = self.t;
        let s = &t.sess[si];
        let mut m = self.conn_gone(s.conn, x);
        if let Some((fr, _)) = &s.end[1 - x]
            && fr.read != NEVER
        {
            m = m.min(t.mark_after(s.conn, x, fr.read).unwrap_or(NEVER));
        }
        for o in &t.ops {
            if let Call::End { sid } = o.c
                && let Some(r) = &o.ret
                && t.sapi.get(&sid).is_some_and(|a| a.sess == Some(si) && a.side == x)
            {
                m = m.min(r.0);
            }
        }
        m
    }
    fn link_gone(&self, li: usize, x: usize, closing: bool) -> usize {
        let t = self.t;
        let l = &t.links[li];
        let mut m = self.sess_gone(l.sess, x);
        if let Some((fr, _)) = &l.detach[1 - x]
            && fr.read != NEVER
            && l.attach[x].is_some()
        {
            let mut k = t.mark_after(l.conn, x, fr.read).unwrap_or(NEVER);
            // a link that is being confirmed is detached afterwards
            if let Some((own, _)) = &l.detach[x] {
                k = k.max(own.seq);
            } else {
                k = NEVER;
            }
            m = m.min(k);
        }
        for o in &t.ops {
            if let Call::CloseLink { lid } | Call::DetachLink { lid } = o.c
                && let Some(r) = &o.ret
                && o.side == x
                && self.link_of_lid(lid) == Some(li)
                && l.detach[x].is_some()
                // a second close returns at once, the first one waits for the peer
                && !closing
            {
                m = m.min(r.0);
            }
        }
        m
    }

    /// what the operation depends on: position from which it is gone, and a name
    fn depends(&self, o: &OpRec) -> (usize, String) {
        let t = self.t;
        let Some(c) = t.conns.iter().position(|c| c.id == o.conn) else {
            return (NEVER, String::new());
        };
        let x = o.side;
        let lid = match &o.c {
            Call::Send { lid, .. }
            | Call::Ready { lid }
            | Call::OnCredit { lid }
            | Call::RecvLoop { lid }
            | Call::CloseLink { lid }
            | Call::DetachLink { lid }
            | Call::OnCloseLink { lid } => Some(*lid),
            Call::Wait { m } => self.sends.get(m).and_then(|i| match t.ops[*i].c {
                Call::Send { lid, .. } => Some(lid),
                _ => None,
            }),
            _ => None,
        };
        if let Some(lid) = lid {
            return match self.link_of_lid(lid) {
                Some(li) => {
                    let closing = matches!(o.c, Call::CloseLink { .. } | Call::DetachLink { .. });
                    (self.link_gone(li, x, closing), self.link_str(li))
                }
                None => (self.conn_gone(c, x), "connection".into()),
            };
        }
        match &o.c {
            Call::End { sid } => match t.sapi.get(sid).and_then(|a| a.sess) {
                Some(si) => (self.sess_gone(si, x), "session".into()),
                None => (self.conn_gone(c, x), "connection".into()),
            },
            Call::Attach { s, .. } => {
                let si = t
                    .sapi
                    .values()
                    .filter(|a| a.side == x && a.conn == c && a.seq < o.call)
                    .filter(|a| self.sid_is(a.sid, *s, x))
                    .map(|a| a.sess)
                    .collect::<Vec<_>>();
                let si = if si.len() == 1 { si[0] } else { None };
                match si {
                    Some(si) => (self.sess_gone(si, x), "session".into()),
                    None => (self.conn_gone(c, x), "connection".into()),
                }
            }
            _ => (self.conn_gone(c, x), "connection".into()),
        }
    }
    fn sid_is(&self, sid: usize, s: usize, x: usize) -> bool {
        self.t.evs.iter().any(|e| match &e.k {
            EvK::App { side, e: AppEv::SessionUp { sid: a, s: b, .. }, .. } => {
                *side == x && *a == sid && *b == Some(s)
            }
            _ => false,
        })
    }

    pub fn c06(&mut self) {
        let t = self.t;
        let slow = self.s.eps.iter().map(|e| e.ctl_delay.1.max(e.pub_delay.1)).max().unwrap_or(0);
        for o in &t.ops {
            if !self.real(o.side) {
                continue;
            }
            let x = o.side;
            let what = {
                let mut s = format!("{:?}", o.c);
                s.truncate(60);
                s
            };
            let rseq = o.ret.as_ref().map_or(NEVER, |r| r.0);
            let rt = o.ret.as_ref().map_or(u64::MAX, |r| r.1);
            let (gone, of) = self.depends(o);
            if rseq == NEVER && o.t + 4 * S < t.time(t.end) {
                self.fail("C06", o.call, format!("side {x}: {what} has never finished"));
                continue;
            }
            // only the peer's answer or the end of the session completes a detach
            let unanswered = matches!(o.c, Call::DetachLink { .. } | Call::CloseLink { .. })
                && self.s.eps.iter().any(|e| e.model.mute.contains(&crate::wire::DETACH));
            if gone != NEVER && !unanswered {
                let gt = t.time(gone);
                if gone > o.call {
                    let d = if matches!(o.c, Call::RecvLoop { .. }) { 8 * S } else { 4 * S };
                    if rt > gt + d + slow && gt + d + slow < t.time(t.end) {
                        self.fail(
                            "C06",
                            gone,
                            format!("side {x}: {what} is still pending {} s after the {of} has gone", d / S),
                        );
                    }
                } else {
                    // started afterwards
                    let known = matches!(o.c, Call::Wait { .. } | Call::RecvLoop { .. });
                    let late = rt > o.t + S;
                    if late && o.t + S < t.time(t.end) && !known {
                        self.fail(
                            "C06",
                            o.call,
                            format!("side {x}: {what} started after the {of} had gone does not fail at once"),
                        );
                    } else {
                        let bad = match (&o.c, o.ret.as_ref().map(|r| &r.2)) {
                            (Call::Send { .. }, Some(Ret::Sent { .. }))
                            | (Call::Attach { .. }, Some(Ret::Link { .. }))
                            | (Call::OpenSession { .. }, Some(Ret::Session { .. }))
                            | (Call::Ready { .. }, Some(Ret::Bool(true))) => true,
                            _ => false,
                        };
                        if bad {
                            self.fail(
                                "C06",
                                o.call,
                                format!("side {x}: {what} started after the {of} had gone reports success"),
                            );
                        }
                    }
                }
                if let (Call::Ready { .. }, Some((s, _, Ret::Bool(true)))) = (&o.c, &o.ret)
                    && *s > gone
                    && o.call < gone
                {
                    self.fail("C06", *s, format!("side {x}: {what} reports readiness although the {of} has gone"));
                }
            }
            // success needs the peer
            match (&o.c, &o.ret) {
                (Call::Attach { .. }, Some((s, _, Ret::Link { lid }))) => {
                    if let Some(li) = self.link_of_lid(*lid) {
                        let l = &t.links[li];
                        if l.attach[1 - x].as_ref().is_none_or(|a| a.0.read > *s) {
                            self.fail("C06", *s, format!("side {x}: attaching {} succeeds without the peer", self.link_str(li)));
                        }
                    }
                }
                (Call::OpenSession { .. }, Some((s, _, Ret::Session { sid }))) => {
                    if let Some(si) = t.sapi.get(sid).and_then(|a| a.sess)
                        && t.sess[si].begin[1 - x].as_ref().is_none_or(|a| a.0.read > *s)
                    {
                        self.fail("C06", *s, format!("side {x}: opening a session succeeds without the peer"));
                    }
                }
                (Call::End { sid }, Some((s, _, Ret::Ok))) => {
                    if let Some(si) = t.sapi.get(sid).and_then(|a| a.sess)
                        && t.sess[si].end[1 - x].as_ref().is_none_or(|a| a.0.read > *s)
                        && t.sess_down(si) >= o.call
                    {
                        self.fail("C06", *s, format!("side {x}: ending a session succeeds without the peer's answer"));
                    }
                }
                (Call::CloseLink { lid } | Call::DetachLink { lid }, Some((s, _, Ret::Ok))) => {
                    if let Some(li) = self.link_of_lid(*lid) {
                        let l = &t.links[li];
                        if l.detach[1 - x].as_ref().is_none_or(|a| a.0.read > *s)
                            && t.link_down(li) >= o.call
                            && l.attach[x].as_ref().is_some_and(|a| a.0.seq < o.call)
                            && l.first_by == x
                            // the library has detached it already
                            && !matches!(detach_cond(&l.detach[x]).as_deref(), Some(TLE | MSE))
                        {
                            self.fail(
                                "C06",
                                *s,
                                format!("side {x}: detaching {} succeeds without the peer's answer", self.link_str(li)),
                            );
                        }
                    }
                }
                _ => {}
            }
        }
    }

    /// what a connection says about itself
    pub fn conn_says(&mut self) {
        let t = self.t;
        for (ci, c) in t.conns.iter().enumerate() {
            for x in 0..2 {
                if !self.real(x) {
                    continue;
                }
                let y = 1 - x;
                let mine = |o: &&crate::tracker::OpRec| o.conn == c.id && o.side == x;
                let first = |v: Option<usize>| v.unwrap_or(NEVER);
                let own = first(t.ops.iter().filter(mine).filter(|o| matches!(o.c, Call::CloseConn | Call::ForceClose)).map(|o| o.call).min());
                let forced = first(t.ops.iter().filter(mine).filter(|o| matches!(o.c, Call::ForceClose)).map(|o| o.call).min());
                let fired = first(t.ops.iter().filter(mine).filter(|o| matches!(o.c, Call::OnCloseConn)).filter_map(|o| o.ret.as_ref().map(|r| r.0)).min());
                let read = c.close[y].as_ref().map_or(NEVER, |f| f.0.read);
                let failed = first(t.evs.iter().filter(|e| match &e.k {
                    EvK::App { conn, side, e: AppEv::CtlDone { err: Some(_), .. } | AppEv::PubDone { err: Some(_), .. } } => *conn == c.id && *side == x,
                    _ => false,
                }).map(|e| e.seq).next());
                let other = c.close[x].as_ref().map_or(NEVER, |f| f.0.seq)
                    .min(c.cut.iter().chain(&c.io_closed).flatten().copied().min().unwrap_or(NEVER))
                    .min(failed)
                    .min(self.channel_refusal(ci, x));
                let may = own.min(read).min(other);
                // nothing is handled any more after a begin that is refused
                let read = if read > self.channel_refusal(ci, x) { NEVER } else { read };
                let settled = |at: usize| if at == NEVER { NEVER } else { t.mark_after(ci, x, at).unwrap_or(NEVER) };
                let sure = own.min(fired).min(settled(read)).min(settled(c.io_closed[x].unwrap_or(NEVER)));
                let told = own.min(fired).min(settled(read));
                let mut before: Option<&(String, Option<String>)> = None;
                for e in t.evs {
                    let EvK::App { conn, side, e: AppEv::ConnSays { opened, err } } = &e.k else { continue };
                    if *conn != c.id || *side != x {
                        continue;
                    }
                    let m = if *opened && err.is_some() {
                        format!("is opened: {opened}, and its error {err:?}")
                    } else if settled(e.seq) < may && (!opened || err.is_some()) {
                        format!("does not say that it is open: {opened}, {err:?}")
                    } else if e.seq > sure && *opened {
                        "says that it is open although it has ended".into()
                    } else if e.seq > told && err.is_none() {
                        "gives no error although it has ended".into()
                    } else if before.is_some() && before != err.as_ref() {
                        format!("gives the error {err:?} after {before:?}")
                    } else if e.seq > told && own < read.min(other)
                        && err.as_ref().is_none_or(|q| q.0 != if forced == own { "ConnectionDropped" } else { "Disconnected" })
                    {
                        format!("has been closed by the application, its error is {err:?}")
                    } else if e.seq > told && settled(read) < own.min(other)
                        && err.as_ref().is_none_or(|q| q.0 != "Closed" || q.1 != cond(c.close[y].as_ref().unwrap().1.get(0)))
                    {
                        format!("has been closed by the peer, its error is {err:?}")
                    } else {
                        before = err.as_ref().or(before);
                        continue;
                    };
                    self.fail("C06", e.seq, format!("side {x}: the connection {m}"));
                }
            }
        }
    }

    // ---- C11 -----------------------------------------------------------
    pub fn c11(&mut self) {
        let t = self.t;
        if self.s.flag("illegal") {
            return;
        }
        // ids of failed control and publish calls
        let mut failed: Vec<(usize, usize)> = vec![];
        for e in t.evs {
            if let EvK::App { e: AppEv::CtlDone { id, err: Some(_) } | AppEv::PubDone { id, err: Some(_) }, .. } = &e.k {
                failed.push((*id, e.seq));
            }
        }
        let refused = |li: usize| {
            t.evs.iter().any(|e| match &e.k {
                EvK::App { e: AppEv::Ctl { id, lnk: Some(k), .. }, .. } => {
                    failed.iter().any(|f| f.0 == *id) && t.lnks.get(k) == Some(&li)
                }
                _ => false,
            })
        };
        for li in 0..t.links.len() {
            let l = &t.links[li];
            for x in 0..2 {
                if !self.real(x) {
                    continue;
                }
                let Some((fr, _)) = &l.detach[x] else { continue };
                if matches!(detach_cond(&l.detach[x]).as_deref(), Some(TLE | MSE)) || self.s.eps[x].router {
                    continue;
                }
                let peer = l.detach[1 - x].as_ref().is_some_and(|d| d.0.read < fr.seq);
                let own = t.ops.iter().any(|o| match o.c {
                    Call::CloseLink { lid } | Call::DetachLink { lid } => {
                        o.side == x && o.call < fr.seq && self.link_of_lid(lid).is_none_or(|k| k == li)
                    }
                    _ => false,
                });
                if !peer && !own && !refused(li) && !self.attach_given_up(li, x) {
                    self.fail(
                        "C11",
                        fr.seq,
                        format!("side {x} detaches {} for which nobody has asked", self.link_str(li)),
                    );
                }
            }
        }
        for s in &t.sess {
            for x in 0..2 {
                let (Some((fr, _)), true) = (&s.end[x], self.real(x)) else { continue };
                let peer = s.end[1 - x].as_ref().is_some_and(|d| d.0.read < fr.seq);
                let own = t.ops.iter().any(|o| match o.c {
                    Call::End { sid } => {
                        o.side == x
                            && o.call < fr.seq
                            && t.sapi.get(&sid).and_then(|a| a.sess).is_none_or(|k| std::ptr::eq(&t.sess[k], s))
                    }
                    _ => false,
                });
                // opening it was given up
                let given_up = s.begin[x].as_ref().is_some_and(|b| *b.1.get(0) == crate::wire::V::Null)
                    && !t.sapi.values().any(|a| a.side == x && a.sess.is_some_and(|k| std::ptr::eq(&t.sess[k], s)))
                    && t.ops.iter().any(|o| {
                        o.side == x && matches!((&o.c, &o.ret), (Call::OpenSession { .. }, Some((_, _, Ret::Cancelled))))
                    });
                if !peer && !own && !given_up {
                    self.fail("C11,C15", fr.seq, format!("side {x} ends a session (channel {:?}) without a reason", s.ch[x]));
                }
            }
        }
        for (ci, c) in t.conns.iter().enumerate() {
            for x in 0..2 {
                if !self.real(x) {
                    continue;
                }
                let first = c.close[x].as_ref().map_or(NEVER, |f| f.0.seq).min(c.io_closed[x].unwrap_or(NEVER));
                if first == NEVER {
                    continue;
                }
                // a side that closes its end of the stream itself does not lose it
                let cut = c.cut.iter().flatten().copied()
                    .filter(|at| !matches!(t.evs[*at].k, EvK::Cut { from, own: true, .. } if from == x))
                    .min().unwrap_or(NEVER);
                let cause = c.close[1 - x].as_ref().map_or(NEVER, |f| f.0.read)
                    .min(cut)
                    .min(c.io_closed[1 - x].unwrap_or(NEVER))
                    .min(
                        t.ops
                            .iter()
                            .filter(|o| o.conn == c.id && matches!(o.c, Call::CloseConn | Call::ForceClose))
                            .map(|o| o.call)
                            .min()
                            .unwrap_or(NEVER),
                    );
                let cause = cause.min(self.channel_refusal(ci, x));
                if cause > first && first < self.quiet {
                    self.fail("C11,C15", first, format!("side {x} closes the connection without a reason"));
                }
            }
        }
        // operations that fail or hang although all they need is alive
        for o in &t.ops {
            let x = o.side;
            if !self.real(x) {
                continue;
            }
            let Some(c) = t.conns.iter().position(|c| c.id == o.conn) else { continue };
            match (&o.c, &o.ret) {
                (Call::Send { lid, m, .. }, Some((s, _, Ret::Err { kind, .. }))) => {
                    if let Some(li) = self.link_of_lid(*lid)
                        && t.link_down(li) > *s
                        && !refused(li)
                        && kind != "BodyTooLarge"
                    {
                        self.fail(
                            "C11",
                            *s,
                            format!("send of message {m} on {} fails with {kind} although the link is alive", self.link_str(li)),
                        );
                    }
                }
                (Call::Attach { s: _, name, sender, .. }, Some((s, _, Ret::Err { kind, .. }))) => {
                    // the link of this attach: opened by this side, first written after the call
                    let li = self.link_of_attach(o, name, *sender);
                    let down = match li {
                        Some(li) => t.link_down(li),
                        None => t.sess.iter().filter(|s| s.conn == c).enumerate().map(|(i, _)| t.sess_down(i)).min().unwrap_or(0).min(t.conn_down(c)),
                    };
                    if down > *s && !self.s.eps.iter().any(|e| e.model.mute.contains(&crate::wire::ATTACH)) {
                        self.fail("C11", *s, format!("attaching {name:?} fails with {kind} although nothing has ended"));
                    }
                }
                (Call::Attach { name, sender, .. }, None) => {
                    if let Some(li) = self.link_of_attach(o, name, *sender)
                        && t.link_down(li) > self.quiet
                        && t.links[li].attach[1 - x].as_ref().is_some_and(|a| a.0.read < self.ample)
                    {
                        self.fail("C11", o.call, format!("attaching {name:?} is answered but does not finish"));
                    }
                }
                (Call::OpenSession { .. }, Some((s, _, Ret::Err { kind, .. }))) => {
                    if t.conn_down(c) > *s && kind != "TooManyChannels" {
                        self.fail("C11", *s, format!("opening a session fails with {kind} although nothing has ended"));
                    }
                }
                _ => {}
            }
        }
    }

    fn attach_given_up(&self, li: usize, x: usize) -> bool {
        // local attach that was cancelled or detached by handle before it had an object
        self.t.links[li].first_by == x
            && !self.t.lapi.values().any(|a| a.side == x && a.link == Some(li))
            && self.t.ops.iter().any(|o| o.side == x && matches!(o.c, Call::DetachLink { .. } | Call::CloseLink { .. }))
    }

    fn link_of_attach(&self, o: &OpRec, name: &str, sender: bool) -> Option<usize> {
        let t = self.t;
        let x = o.side;
        let snd = if sender { x } else { 1 - x };
        t.links.iter().position(|l| {
            l.name == name
                && l.sender == snd
                && l.first_by == x
                && l.attach[x].as_ref().is_some_and(|a| a.0.seq > o.call)
        })
    }

    // ---- C18 -----------------------------------------------------------
    pub fn c18(&mut self) {
        for x in 0..2 {
            if self.real(x) && !self.s.eps[x].default_ctl && !self.s.eps[x].router {
                self.c18_side(x);
            }
        }
    }

    fn c18_side(&mut self, x: usize) {
        let t = self.t;
        let y = 1 - x;
        struct C {
            seq: usize,
            id: usize,
            kind: &'static str,
            link: Option<usize>,
            lnk: Option<usize>,
            detail: String,
            name: String,
        }
        let mut log: Vec<C> = vec![];
        let mut done: BTreeMap<usize, (usize, Option<String>)> = BTreeMap::new();
        for e in t.evs {
            match &e.k {
                EvK::App { side, e: AppEv::Ctl { id, kind, lnk, detail, name, .. }, .. } if *side == x => {
                    log.push(C {
                        seq: e.seq,
                        id: *id,
                        kind,
                        link: lnk.and_then(|k| t.lnks.get(&k).copied()),
                        lnk: *lnk,
                        detail: detail.clone(),
                        name: name.clone().unwrap_or_default(),
                    });
                }
                EvK::App { side, e: AppEv::CtlDone { id, err }, .. } if *side == x => {
                    done.insert(*id, (e.seq, err.clone()));
                }
                _ => {}
            }
        }
        // events for something that did not happen
        for c in &log {
            if matches!(c.kind, "AttachSender" | "AttachReceiver") && c.link.is_none() {
                self.fail("C18", c.seq, format!("side {x}: control event {} for {:?}: there is no such attach (or it was announced before)", c.kind, c.name));
            }
        }
        let is_open = |c: usize| t.conns[c].open.iter().all(Option::is_some);
        // the end of the connection
        let closed: Vec<usize> = log.iter().enumerate().filter(|c| c.1.kind == "Closed").map(|c| c.0).collect();
        if closed.len() > 1 {
            self.fail("C18", log[closed[1]].seq, format!("side {x}: the close event comes {} times", closed.len()));
        } else if let Some(i) = closed.first()
            && *i + 1 != log.len()
        {
            self.fail("C18", log[i + 1].seq, format!("side {x}: {} event after the close event", log[i + 1].kind));
        } else if closed.is_empty() && !log.is_empty() && t.conns.len() == 1 && is_open(0) {
            let gone = t.conns[0].io_closed[x];
            if gone.is_some_and(|g| t.time(g) + 6 * S < t.time(t.end)) {
                self.fail("C18", t.end - 1, format!("side {x}: the close event never comes"));
            }
        }
        for k in ["Disconnected", "ProtocolError"] {
            let n = log.iter().filter(|c| c.kind == k).count();
            if n > 1 {
                self.fail("C18", t.end - 1, format!("side {x}: {n} {k} events on one connection"));
            }
        }
        for li in 0..t.links.len() {
            let l = &t.links[li];
            let sess_down = t.sess_down(l.sess);
            let mine: Vec<&C> = log.iter().filter(|c| c.link == Some(li)).collect();
            let att: Vec<&&C> = mine.iter().filter(|c| c.kind.starts_with("Attach")).collect();
            let remote = l.first_by == y;
            if remote && let Some((fr, _)) = &l.attach[y] {
                if att.is_empty()
                    && let Some(mk) = t.mark_after(l.conn, x, fr.read)
                    && fr.read != NEVER
                    && mk < sess_down
                {
                    self.fail("C18", mk, format!("side {x}: no control event for the attach of {}", self.link_str(li)));
                    continue;
                }
                if let Some(c) = att.first() {
                    let want = if l.sender == x { "AttachSender" } else { "AttachReceiver" };
                    if c.kind != want {
                        self.fail("C18", c.seq, format!("side {x}: {} for {}", c.kind, self.link_str(li)));
                    }
                    let d = done.get(&c.id);
                    let local = t.ops.iter().any(|o| {
                        matches!(o.c, Call::CloseLink { lid } | Call::DetachLink { lid }
                            if o.side == x && self.link_of_lid(lid) == Some(li))
                    });
                    if let Some((a, _)) = &l.attach[x]
                        && d.is_none_or(|d| d.0 > a.seq)
                        && !local
                    {
                        self.fail(
                            "C18",
                            a.seq,
                            format!("side {x} answers the attach of {} before its control service has accepted", self.link_str(li)),
                        );
                    }
                    if let Some((ds, Some(err))) = d {
                        // refused
                        match (&l.attach[x], &l.detach[x]) {
                            (Some(a), Some(b)) => {
                                let peer_first = l.detach[y].as_ref().is_some_and(|q| q.0.read < b.0.seq);
                                if !b.1.bool(1) || cond(b.1.get(2)).as_deref() != Some(err.as_str()) {
                                    if !(peer_first && cond(b.1.get(2)).is_none()) {
                                        self.fail(
                                            "C18",
                                            b.0.seq,
                                            format!(
                                                "side {x} refuses {} without closing detach or the service's error: {:?}",
                                                self.link_str(li),
                                                b.1
                                            ),
                                        );
                                    }
                                }
                                let used = l.sender == x && !l.dels.is_empty()
                                    || t.sess[l.sess].flows.iter().any(|f| {
                                        f.from == x && f.link == Some(li) && f.fr.seq > a.0.seq
                                    });
                                if used {
                                    self.fail("C18", b.0.seq, format!("side {x} uses the refused {}", self.link_str(li)));
                                }
                            }
                            _ => {
                                if sess_down > self.quiet && *ds < self.ample {
                                    self.fail(
                                        "C18",
                                        *ds,
                                        format!("side {x} does not answer the refused attach of {} with attach and detach", self.link_str(li)),
                                    );
                                }
                            }
                        }
                        if let Some(c) = mine.iter().find(|c| c.kind == "Flow") {
                            self.fail("C18", c.seq, format!("side {x}: Flow event for the refused {}", self.link_str(li)));
                        }
                    }
                }
            }
            let refused = att.first().is_some_and(|c| done.get(&c.id).is_some_and(|d| d.1.is_some()));
            // flows of sending links
            if l.sender == x && !refused {
                let exp: Vec<_> = t.sess[l.sess]
                    .flows
                    .iter()
                    .filter(|f| f.from == y && f.link == Some(li) && f.fr.read != NEVER)
                    .collect();
                let act: Vec<&&C> = mine.iter().filter(|c| c.kind == "Flow").collect();
                let mut ok = true;
                for (i, c) in act.iter().enumerate() {
                    let want = exp.get(i).map(|f| format!("{:?}/{:?}", f.p.u32(5), f.p.u32(6)));
                    if want.as_deref() != Some(c.detail.as_str()) || exp[i].fr.read > c.seq {
                        self.fail(
                            "C18",
                            c.seq,
                            format!(
                                "side {x}: Flow event number {i} of {} tells {} (delivery-count/credit), the peer's flow says {want:?}",
                                self.link_str(li),
                                c.detail
                            ),
                        );
                        ok = false;
                        break;
                    }
                }
                if ok {
                    // the local detach stops it
                    let stop = t.link_down(li);
                    let due = exp
                        .iter()
                        .filter(|f| {
                            f.fr.read < self.ample
                                && t.mark_after(l.conn, x, f.fr.read).is_some_and(|m| m < stop && m < self.quiet)
                        })
                        .count();
                    let ready = l.attach[x].is_some()
                        && (!remote || att.first().is_some_and(|c| done.get(&c.id).is_some_and(|d| d.0 < self.ample)));
                    if ready && act.len() < due && (stop > self.quiet || !remote) {
                        self.fail(
                            "C18",
                            exp[act.len()].fr.read,
                            format!("side {x}: {} of {} flows of the peer on {} are told to the control service", act.len(), due, self.link_str(li)),
                        );
                    }
                }
            }
            // detaches
            let det: Vec<&&C> = mine.iter().filter(|c| c.kind.contains("Detach")).collect();
            if det.len() > 1 {
                self.fail(
                    "C18",
                    det[1].seq,
                    format!("side {x}: {} and {} for {}", det[0].kind, det[1].kind, self.link_str(li)),
                );
            }
            // told by the time this side has done all it had to do
            let quiet = self.quiet;
            let late = |cause: usize, told: usize| {
                t.mark_after(l.conn, x, cause)
                    .filter(|m| *m < told && *m < sess_down && *m < quiet)
            };
            if let Some(d) = det.first()
                && let Some((fr, _)) = if d.kind.starts_with("Remote") { &l.detach[y] } else { &l.detach[x] }
                && let Some(m) = late(if d.kind.starts_with("Remote") { fr.read } else { fr.seq }, d.seq)
                && t.lapi.values().any(|a| a.link == Some(li) && a.side == x && a.seq < m)
            {
                self.fail("C18", m, format!("side {x}: {} of {} is told late", d.kind, self.link_str(li)));
            }
            if l.sender == x
                && !refused
                && let Some(up) = t.lapi.values().find(|a| a.link == Some(li) && a.side == x)
            {
                let exp = t.sess[l.sess].flows.iter().filter(|f| f.from == y && f.link == Some(li) && f.fr.read != NEVER);
                let act = mine.iter().filter(|c| c.kind == "Flow");
                for (f, c) in exp.zip(act) {
                    if let Some(m) = late(f.fr.read.max(up.seq), c.seq) {
                        self.fail("C18", m, format!("side {x}: a Flow of {} is told late", self.link_str(li)));
                        break;
                    }
                }
            }
            if let Some(d) = det.first() {
                let want = if l.sender == x { "DetachSender" } else { "DetachReceiver" };
                if !d.kind.ends_with(want) {
                    self.fail("C18", d.seq, format!("side {x}: {} for {}", d.kind, self.link_str(li)));
                }
                if let Some(c) = mine.iter().find(|c| c.seq > d.seq) {
                    self.fail("C18", c.seq, format!("side {x}: {} after {} of {}", c.kind, d.kind, self.link_str(li)));
                }
                if d.kind.starts_with("Remote") {
                    if l.detach[y].as_ref().is_none_or(|q| q.0.read > d.seq) {
                        self.fail("C18", d.seq, format!("side {x}: {} of {} although the peer has not detached it", d.kind, self.link_str(li)));
                    }
                } else {
                    let own = t.ops.iter().any(|o| {
                        matches!(o.c, Call::CloseLink { lid } | Call::DetachLink { lid }
                            if o.side == x && o.call < d.seq && self.link_of_lid(lid).is_none_or(|k| k == li))
                    });
                    let legit = d.detail.contains(TLE) || d.detail.contains(MSE);
                    let failed = mine.iter().any(|c| done.get(&c.id).is_some_and(|d| d.1.is_some()));
                    if !own && !legit && !failed && !self.attach_given_up(li, x) {
                        self.fail("C18", d.seq, format!("side {x}: {} of {} although it was not detached locally", d.kind, self.link_str(li)));
                    }
                }
            } else if let Some(a) = t.lapi.values().find(|a| a.link == Some(li) && a.side == x)
                && !refused
            {
                // established, then detached by the peer alone
                if let Some((fr, _)) = &l.detach[y]
                    && fr.read != NEVER
                    && a.seq < fr.read
                    && sess_down > self.quiet
                    && fr.read < self.ample
                    && l.attach[x].is_some()
                    && t.link_down(li) == fr.seq
                    && t.ops.iter().all(|o| {
                        !matches!(o.c, Call::CloseLink { lid } | Call::DetachLink { lid }
                            if o.side == x && self.link_of_lid(lid).is_none_or(|k| k == li))
                    })
                {
                    self.fail("C18", fr.read, format!("side {x}: no event for the peer's detach of {}", self.link_str(li)));
                }
                // established, then detached by this side first
                if let Some((fr, _)) = &l.detach[x]
                    && a.seq < fr.seq
                    && l.attach.iter().all(|q| q.as_ref().is_some_and(|q| q.0.read < fr.seq || q.0.seq < fr.seq))
                    && l.attach[y].as_ref().is_some_and(|q| q.0.read < fr.seq)
                    && t.ops.iter().any(|o| {
                        matches!(o.c, Call::CloseLink { lid } | Call::DetachLink { lid }
                            if o.side == x && lid == a.lid && o.call < fr.seq && o.call > l.attach[x].as_ref().map_or(NEVER, |q| q.0.seq))
                    })
                    && sess_down > self.quiet
                    && fr.seq < self.ample
                    && l.detach[y].as_ref().is_none_or(|q| q.0.read > fr.seq)
                {
                    self.fail("C18", fr.seq, format!("side {x}: no event for its own detach of {}", self.link_str(li)));
                }
            }
        }
        // sessions
        let ends: Vec<(usize, &'static str, String, usize)> = t
            .evs
            .iter()
            .filter_map(|e| match &e.k {
                EvK::App { conn, side, e: AppEv::Ctl { kind, detail, .. } } if *side == x && kind.ends_with("SessionEnded") => {
                    Some((e.seq, *kind, detail.clone(), *conn))
                }
                _ => None,
            })
            .collect();
        // ends of sessions, and the events that can tell of them
        struct Need {
            due: usize,
            must: bool,
            what: String,
            fits: Vec<usize>,
        }
        let mut needs: Vec<Need> = Vec::new();
        // sessions the application never got also end
        if t.ops.iter().any(|o| {
            o.side == x && matches!((&o.c, &o.ret), (Call::OpenSession { .. }, Some((_, _, Ret::Cancelled))))
        }) {
            return;
        }
        for si in 0..t.sess.len() {
            let s = &t.sess[si];
            let Some(ch) = s.ch[x] else { continue };
            let (Some((fr, _)), Some(_)) = (&s.end[y], &s.begin[x]) else { continue };
            if fr.read == NEVER {
                continue;
            }
            let next = t.mark_after(s.conn, x, fr.read).unwrap_or(NEVER);
            // ended by the application, by the peer, or both at a time
            let call = t
                .ops
                .iter()
                .filter(|o| matches!(o.c, Call::End { sid } if t.sapi.get(&sid).is_some_and(|a| a.sess == Some(si) && a.side == x)))
                .map(|o| o.call)
                .min()
                .unwrap_or(NEVER);
            let local = call < next;
            let remote = call > fr.read;
            let kind = if local { "LocalSessionEnded" } else { "RemoteSessionEnded" };
            // events of this session: those of its channel between its begin and its reuse
            let reuse = t
                .sess
                .iter()
                .filter(|q| q.conn == s.conn && q.ch[x] == Some(ch))
                .filter_map(|q| q.begin[x].as_ref().map(|b| b.0.seq))
                .filter(|q| *q > s.begin[x].as_ref().unwrap().0.seq)
                .min()
                .unwrap_or(NEVER);
            let reuse_mark = t.mark_after(s.conn, x, reuse).unwrap_or(NEVER);
            let up = t.sapi.values().filter(|a| a.sess == Some(si) && a.side == x).map(|a| a.seq).min().unwrap_or(NEVER);
            let begin = up.min(s.begin[x].as_ref().unwrap().0.seq);
            // links that were alive
            let end = t.sess_down(si);
            let mut want = Vec::new();
            for li in &s.links {
                let l = &t.links[*li];
                let Some(a) = t.lapi.values().find(|a| a.link == Some(*li) && a.side == x) else { continue };
                let alive = t.link_down(*li) >= end
                    && l.attach[x].as_ref().is_some_and(|q| q.0.seq < end)
                    && l.attach[y].as_ref().is_some_and(|q| q.0.read < end)
                    && a.seq < end
                    && t.ops.iter().all(|o| {
                        !matches!(o.c, Call::CloseLink { lid } | Call::DetachLink { lid } if lid == a.lid && o.call < next)
                    })
                    && l.detach.iter().all(Option::is_none);
                if alive {
                    want.push(format!("{}:{ch}:{}:{}", if l.sender == x { "S" } else { "R" }, l.h[x].unwrap_or(0), a.name));
                }
            }
            let fits = |d: &str| d.is_empty() || d.split(',').all(|d| d.split(':').nth(1) == Some(&ch.to_string()));
            let listed = |d: &str| want.iter().filter(|w| d.split(',').any(|d| d == *w)).count();
            let mut found: Vec<usize> = (0..ends.len())
                .filter(|i| {
                    let e = &ends[*i];
                    e.3 == s.conn
                        && (e.1 == "LocalSessionEnded" && local || e.1 == "RemoteSessionEnded" && remote)
                        && e.0 > begin
                        && e.0 >= call.min(fr.read)
                        && (e.0 < reuse || e.0 < reuse_mark && (listed(&e.2) > 0 || e.2.is_empty()))
                        && fits(&e.2)
                        && listed(&e.2) == want.len()
                })
                .collect();
            found.sort_by_key(|i| {
                let e = &ends[*i];
                std::cmp::Reverse((!e.2.is_empty(), e.0 <= next, usize::MAX - i))
            });
            needs.push(Need {
                due: next,
                must: next < t.conn_down(s.conn) && next < reuse && next < self.quiet,
                what: format!("no {kind} event for the session on channel {ch} with the links {want:?}"),
                fits: found,
            });
        }
        // a session the peer has not ended yet is announced at once
        for o in t.ops.iter().filter(|o| {
            matches!(o.c, Call::End { sid } if o.side == x
                && t.sapi.get(&sid).is_none_or(|a| a.sess.is_none_or(|s| t.sess[s].end[y].as_ref().is_none_or(|e| e.0.read == NEVER))))
        }) {
            needs.push(Need {
                due: NEVER,
                must: false,
                what: String::new(),
                fits: (0..ends.len())
                    .filter(|i| ends[*i].1 == "LocalSessionEnded" && ends[*i].0 > o.call && ends[*i].3 == o.conn)
                    .collect(),
            });
        }
        // the largest assignment, ends that have to be told first
        fn give(n: usize, needs: &[Need], taken: &mut [Option<usize>], seen: &mut [bool]) -> bool {
            for &i in &needs[n].fits {
                if !std::mem::replace(&mut seen[i], true)
                    && taken[i].is_none_or(|other| give(other, needs, taken, seen))
                {
                    taken[i] = Some(n);
                    return true;
                }
            }
            false
        }
        let mut taken: Vec<Option<usize>> = vec![None; ends.len()];
        needs.sort_by_key(|n| !n.must);
        for n in 0..needs.len() {
            if !give(n, &needs, &mut taken, &mut vec![false; ends.len()]) && needs[n].must {
                self.fail("C18", needs[n].due, format!("side {x}: {}", needs[n].what));
            }
        }
        for (i, n) in taken.iter().enumerate() {
            if let Some(n) = n
                && needs[*n].must
                && ends[i].0 > needs[*n].due
            {
                self.fail("C18", needs[*n].due, format!("side {x}: {} is told late: {}", ends[i].1, needs[*n].what));
            }
        }
        for (i, (seq, k, detail, _)) in ends.iter().enumerate() {
            if taken[i].is_none() {
                self.fail("C18", *seq, format!("side {x}: {k} ({detail}) although no session ended this way"));
            }
        }
        let _ = log.iter().map(|c| c.lnk).count();
    }
}
