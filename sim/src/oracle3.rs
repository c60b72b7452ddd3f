//! C17: router handlers.
use std::collections::BTreeMap;

use crate::hist::{AppEv, Call, EvK, Ret};
use crate::oracle::Ck;
use crate::rout;
use crate::sim::SEC;
use crate::tracker::NEVER;
use crate::wire::V;

struct H {
    hid: usize,
    lnk: usize,
    route: usize,
    path: String,
    vars: String,
    create: usize,
    created: Option<usize>,
    shutdown: Vec<usize>,
    calls: Vec<usize>,
    done: usize,
    last: usize,
}

/// address of the target of an attach
fn address(p: &crate::wire::Perf) -> Option<String> {
    crate::oracle2::cond(p.get(6))
}

impl Ck<'_> {
    pub fn c17(&mut self) {
        for x in 0..2 {
            if self.real(x) && self.s.eps[x].router && !self.s.eps[x].default_ctl {
                self.c17_side(x);
            }
        }
    }

    fn c17_side(&mut self, x: usize) {
        let t = self.t;
        let y = 1 - x;
        let mut hs: BTreeMap<usize, H> = BTreeMap::new();
        // control calls announcing links: link -> (position of a good end, refused)
        let mut calls: BTreeMap<usize, usize> = BTreeMap::new();
        let mut accepted: BTreeMap<usize, usize> = BTreeMap::new();
        let mut refused: BTreeMap<usize, usize> = BTreeMap::new();
        let mut unready: BTreeMap<usize, usize> = BTreeMap::new();
        let mut local: BTreeMap<usize, usize> = BTreeMap::new();
        let mut ended = NEVER;
        for e in t.evs {
            let EvK::App { side, e: a, .. } = &e.k else { continue };
            if *side != x {
                continue;
            }
            match a {
                AppEv::Ctl { id, kind, lnk, .. } => {
                    if let Some(li) = t.ctl_link.get(id) {
                        calls.insert(*id, *li);
                    } else if *kind != "Flow"
                        && let Some(li) = lnk.and_then(|k| t.lnks.get(&k))
                    {
                        // a failing call about the link closes it as well
                        calls.insert(*id, *li);
                    }
                    // the endpoint detaches by itself: announced before the frame is written
                    if *kind == "LocalDetachReceiver"
                        && let Some(li) = lnk.and_then(|k| t.lnks.get(&k))
                    {
                        local.entry(*li).or_insert(e.seq);
                    }
                    if matches!(*kind, "Closed" | "Disconnected" | "ProtocolError") {
                        ended = ended.min(e.seq);
                    }
                }
                AppEv::CtlDone { id, err } => {
                    if let Some(li) = calls.get(id) {
                        if err.is_none() {
                            accepted.entry(*li).or_insert(e.seq);
                        } else {
                            refused.entry(*li).or_insert(e.seq);
                        }
                    }
                }
                AppEv::Handler { hid, lnk, kind, route, path, detail, .. } => {
                    let h = hs.entry(*hid).or_insert_with(|| H {
                        hid: *hid,
                        lnk: *lnk,
                        route: *route,
                        path: path.clone(),
                        vars: detail.clone(),
                        create: e.seq,
                        created: None,
                        shutdown: vec![],
                        calls: vec![],
                        done: 0,
                        last: 0,
                    });
                    match *kind {
                        "created" => h.created = Some(e.seq),
                        "shutdown" => h.shutdown.push(e.seq),
                        "call" => h.calls.push(e.seq),
                        "done" => {
                            h.done += 1;
                            h.last = e.seq;
                        }
                        "not-ready" => {
                            if let Some(li) = t.lnks.get(lnk) {
                                unready.entry(*li).or_insert(e.seq);
                            }
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        let by_link = |li: usize| hs.values().filter(|h| t.lnks.get(&h.lnk) == Some(&li)).collect::<Vec<_>>();
        for h in hs.values() {
            match t.lnks.get(&h.lnk) {
                Some(li) if t.links[*li].sender == y && t.links[*li].first_by == y => {}
                _ => {
                    self.fail("C17", h.create, format!("a handler of route {} is created for no incoming link", h.route));
                    return;
                }
            }
        }
        for li in 0..t.links.len() {
            let l = &t.links[li];
            if l.sender != y || l.first_by != y {
                continue;
            }
            let Some((afr, ap)) = &l.attach[y] else { continue };
            let addr = address(ap);
            let want = addr.as_deref().and_then(rout::route_of);
            let mine = by_link(li);
            let what = format!("{} with target {addr:?}", self.link_str(li));
            // the moment from which the endpoint may know that the link is over
            let mut over = ended.min(unready.get(&li).copied().unwrap_or(NEVER)).min(refused.get(&li).copied().unwrap_or(NEVER));
            let k = &t.conns[l.conn];
            for f in l.detach.iter().chain(t.sess[l.sess].end.iter()).chain(k.close.iter()).flatten() {
                over = over.min(f.0.seq);
            }
            for s in 0..2 {
                for z in [k.cut[s], k.io_closed[s]].into_iter().flatten() {
                    over = over.min(z);
                }
            }
            for o in &t.ops {
                if o.side != x {
                    continue;
                }
                let hit = match o.c {
                    Call::CloseLink { lid } | Call::DetachLink { lid } => self.link_of_lid(lid) == Some(li),
                    Call::End { sid } => t.sapi.get(&sid).and_then(|a| a.sess) == Some(l.sess),
                    Call::CloseConn | Call::ForceClose => true,
                    _ => false,
                };
                if hit {
                    over = over.min(o.call);
                }
            }
            // by its own decision: only because of what the peer has done
            let own = l.detach[x].as_ref().is_some_and(|(fr, _)| over == fr.seq);
            over = over.min(local.get(&li).copied().unwrap_or(NEVER));
            if mine.len() > 1 {
                self.fail("C17", mine[1].create, format!("{} handlers are created for {what}", mine.len()));
            }
            if let Some(h) = mine.first() {
                match want {
                    Some((r, v)) if r == h.route && v == h.vars && Some(&h.path) == addr.as_ref() => {}
                    _ => self.fail(
                        "C17",
                        h.create,
                        format!(
                            "{what} gets a handler of route {} ({}, {:?})",
                            rout::ROUTES[h.route], h.path, h.vars
                        ),
                    ),
                }
                if h.create < afr.seq {
                    self.fail("C17", h.create, format!("the handler of {what} is created before the attach"));
                }
            }
            // answered as attached: there is a handler
            let ready = mine.iter().find_map(|h| h.created);
            if let Some((fr, _)) = &l.attach[x]
                && (t.sess[l.sess].flows.iter().any(|f| f.from == x && f.link == Some(li))
                    || t.time(l.detach[x].as_ref().map_or(t.end, |d| d.0.seq).min(t.link_down(li))) > t.time(fr.seq) + 3 * SEC)
                && ready.is_none_or(|c| c > fr.seq)
            {
                self.fail("C17", fr.seq, format!("{what} is accepted although it has no handler"));
            }
            let busy = 4 * SEC;
            // messages can go on
            if let Some(h) = mine.first()
                && over.min(t.link_down(li)) > self.quiet
                && let Some(last) = l.dels.iter().filter_map(|d| d.frames.last()).map(|f| f.read).max()
                && l.dels.iter().all(|d| d.complete)
                && h.done == l.dels.iter().filter(|d| !d.aborted).count()
                && t.time(last.max(h.last)) + SEC < t.time(self.quiet)
            {
                let init = ap.u32(9).unwrap_or(0);
                let limits: Vec<u64> = t.sess[l.sess].flows.iter().filter(|f| f.from == x && f.link == Some(li))
                    .filter_map(|f| Some(u64::from(f.p.u32(5)?.wrapping_sub(init)) + u64::from(f.p.u32(6)?)))
                    .collect();
                let limit = limits.last().copied().unwrap_or(0);
                // unless the application has taken credit back
                let granted = t.evs.iter().any(|e| {
                    matches!(&e.k, EvK::App { e: AppEv::Granted { lid, .. }, .. } if self.link_of_lid(*lid) == Some(li))
                });
                if !granted && limits.is_sorted() && limit <= l.dels.len() as u64 {
                    self.fail("C17", h.last, format!("{what} is left without credit after {limit} deliveries, all of them handled"));
                }
            }
            // refusals
            let good = matches!(want, Some((0..=3, _)));
            let down = t.link_down(li);
            if !good {
                if let Some((fr, p)) = &l.detach[x] {
                    let own = over < fr.seq;
                    if !own && *p.get(2) == V::Null {
                        self.fail("C17", fr.seq, format!("{what} is refused without an error"));
                    }
                } else if let Some(ok) = accepted.get(&li)
                    && over.min(down) > self.quiet
                    && t.time(*ok) + busy < t.time(self.quiet)
                {
                    self.fail("C17", *ok, format!("{what} is not refused"));
                }
            } else if let Some(ok) = accepted.get(&li)
                && over > self.quiet
                && t.time(*ok) + busy < t.time(self.quiet)
                && ready.is_none()
            {
                self.fail("C17", *ok, format!("{what} gets no handler"));
            }
            if good
                && own
                && let Some((fr, _)) = &l.detach[x]
            {
                let c = crate::oracle2::detach_cond(&l.detach[x]);
                if !matches!(c.as_deref(), Some("amqp:link:transfer-limit-exceeded" | "amqp:link:message-size-exceeded")) {
                    self.fail("C17", fr.seq, format!("{what} is refused ({c:?})"));
                }
            }
            for h in &mine {
                let Some(c) = h.created else {
                    if let Some(z) = h.shutdown.first().or(h.calls.first()) {
                        self.fail("C17", *z, format!("the handler {} of {what} is used although it could not be created", h.hid));
                    }
                    continue;
                };
                if h.shutdown.len() > 1 {
                    self.fail(
                        "C17",
                        h.shutdown[1],
                        format!("the handler of {what} is shut down {} times", h.shutdown.len()),
                    );
                }
                if let Some(z) = h.shutdown.first() {
                    if *z < over {
                        self.fail("C17", *z, format!("the handler of {what} is shut down although the link is attached"));
                    }
                    if let Some(q) = h.calls.iter().find(|q| *q > z) {
                        self.fail("C17", *q, format!("the handler of {what} gets a message after its shutdown"));
                    }
                }
                // must be shut down in time
                let mut known = NEVER;
                for (s, f) in l.detach.iter().enumerate().chain(t.sess[l.sess].end.iter().enumerate()) {
                    if let Some((fr, _)) = f {
                        known = known.min(if s == x { fr.seq } else { fr.read });
                    }
                }
                known = known.min(k.io_closed[x].unwrap_or(NEVER));
                if known != NEVER {
                    let from = t.time(known).max(t.time(c));
                    let by = from + 6 * SEC;
                    match h.shutdown.first() {
                        Some(z) if t.time(*z) <= by => {}
                        Some(z) => self.fail(
                            "C17",
                            *z,
                            format!("the handler of {what} is shut down only {} ms after the link has ended", (t.time(*z) - from) / 1_000_000),
                        ),
                        None if by < t.time(t.end) => {
                            self.fail("C17", known, format!("the handler of {what} is not shut down"));
                        }
                        None => {}
                    }
                }
            }
        }
    }
}

struct Slot {
    sess: Option<usize>,
    from: usize,
    from_sure: usize,
    to: usize,
    to_sure: usize,
}

// ---- C15 ---------------------------------------------------------------
impl Ck<'_> {
    /// largest channel announced by a side
    fn channel_max(&self, c: usize, x: usize) -> u64 {
        self.t.conns[c].open[x].as_ref().map_or(65535, |o| o.1.u64(3).unwrap_or(65535))
    }

    /// channels of side x in use
    fn slots(&self, c: usize, x: usize) -> Vec<Slot> {
        let t = self.t;
        let y = 1 - x;
        let id = t.conns[c].id;
        let mut ops = t
            .ops
            .iter()
            .filter(|o| {
                o.conn == id
                    && o.side == x
                    && matches!(o.c, Call::OpenSession { .. })
                    && !matches!(&o.ret, Some((_, _, Ret::Err { kind, .. })) if kind == "TooManyChannels")
            })
            .map(|o| o.call);
        let mut v = vec![];
        for (si, s) in t.sess.iter().enumerate() {
            if s.conn != c {
                continue;
            }
            let own = s.begin[x].as_ref().filter(|b| *b.1.get(0) == V::Null);
            let (from, from_sure) = if let Some((fr, _)) = own {
                let at = ops.next().unwrap_or(fr.seq);
                (at, at)
            } else if let Some((fr, _)) = &s.begin[y] {
                let sure = t.mark_after(c, x, fr.read).unwrap_or(NEVER);
                (fr.read, sure.min(s.begin[x].as_ref().map_or(NEVER, |b| b.0.seq)))
            } else {
                continue;
            };
            let (to, to_sure) = match &s.end[y] {
                Some((fr, _)) => (fr.read, t.mark_after(c, x, fr.read).unwrap_or(NEVER)),
                None => (NEVER, NEVER),
            };
            v.push(Slot { sess: Some(si), from, from_sure, to, to_sure });
        }
        for at in ops {
            v.push(Slot { sess: None, from: at, from_sure: at, to: NEVER, to_sure: NEVER });
        }
        v
    }

    /// first begin of the peer that side x need not accept
    pub fn channel_refusal(&self, c: usize, x: usize) -> usize {
        let t = self.t;
        let y = 1 - x;
        let own = self.channel_max(c, x);
        let limit = own.min(self.channel_max(c, y)) + 1;
        let slots = self.slots(c, x);
        let mut first = NEVER;
        for s in &slots {
            let Some(si) = s.sess else { continue };
            let ses = &t.sess[si];
            let Some((fr, p)) = &ses.begin[y] else { continue };
            if ses.ch[y].is_some_and(|ch| u64::from(ch) > own) {
                first = first.min(fr.read);
            }
            if *p.get(0) == V::Null {
                let busy = slots.iter().filter(|z| z.sess != Some(si) && z.from < fr.read.saturating_add(200) && z.to_sure > fr.read).count();
                if busy as u64 >= limit {
                    first = first.min(fr.read);
                }
            }
        }
        first
    }

    pub fn c15(&mut self) {
        let t = self.t;
        for c in 0..t.conns.len() {
            for x in 0..2 {
                if !self.real(x) || t.conns[c].open.iter().any(Option::is_none) {
                    continue;
                }
                let y = 1 - x;
                let own = self.channel_max(c, x);
                let limit = own.min(self.channel_max(c, y)) + 1;
                for s in &t.sess {
                    let Some((fr, _)) = &s.begin[x] else { continue };
                    if s.conn != c {
                        continue;
                    }
                    if let Some(ch) = s.ch[x]
                        && u64::from(ch) >= limit
                    {
                        self.fail(
                            "C15",
                            fr.seq,
                            format!("side {x} begins a session on channel {ch}; the maximum of both sides is {}", limit - 1),
                        );
                    }
                    if let Some(ch) = s.ch[y]
                        && u64::from(ch) > own
                        && s.begin[y].as_ref().is_some_and(|b| b.0.read < fr.seq)
                    {
                        self.fail("C15", fr.seq, format!("side {x} accepts a session on channel {ch}, its own maximum is {own}"));
                    }
                }
                // a session that was given up is ended once the peer has answered
                for s in &t.sess {
                    if s.conn != c || t.conn_down(c) < self.quiet || s.end[x].is_some() || s.end[y].is_some() {
                        continue;
                    }
                    let (Some((bx, px)), Some((by, _))) = (&s.begin[x], &s.begin[y]) else { continue };
                    if *px.get(0) == V::Null
                        && by.read < self.quiet
                        && t.time(by.read) + 4 * SEC < t.time(self.quiet)
                        && !t.sapi.values().any(|a| a.side == x && a.sess.is_some_and(|k| std::ptr::eq(&t.sess[k], s)))
                        && !t.ops.iter().any(|o| o.side == x && matches!(o.c, Call::OpenSession { .. }) && o.ret.is_none())
                    {
                        self.fail("C15", bx.seq, format!("side {x} keeps the session on channel {:?} that nobody has", s.ch[x]));
                    }
                }
                let slots = self.slots(c, x);
                // a begin that is refused takes no channel, and ends the connection, though this
                // may take until the services have done what they have in hand
                let refused = self.channel_refusal(c, x);
                let id = t.conns[c].id;
                for o in t.ops.iter().filter(|o| o.conn == id && o.side == x && matches!(o.c, Call::OpenSession { .. })) {
                    let many = matches!(&o.ret, Some((_, _, Ret::Err { kind, .. })) if kind == "TooManyChannels");
                    let before = |z: &&Slot| z.from < o.call;
                    if many {
                        let n = slots.iter().filter(before).filter(|z| z.to_sure > o.call).count() as u64;
                        // a begin that arrives at this very moment
                        let arriving = slots.iter().filter(|z| z.from >= o.call && z.from < o.ret.as_ref().unwrap().0).count() as u64;
                        if n + arriving < limit {
                            self.fail(
                                "C15",
                                o.call,
                                format!("side {x} cannot open a session although {n} of {limit} are in use"),
                            );
                        }
                    } else {
                        let n = slots.iter().filter(|z| z.from_sure < o.call && z.to > o.call).count() as u64;
                        if n >= limit && o.call < refused && t.conn_down(c) > o.ret.as_ref().map_or(t.end, |r| r.0) {
                            self.fail(
                                "C15",
                                o.call,
                                format!("side {x} opens a session although all of {limit} channels are in use"),
                            );
                        }
                    }
                }
            }
        }
    }
}
