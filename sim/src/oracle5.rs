//! C09: negotiation.
use std::collections::HashMap;
use std::rc::Rc;

use crate::hist::{AppEv, Call, Ev, EvK, Ret};
use crate::node::hex;
use crate::oracle::Ck;
use crate::scen::Scenario;
use crate::sim::{MS, SEC};
use crate::wire::{self, Item, V};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    /// everything needed has been read
    Done(usize),
    /// the application (or the server) says no
    Refused(usize, u64),
    Wrong(usize),
    Waiting,
}

/// what side x has read, in order
fn items(h: &[Ev], x: usize) -> Vec<(Rc<Item>, usize)> {
    let mut w = HashMap::new();
    let mut v = vec![];
    for e in h {
        match &e.k {
            EvK::Wire { from, fi, item, .. } if *from != x => {
                w.insert(*fi, item.clone());
            }
            EvK::Read { from, fi, .. } if *from != x => {
                if let Some(i) = w.get(fi) {
                    v.push((i.clone(), e.seq));
                }
            }
            _ => {}
        }
    }
    v
}

fn sasl_code(s: &Scenario) -> u64 {
    s.flags.iter().find_map(|f| f.strip_prefix("sasl-code=")).map_or(0, |c| c.parse().unwrap())
}

/// (verdict, the answer came before the question)
pub fn verdict(s: &Scenario, h: &[Ev], x: usize) -> (Verdict, bool) {
    let own_init = h
        .iter()
        .find(|e| {
            matches!(&e.k, EvK::Wire { from, item, .. } if *from == x
                && matches!(&**item, Item::Frame(f) if f.perf.as_ref().is_some_and(|p| p.code == wire::SASL_INIT)))
        })
        .map_or(usize::MAX, |e| e.seq);
    let mut early = false;
    let mut st = match (x, s.eps[0].sasl) {
        (1, _) => "first",
        (_, true) => "sasl header",
        _ => "header",
    };
    for (i, seq) in items(h, x) {
        let ok = Verdict::Wrong(seq);
        let perf = match &*i {
            Item::Frame(f) => f.perf.as_ref().map(|p| (f.sasl, p)),
            _ => None,
        };
        let code = perf.map_or(0, |p| if p.0 == (p.1.code >= 0x40) { p.1.code } else { 0 });
        st = match (st, &*i) {
            ("first" | "header", Item::Proto([0, 1, 0, 0])) => {
                if st == "first" && s.flag("require-sasl") {
                    return (Verdict::Refused(seq, 0), early);
                }
                "open"
            }
            ("first", Item::Proto([3, 1, 0, 0])) => "init",
            ("sasl header", Item::Proto([3, 1, 0, 0])) => "mechanisms",
            ("mechanisms", _) if code == wire::SASL_MECHANISMS => "outcome",
            ("outcome", _) if code == wire::SASL_OUTCOME => {
                early |= seq < own_init;
                let c = perf.unwrap().1.u64(0).unwrap_or(99);
                if c != 0 {
                    return (Verdict::Refused(seq, c), early);
                }
                "header"
            }
            ("init", _) if code == wire::SASL_INIT && s.flag("challenge") => "response",
            ("init" | "response", _)
                if code == (if st == "init" { wire::SASL_INIT } else { wire::SASL_RESPONSE }) =>
            {
                if sasl_code(s) != 0 || s.flag("refuse-after-outcome") {
                    return (Verdict::Refused(seq, sasl_code(s)), early);
                }
                "header"
            }
            ("open", _) if code == wire::OPEN => {
                if x == 1 && s.flag("refuse-open") {
                    return (Verdict::Refused(seq, 0), early);
                }
                return (Verdict::Done(seq), early);
            }
            _ => return (ok, early),
        };
    }
    (Verdict::Waiting, early)
}

impl Ck<'_> {
    pub fn c09(&mut self) {
        if self.s.family != "handshake" {
            return;
        }
        for x in 0..2 {
            if self.real(x) {
                self.c09_side(x);
            }
        }
    }

    fn c09_side(&mut self, x: usize) {
        let (s, t) = (self.s, self.t);
        let y = 1 - x;
        let (v, early) = verdict(s, t.evs, x);
        let first = |o: &&crate::tracker::OpRec| {
            o.side == x && if x == 0 { matches!(o.c, Call::Connect) } else { matches!(o.c, Call::Serve) }
        };
        let Some(op) = t.ops.iter().find(first) else { return };
        let (t0, op_ret) = (op.t, op.ret.clone());
        let limit = u64::from(s.eps[x].hs_timeout) * SEC;
        let by_limit = if limit == 0 { u64::MAX } else { t0 + limit + 300 * MS };
        let own_open = t.conns.first().and_then(|c| c.open[x].clone());
        let good = if x == 0 {
            op_ret.as_ref().filter(|r| matches!(r.2, Ret::Ok)).map(|r| r.0)
        } else {
            own_open.as_ref().map(|o| o.0.seq)
        };
        let clean = s.net.iter().all(|n| n.cap >= 1 << 16 && n.stalls.is_empty() && n.short_write == 0);
        let app = if x == 1 { s.eps[1].ctl_delay.1 } else { 0 };
        let slack = app + if clean { 400 * MS } else { 2500 * MS };
        let cut = t.evs.iter().find(|e| matches!(e.k, EvK::Cut { from, .. } if from == y)).map_or(t.end, |e| e.seq);
        let over = t
            .evs
            .iter()
            .find(|e| matches!(&e.k, EvK::Cut { .. }))
            .map_or(t.end, |e| e.seq);
        // services
        let started = t.evs.iter().find(|e| match &e.k {
            EvK::App { side, e, .. } if *side == x => match e {
                AppEv::Misc(m) => m.ends_with("service started"),
                AppEv::Ctl { .. } | AppEv::Pub { .. } => true,
                _ => false,
            },
            EvK::Call { side, c: Call::Serve, .. } => *side == x && x == 0,
            _ => false,
        });
        let done = match v {
            Verdict::Done(d) => d,
            _ => usize::MAX,
        };
        let first_good = good.unwrap_or(usize::MAX).min(started.map_or(usize::MAX, |e| e.seq));
        if first_good < done {
            let what = if good.is_some_and(|g| g == first_good) { "opens the connection" } else { "starts a service" };
            self.fail("C09", first_good, format!("side {x} {what}, the negotiation: {v:?}"));
            return;
        }
        if started.is_some() && good.is_none() && x == 0 {
            self.fail("C09", first_good, format!("side {x} starts a service, no connection is open"));
        }
        if let Some(g) = good
            && t.time(g) > by_limit
            && clean
        {
            self.fail("C09", g, format!("side {x} opens the connection after the time limit of {limit} ns"));
        }
        if good.is_none() {
            // it must end, in time
            let ret = op_ret.as_ref().map_or(u64::MAX, |r| r.1);
            let mut by = by_limit;
            // (a header in place of a frame looks like the beginning of a huge one)
            if let Verdict::Wrong(w) = v
                && self.c09_plain(x, w)
            {
                by = by.min(t.time(w) + slack);
            }
            by = by.min(t.time(cut) + slack.max(2500 * MS));
            if ret > by {
                self.fail(
                    "C09",
                    op.call,
                    format!("side {x} does not end the negotiation in time (limit {limit} ns), the negotiation: {v:?}"),
                );
                return;
            }
            match &op_ret {
                Some((_, at, Ret::Err { kind, .. })) => {
                    if let Verdict::Refused(_, c) = v
                        && c != 0
                        && x == 0
                        && !early
                        && *at < t.time(over)
                        && !kind.contains("Sasl")
                    {
                        self.fail("C09", op.call, format!("refused with code {c}, the client reports {kind}"));
                    }
                    let at = *at;
                    let io = t.evs.iter().find(|e| matches!(e.k, EvK::IoClosed { side, .. } if side == x));
                    let until = at + u64::from(s.eps[x].disconnect_timeout) * SEC + 1500 * MS;
                    if io.is_none_or(|e| e.t > until) && until < t.time(t.end) {
                        self.fail("C09", op.call, format!("side {x} keeps the connection after the negotiation has failed"));
                    }
                }
                Some((seq, ..)) => {
                    self.fail("C09", *seq, format!("side {x} reports success, no connection is open: {v:?}"));
                }
                None => {}
            }
            if done != usize::MAX && !early {
                let td = t.time(done) + slack;
                if (limit == 0 || td < t0 + limit) && td < t.time(over) {
                    self.fail("C09", done, format!("side {x} does not open the connection although nothing is missing"));
                }
            }
            return;
        }
        // parameters and credentials
        if let Some((_, p)) = &own_open {
            self.c09_open(x, p.clone());
        }
        let peer = t.conns.first().and_then(|c| c.open[y].clone());
        for e in t.evs {
            let EvK::App { side, e: a, .. } = &e.k else { continue };
            if *side != x {
                continue;
            }
            if let (AppEv::Remote { max_frame, channel_max, idle, hostname }, Some((_, p))) = (a, &peer) {
                let want = (
                    p.u32(2).unwrap_or(u32::MAX),
                    p.u64(3).unwrap_or(65_535),
                    p.u32(4).unwrap_or(0),
                    p.str(1).map(str::to_string),
                );
                let got = (*max_frame, u64::from(*channel_max), *idle, hostname.clone());
                if want != got {
                    self.fail("C09", e.seq, format!("side {x} sees parameters {got:?}, the peer has sent {want:?}"));
                }
            }
        }
        self.c09_cred(x, done, good.unwrap());
    }

    /// is the item wrong on its own account?
    fn c09_plain(&self, x: usize, w: usize) -> bool {
        let mut v = items(self.t.evs, x).into_iter().filter(|i| i.1 <= w).rev();
        let last = v.next();
        let header = |i: &Item| matches!(i, Item::Proto(_));
        match last {
            Some((i, _)) if header(&i) => match v.next() {
                // after an outcome (and whatever comes first) a header is due
                None => true,
                Some((p, _)) => match &*p {
                    Item::Frame(f) => f.perf.as_ref().is_some_and(|p| p.code == wire::SASL_OUTCOME),
                    _ => false,
                },
            },
            Some((i, _)) => matches!(&*i, Item::Frame(_)),
            None => false,
        }
    }

    /// what the endpoint says about itself is what it is configured for
    fn c09_open(&mut self, x: usize, p: wire::Perf) {
        let e = &self.s.eps[x];
        let host = if x == 0 && self.s.flag("connect-hostname") {
            Some("conn.host".to_string())
        } else {
            e.hostname.clone()
        };
        let want = (e.max_frame, u64::from(e.channel_max), e.idle_ms, host);
        let got = (
            p.u32(2).unwrap_or(u32::MAX),
            p.u64(3).unwrap_or(65_535),
            p.u32(4).unwrap_or(0),
            p.str(1).map(str::to_string),
        );
        if want != got {
            self.fail("C09", 0, format!("side {x} announces {got:?}, it is configured as {want:?}"));
        }
    }

    fn c09_cred(&mut self, x: usize, done: usize, good: usize) {
        let (s, t) = (self.s, self.t);
        let read: std::collections::HashSet<usize> = t
            .evs
            .iter()
            .filter_map(|e| match &e.k {
                EvK::Read { from, fi, .. } if *from != x && e.seq <= done => Some(*fi),
                _ => None,
            })
            .collect();
        let last = good.max(done);
        let frames = |from: usize, code: u64| -> Vec<wire::Perf> {
            t.evs
                .iter()
                .filter_map(|e| match &e.k {
                    EvK::Wire { from: f, fi, item, .. } if *f == from && e.seq < last && (f == &x || read.contains(fi)) => match &**item {
                        Item::Frame(f) => f.perf.clone().filter(|p| p.code == code),
                        _ => None,
                    },
                    _ => None,
                })
                .collect()
        };
        if x == 0 {
            if s.eps[0].sasl {
                let c = crate::node::cred(s);
                let want = format!("{}\0{}\0{}", c.0, c.1, c.2).into_bytes();
                let sent = frames(0, wire::SASL_INIT);
                if sent.len() != 1 || sent[0].get(1).as_bin() != Some(&want[..]) || *sent[0].get(0) != V::sym("PLAIN") {
                    self.fail("C09", 0, "the client does not send the credentials it was given".to_string());
                }
            }
            return;
        }
        let mut want = vec![];
        if let Some(p) = frames(0, wire::SASL_INIT).first() {
            want.push(format!(
                "{}|{}|{}",
                p.str(0).unwrap_or("?"),
                p.get(1).as_bin().map_or("-".into(), hex),
                p.str(2).unwrap_or("-")
            ));
        }
        if let (true, Some(p)) = (s.flag("challenge"), frames(0, wire::SASL_RESPONSE).first()) {
            want.push(format!("response|{}", p.get(0).as_bin().map_or(String::new(), hex)));
        }
        let got: Vec<String> = t
            .evs
            .iter()
            .filter_map(|e| match &e.k {
                EvK::App { side: 1, e: AppEv::Cred { what }, .. } => Some(what.clone()),
                _ => None,
            })
            .collect();
        if !want.is_empty() && got != want {
            self.fail("C09", 0, format!("the server application sees credentials {got:?}, the client has sent {want:?}"));
        }
        if s.flag("challenge")
            && want.len() == 2
            && frames(1, wire::SASL_CHALLENGE).iter().map(|p| p.get(0).as_bin() == Some(b"chal-1")).ne([true])
        {
            self.fail("C09", 0, "the challenge on the wire is not the application's".to_string());
        }
    }
}

pub fn probe(s: &Scenario, h: &[Ev], add: &mut dyn FnMut(&str)) {
    if s.family != "handshake" {
        return;
    }
    for x in 0..2 {
        if s.eps[x].real {
            add(match verdict(s, h, x).0 {
                Verdict::Done(_) => "negotiation:complete",
                Verdict::Refused(..) => "negotiation:refused",
                Verdict::Wrong(_) => "negotiation:wrong",
                Verdict::Waiting => "negotiation:incomplete",
            });
        }
    }
}
