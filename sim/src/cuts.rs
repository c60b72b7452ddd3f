//! C08: one and the same byte stream, cut in different ways.
//!
//! A first run with an interactive peer yields the bytes the peer writes and when it writes them.
//! They are then played twice, unit by unit (a frame, a protocol header, or whatever was written
//! at once where the stream cannot be framed): once every unit arrives in one piece, once in
//! arbitrary pieces of which the last one arrives exactly when the whole unit did.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

use serde::{Deserialize, Serialize};

use crate::hist::{AppEv, Ev, EvK};
use crate::net::{Conn, DirCfg};
use crate::node::Shared;
use crate::oracle::Violation;
use crate::rng::Rng;
use crate::runner::{Outcome, run};
use crate::scen::Scenario;
use crate::sim::US;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cuts {
    /// how the bytes come about
    pub base: String,
    pub seed: u64,
    /// percentage of the positions that are cut; 100: every byte on its own
    pub pct: u32,
    /// only these units are cut (empty: all)
    #[serde(default)]
    pub only: Vec<usize>,
    /// these are not cut
    #[serde(skip)]
    pub not: Vec<usize>,
    /// a piece may hold the end of one unit and the beginning of the next
    pub span: u32,
    /// units written within this time arrive at once (0: every unit on its own)
    #[serde(default)]
    pub join: u64,
    pub short_read: usize,
    pub short_write: usize,
}

/// Pieces and when they arrive; an empty one is the end of the stream.
pub type Tape = Vec<(u64, Vec<u8>)>;

const SPACE: u64 = 4 * US;
const MOST: usize = 900;

/// the units of a recorded stream
fn units(rec: &Tape, space: u64) -> Tape {
    let all: Vec<u8> = rec.iter().flat_map(|r| r.1.iter().copied()).collect();
    // (end, time) of every write
    let mut ends = vec![];
    let mut n = 0;
    for (t, b) in rec {
        n += b.len();
        if !b.is_empty() {
            ends.push((n, *t));
        }
    }
    let time = |pos: usize| ends.iter().find(|e| e.0 >= pos).map_or(0, |e| e.1);
    let mut out: Tape = vec![];
    let mut at = 0;
    while at < all.len() {
        let rest = &all[at..];
        let len = if rest.len() >= 8 && &rest[..4] == b"AMQP" {
            8
        } else if rest.len() >= 8 {
            u32::from_be_bytes([rest[0], rest[1], rest[2], rest[3]]) as usize
        } else {
            0
        };
        if len < 8 || len > rest.len() {
            break;
        }
        out.push((time(at + len), rest[..len].to_vec()));
        at += len;
    }
    for (e, t) in &ends {
        if *e > at {
            out.push((*t, all[at..*e].to_vec()));
            at = *e;
        }
    }
    if let Some((t, _)) = rec.iter().find(|r| r.1.is_empty()) {
        out.push((*t, vec![]));
    }
    let mut last = 0;
    for u in &mut out {
        u.0 = (u.0 + 50 * US + 1).max(last + space);
        last = u.0;
    }
    out
}

/// the same units in pieces
fn pieces(units: &Tape, c: &Cuts) -> Tape {
    let mut r = Rng::new(c.seed);
    let mut out: Tape = vec![];
    let mut carried = 0;
    for (i, (t, b)) in units.iter().enumerate() {
        if b.is_empty() {
            out.push((*t, vec![]));
            continue;
        }
        // every unit has random numbers of its own
        let mut u = Rng::new(r.next());
        let mut at: Vec<usize> = vec![];
        if (c.only.is_empty() || c.only.contains(&i)) && !c.not.contains(&i) {
            for k in 1..b.len() {
                let p = if k < 16 || k + 3 > b.len() { c.pct.max(30) } else { c.pct };
                if (c.pct >= 100 || u.pct(p)) && at.len() < MOST {
                    at.push(k);
                }
            }
        }
        let mut cuts: Vec<usize> = at.into_iter().filter(|k| *k > carried).collect();
        let n = cuts.len() as u64;
        cuts.push(b.len());
        let mut from = carried;
        for (j, k) in cuts.iter().enumerate() {
            out.push((t - (n - j as u64) * 3, b[from..*k].to_vec()));
            from = *k;
        }
        carried = 0;
        // the beginning of the next one along with this one
        if let Some((nt, nb)) = units.get(i + 1)
            && nb.len() > 1
            && (c.base == "traffic" || nt - t <= 2 * SPACE)
            && (c.only.is_empty() || c.only.contains(&(i + 1)))
            && !c.not.contains(&(i + 1))
            && u.pct(c.span)
        {
            carried = u.below(nb.len() as u64) as usize;
            if c.pct >= 50 {
                carried = carried.min(8);
            }
            let head = nb[..carried].to_vec();
            out.last_mut().unwrap().1.extend(head);
        }
    }
    out
}

/// several units at once
fn joined(units: &Tape, c: &Cuts) -> Tape {
    // what opens or closes something is answered; the numbers in the answers depend on the order of
    // things the application does meanwhile
    let quiet = |b: &[u8]| {
        b.len() > 10 && !b.starts_with(b"AMQP") && matches!(b.get(usize::from(b[4]) * 4 + 2), Some(0x13..=0x15))
    };
    let mut out: Tape = vec![];
    let mut first = 0;
    for (t, b) in units {
        match out.last_mut() {
            Some(l) if *t - first <= c.join && (c.base == "handshake" || (quiet(b) && quiet(&l.1))) => {
                l.1.extend(b);
                l.0 = *t;
            }
            _ => {
                first = *t;
                out.push((*t, b.clone()));
            }
        }
    }
    out
}

/// A peer that plays a tape and ignores what it is sent.
pub struct Tapist {
    conn: Rc<Conn>,
    side: usize,
    over: Cell<bool>,
    tape: RefCell<std::vec::IntoIter<(u64, Vec<u8>)>>,
    sh: Rc<Shared>,
}

impl Tapist {
    pub fn start(sh: &Rc<Shared>, conn: &Rc<Conn>, side: usize, tape: &Tape) {
        let me = Rc::new(Tapist {
            conn: conn.clone(),
            side,
            over: Cell::new(false),
            tape: RefCell::new(tape.clone().into_iter()),
            sh: sh.clone(),
        });
        let m = me.clone();
        conn.pipes[1 - side].set_on_data(Rc::new(move || m.on_data()));
        me.next();
    }
    fn on_data(&self) {
        let (_, eof) = self.conn.pipes[1 - self.side].read_all();
        if eof && !self.over.replace(true) {
            self.conn.pipes[self.side].close_write();
        }
    }
    fn next(self: Rc<Self>) {
        let Some((t, b)) = self.tape.borrow_mut().next() else { return };
        let world = self.sh.world.clone();
        world.at(t, move || {
            if self.over.get() {
                return;
            }
            if b.is_empty() {
                self.over.set(true);
                self.conn.pipes[self.side].close_write();
            } else {
                let _ = self.conn.pipes[self.side].write(&b, false);
                self.next();
            }
        });
    }
}

/// What one observer sees in order. Observers are independent of each other: which of two that act
/// at the same instant is first has no meaning.
fn observer(e: &EvK) -> String {
    match e {
        EvK::Wire { .. } => "wire".into(),
        EvK::Call { op, .. } | EvK::Ret { op, .. } => format!("op {op}"),
        EvK::App { e, .. } => match e {
            AppEv::Deliver { lid, .. } => format!("deliveries of link {lid}"),
            AppEv::Settle { lid, id, .. } | AppEv::Update { lid, id, .. } | AppEv::DropDelivery { lid, id } => format!("delivery {lid} {id}"),
            AppEv::LinkUp { lid, .. } | AppEv::Granted { lid, .. } | AppEv::Credit { lid, .. } | AppEv::MaxSize { lid, .. } => format!("link {lid}"),
            AppEv::Ctl { .. } => "control service".into(),
            AppEv::CtlDone { id, .. } => format!("control event {id}"),
            AppEv::Pub { .. } => "publish service".into(),
            AppEv::PubDone { id, .. } => format!("publish event {id}"),
            AppEv::Handler { hid, .. } => format!("handler {hid}"),
            AppEv::Given { op, .. } => format!("op {op}"),
            AppEv::Peek { lid, id, .. } => format!("delivery {lid} {id}"),
            AppEv::Lookup { lid, .. } => format!("link {lid}"),
            e => format!("{e:?}").chars().take_while(char::is_ascii_alphabetic).collect(),
        },
        _ => "io".into(),
    }
}

/// What can be observed of the endpoint on side `x`: observer, text and fingerprint.
pub fn seen(h: &[Ev], x: usize) -> Vec<(String, String, u64)> {
    let mut credit: BTreeMap<usize, u32> = BTreeMap::new();
    h.iter()
        .filter_map(|e| {
            if let EvK::App { e: AppEv::Credit { lid, n }, .. } = &e.k
                && credit.insert(*lid, *n) == Some(*n)
            {
                // sampled, no change
                return None;
            }
            let mine = match &e.k {
                EvK::Wire { from, .. } => *from == x,
                EvK::Call { side, .. } | EvK::Ret { side, .. } | EvK::App { side, .. } | EvK::IoClosed { side, .. } => *side == x,
                _ => false,
            };
            if !mine {
                return None;
            }
            let brief = e.k.brief();
            // the container id of an endpoint is random
            let full = if brief.contains("Seen open") || brief.contains("open") { brief.clone() } else { format!("{:?}", e.k) };
            let mut f = 0xcbf2_9ce4_8422_2325u64;
            for b in full.bytes() {
                f = (f ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
            }
            Some((observer(&e.k), brief.chars().take(160).collect(), f))
        })
        .collect()
}

fn short(s: &str) -> String {
    s.chars().take(150).collect()
}

fn differ(a: &[(String, String, u64)], b: &[(String, String, u64)]) -> Option<String> {
    type By<'a> = BTreeMap<&'a str, Vec<(&'a str, u64)>>;
    let mut m: [By<'_>; 2] = [By::new(), By::new()];
    for (k, v) in [a, b].into_iter().enumerate() {
        for (o, t, f) in v {
            for m in &mut m {
                m.entry(o).or_default();
            }
            m[k].get_mut(o.as_str()).unwrap().push((t, *f));
        }
    }
    let mut out: Option<(usize, String)> = None;
    for (o, a) in &m[0] {
        let b = &m[1][o];
        for i in 0..a.len().max(b.len()) {
            match (a.get(i), b.get(i)) {
                (Some(x), Some(y)) if x.1 == y.1 => {}
                (x, y) => {
                    if out.as_ref().is_none_or(|o| i < o.0) {
                        out = Some((i, format!(
                            "{o} #{i}: whole [{}], in pieces [{}]",
                            x.map_or("nothing more".into(), |x| short(x.0)),
                            y.map_or("nothing more".into(), |y| short(y.0)),
                        )));
                    }
                    break;
                }
            }
        }
    }
    out.map(|o| o.1)
}

/// Frames that arrive together may be acted upon before the application sees any of them; what is
/// left to compare is what does not depend on when the application looks.
fn differ_joined(a: &[(String, String, u64)], b: &[(String, String, u64)]) -> Option<String> {
    // credit the application would have given in between is missing when all comes at once
    let over = |v: &[(String, String, u64)]| v.iter().any(|s| s.1.contains("\"LocalDetachReceiver\""));
    let loose = over(a) || over(b);
    let keep = |v: &[(String, String, u64)]| -> Vec<(String, String, u64)> {
        v.iter()
            .filter(|s| !(loose && s.0.starts_with("deliveries")))
            .filter(|s| s.0.starts_with("deliveries") || s.1.contains("ProtocolError") || s.0 == "io" || s.0 == "op 1")
            .map(|s| {
                if s.1.contains("ProtocolError") {
                    let e = s.1.split("detail:").last().unwrap_or_default().to_string();
                    ("protocol error".to_string(), e.clone(), e.bytes().fold(7, |h, b| (h * 31 + u64::from(b)) % 1_000_007))
                } else {
                    s.clone()
                }
            })
            .collect()
    };
    differ(&keep(a), &keep(b))
}

fn play(s: &Scenario, tape: &Tape, short_read: usize, short_write: usize, text: bool) -> Outcome {
    let x = usize::from(s.eps[1].real);
    let mut s = s.clone();
    let quiet = DirCfg { exact: true, cap: 1 << 26, ..DirCfg::plain() };
    s.net = [quiet.clone(), quiet];
    s.net[1 - x].short_read = short_read;
    s.net[x].short_write = short_write;
    s.tape = Some(tape.clone());
    run(&s, text)
}

/// units that can be refused before they are complete
fn dubious(units: &Tape, limit: usize) -> Vec<usize> {
    units
        .iter()
        .enumerate()
        .filter(|(_, (_, b))| {
            if b.is_empty() || b.starts_with(b"AMQP") {
                return false;
            }
            if b.len() < 8 {
                return true;
            }
            let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
            n != b.len() || (limit > 0 && n > limit) || b[4] < 2 || usize::from(b[4]) * 4 > n || b[5] > 1
        })
        .map(|(i, _)| i)
        .collect()
}

/// how the stream was refused
fn refusal(o: &Outcome) -> Vec<&str> {
    o.seen
        .iter()
        .filter(|s| s.1.contains("ProtocolError") || (s.0 == "op 1" && s.1.contains("Err")) || s.0 == "io")
        .map(|s| s.1.split("kind:").last().unwrap_or_default().split(',').next().unwrap_or_default())
        .collect()
}

/// A frame that is refused because of its first bytes is refused a little earlier when these come a
/// little earlier; what else happens at this very moment may then be before or after.
fn refused_early(s: &Scenario, c: &Cuts, units: &Tape, a: &Outcome, b: &Outcome) -> bool {
    let x = usize::from(s.eps[1].real);
    let not = dubious(units, crate::model::inbound_limit(s, x));
    if not.is_empty() || refusal(a).len() < 2 || refusal(a) != refusal(b) {
        return false;
    }
    let c = Cuts { not, ..c.clone() };
    let d = play(s, &pieces(units, &c), c.short_read, c.short_write, false);
    differ(&a.seen, &d.seen).is_none()
}

pub fn compare(scen: &Scenario, text: bool) -> Outcome {
    let c = scen.cuts.clone().expect("cuts");
    let mut s = scen.clone();
    s.family.clone_from(&c.base);
    s.cuts = None;
    s.observe = true;
    s.poll_cost = 0;
    let mut m = run(&s, false);
    m.violations.clear();
    m.counters.retain(|k, _| !k.starts_with("probe:") && !k.starts_with("hostile:"));
    let mut units = units(&m.tape, if c.join > 0 { 10 } else { SPACE });
    if c.join > 0 {
        units.retain(|u| !u.1.is_empty());
    }
    let mut a = play(&s, &units, 0, 0, text);
    let atext = std::mem::take(&mut a.text);
    if a.violations.iter().any(|v| v.prop == "*") {
        // another property's business
        a.violations.clear();
        a.hash ^= m.hash;
        return a;
    }
    let tape = if c.join > 0 { joined(&units, &c) } else { pieces(&units, &c) };
    let mut b = play(&s, &tape, c.short_read, c.short_write, text);
    let mut bad = vec![];
    // a recorded frame that now meets a link before its attach is answered tells nothing: whether
    // the answer or the frame comes first at that very moment is up to the application's timer
    let raced = |o: &Outcome| o.seen.iter().any(|s| s.1.contains("UnexpectedOpeningState"));
    if raced(&a) || raced(&b) {
        *b.counters.entry("cuts:raced".into()).or_insert(0) += 1;
    } else if let Some(v) = b.violations.iter().find(|v| v.prop == "*") {
        bad.push(Violation { prop: "C08".into(), msg: format!("only in pieces: {}", v.msg), seq: v.seq });
    } else if c.join > 0 {
        if let Some(d) = differ_joined(&a.seen, &b.seen) {
            bad.push(Violation { prop: "C08".into(), msg: format!("several frames at once: {d}"), seq: 0 });
        }
    } else if let Some(d) = differ(&a.seen, &b.seen)
        && !refused_early(&s, &c, &units, &a, &b)
    {
        bad.push(Violation { prop: "C08".into(), msg: format!("the cut of the stream matters: {d}"), seq: 0 });
    }
    let n = b.counters.entry("cuts:pieces".into()).or_insert(0);
    *n += tape.len() as u64;
    *b.counters.entry("cuts:units".into()).or_insert(0) += units.len() as u64;
    for (k, v) in m.counters {
        *b.counters.entry(k).or_insert(0) += v;
    }
    if b.seen.len() > 4 {
        b.counters.insert("cuts:compared".into(), 1);
    }
    b.hash = b.hash.rotate_left(1) ^ a.hash ^ m.hash.rotate_left(7);
    b.polls += a.polls + m.polls;
    b.sim_ns += a.sim_ns + m.sim_ns;
    b.events += a.events + m.events;
    b.text.insert(0, "---- in pieces".into());
    b.text.splice(0..0, atext);
    b.violations = bad;
    b
}
