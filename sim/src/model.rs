//! A protocol peer written from the specification, sharing nothing with the code under test.
//! It chooses every degree of freedom from the seed and, unless told otherwise, is legal.
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::{Rc, Weak};

use crate::hostile;
use crate::net::Conn;
use crate::node::{Shared, body_bytes, cred};
use crate::rng::{Rng, mix};
use crate::scen::{EpCfg, Op, OpK, RcvPol, SendSpec};
use crate::vals;
use crate::wire::{self, Enc, Item, Parser, Perf, V};

pub struct Model {
    pub sh: Rc<Shared>,
    pub conn: Rc<Conn>,
    pub side: usize,
    pub ep: EpCfg,
    st: RefCell<St>,
    me: Weak<Model>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Phase {
    Start,
    SaslHdr,
    Sasl,
    Hdr,
    Open,
    Up,
    Closed,
}

struct St {
    rng: Rng,
    enc: Enc,
    parser: Parser,
    queue: VecDeque<Item>,
    busy: bool,
    stall_until: u64,
    phase: Phase,
    hdr_sent: bool,
    open_sent: bool,
    open_rcvd: bool,
    close_sent: bool,
    peer_max_frame: usize,
    peer_ch_max: u16,
    sess: Vec<Sess>,
    pending: VecDeque<OpK>,
    pump_armed: bool,
    eof: bool,
    healed: bool,
    /// number of things sent
    puts: u32,
    held: Option<Vec<u8>>,
}

struct Sess {
    s: Option<usize>,
    my_ch: u16,
    their_ch: Option<u16>,
    begin_rcvd: bool,
    begin_sent: bool,
    end_sent: bool,
    end_rcvd: bool,
    next_out: u32,
    init_out: u32,
    /// transfers we may still send
    out_left: u32,
    deliv_next: u32,
    next_in: u32,
    /// transfers the peer may still send
    in_left: u32,
    links: Vec<Link>,
    /// unsettled deliveries received
    unsettled: BTreeMap<u32, InDel>,
    settle_armed: bool,
    window_armed: bool,
}

struct InDel {
    link: usize,
    ready_at: u64,
    hold: bool,
    said: Option<V>,
    updated: bool,
}

struct Link {
    l: Option<usize>,
    name: String,
    my_h: u32,
    their_h: Option<u32>,
    i_send: bool,
    at_sent: bool,
    at_rcvd: bool,
    det_sent: bool,
    det_rcvd: bool,
    // sending
    dc: u32,
    limit: Option<u32>,
    q: VecDeque<SendSpec>,
    cur: Option<Cur>,
    // receiving
    pol: RcvPol,
    left: u32,
    part: Option<u32>,
    grant_armed: bool,
    granted_once: bool,
}

struct Cur {
    spec: SendSpec,
    did: u32,
    tag: Vec<u8>,
    body: Vec<u8>,
    off: usize,
    frames: usize,
}

/// frames larger than this are to be refused by `side` (0: no limit)
pub fn inbound_limit(scen: &crate::scen::Scenario, side: usize) -> usize {
    let e = &scen.eps[side];
    if side == 1 { e.max_size } else { e.max_frame as usize }
}

fn live(l: &Link) -> bool {
    l.at_sent && l.at_rcvd && !l.det_sent && !l.det_rcvd
}
fn slive(s: &Sess) -> bool {
    s.begin_rcvd && s.begin_sent && !s.end_sent && !s.end_rcvd
}

impl Model {
    pub fn new(sh: &Rc<Shared>, conn: &Rc<Conn>, side: usize, ep: &EpCfg) -> Rc<Model> {
        let seed = mix(sh.scen.seed ^ (0x30de1 + side as u64));
        Rc::new_cyclic(|me| Model {
            sh: sh.clone(),
            conn: conn.clone(),
            side,
            ep: ep.clone(),
            me: me.clone(),
            st: RefCell::new(St {
                rng: Rng::new(seed),
                enc: Enc {
                    rng: Rng::new(seed ^ 5),
                    vary: ep.model.vary,
                    sym_desc: ep.model.sym_desc,
                },
                parser: Parser::default(),
                queue: VecDeque::new(),
                busy: false,
                stall_until: 0,
                phase: Phase::Start,
                hdr_sent: false,
                open_sent: false,
                open_rcvd: false,
                close_sent: false,
                peer_max_frame: 512,
                peer_ch_max: u16::MAX,
                sess: vec![],
                pending: VecDeque::new(),
                pump_armed: false,
                eof: false,
                healed: false,
                puts: 0,
                held: None,
            }),
        })
    }

    fn rc(&self) -> Rc<Model> {
        self.me.upgrade().unwrap()
    }

    pub fn start(self: &Rc<Self>) {
        let me = self.clone();
        self.conn.pipes[1 - self.side].set_on_data(Rc::new(move || me.on_data()));
        let w = &self.sh.world;
        for op in &self.sh.scen.ops {
            if op.side == self.side {
                let me = self.clone();
                let op: Op = op.clone();
                w.at(op.at, move || me.op(op.k));
            }
        }
        let me = self.clone();
        w.at(self.sh.scen.heal_at, move || me.heal());
        if self.side == 0 {
            let mut st = self.st.borrow_mut();
            if self.ep.sasl {
                st.phase = Phase::SaslHdr;
                self.emit(&mut st, 0, None, b"AMQP\x03\x01\x00\x00");
            } else {
                st.phase = Phase::Hdr;
                self.hdr(&mut st);
                if st.rng.pct(30) {
                    self.open(&mut st);
                }
            }
        }
    }

    fn heal(&self) {
        {
            let mut st = self.st.borrow_mut();
            st.healed = true;
            st.stall_until = 0;
        }
        self.on_data();
        let mut st = self.st.borrow_mut();
        for si in 0..st.sess.len() {
            self.arm_window(&mut st, si, true);
            self.arm_settle(&mut st, si);
            for li in 0..st.sess[si].links.len() {
                self.arm_grant(&mut st, si, li, true);
            }
        }
        self.arm_pump(&mut st);
    }

    // ---- output --------------------------------------------------------
    fn raw(&self, b: &[u8]) {
        let _ = self.conn.pipes[self.side].write(b, false);
    }
    /// sends a performative or (None) the bytes, possibly changed
    fn emit(&self, st: &mut St, ch: u16, p: Option<&Perf>, raw: &[u8]) {
        let muts = &self.sh.scen.muts;
        if muts.is_empty() {
            match p {
                Some(p) => self.raw(&wire::build(&mut st.enc, p.code >= 0x40, ch, Some(p))),
                None => self.raw(raw),
            }
            return;
        }
        let n = st.puts;
        st.puts += 1;
        if n > muts.iter().map(|m| m.at).max().unwrap_or(0) + 300 {
            // the two sides answer each other for ever
            return;
        }
        let held = st.held.take();
        if let Some(m) = muts.iter().find(|m| m.at == n) {
            let c = self.hostile_ctx(st);
            let name = hostile::KINDS.iter().find(|k| k.0 == m.k).unwrap().1;
            self.sh.world.count(name);
            match hostile::apply(m, &mut st.enc, ch, p, raw, &c) {
                hostile::Out::Now(b) => self.raw(&b),
                hostile::Out::Later(b) => st.held = Some(b),
            }
        } else {
            match p {
                Some(p) => self.raw(&wire::build(&mut st.enc, p.code >= 0x40, ch, Some(p))),
                None => self.raw(raw),
            }
        }
        if let Some(b) = held {
            self.raw(&b);
        }
    }
    fn hostile_ctx(&self, st: &St) -> hostile::Ctx {
        let mut c = hostile::Ctx { limit: inbound_limit(&self.sh.scen, 1 - self.side), ..Default::default() };
        for s in &st.sess {
            if s.begin_sent {
                c.chans.push(s.my_ch);
            }
            c.ids.extend([s.next_out, s.deliv_next, s.next_in, s.init_out]);
            c.ids.extend(s.unsettled.keys().take(4));
            for l in &s.links {
                c.handles.push(l.my_h);
                c.ids.push(l.dc);
                c.names.push(l.name.clone());
            }
        }
        c
    }
    fn hdr(&self, st: &mut St) {
        if !st.hdr_sent {
            st.hdr_sent = true;
            self.emit(st, 0, None, b"AMQP\x00\x01\x00\x00");
        }
    }
    fn values(&self) -> bool {
        self.sh.scen.flag("values")
    }
    fn err(&self, c: &str, d: Option<&str>) -> V {
        if self.values() && vals::is_key(c) {
            vals::error(self.sh.scen.seed, c)
        } else {
            wire::err(c, d)
        }
    }
    fn put(&self, st: &mut St, ch: u16, p: Perf) {
        if st.close_sent {
            return;
        }
        if self.ep.model.mute.contains(&p.code) {
            self.sh.world.count("fault:mute");
            return;
        }
        self.emit(st, ch, Some(&p), &[]);
    }
    fn open(&self, st: &mut St) {
        if st.open_sent {
            return;
        }
        st.open_sent = true;
        let e = &self.ep;
        let mut f = vec![
            V::Str(format!("model-{}", self.side)),
            e.hostname.as_deref().map_or(V::Null, V::str),
            if e.omit_max_frame { V::Null } else { V::Uint(e.max_frame) },
            V::Ushort(e.channel_max),
            if e.idle_ms == 0 { V::Null } else { V::Uint(e.idle_ms) },
        ];
        if self.values() {
            let (o, d, p) = vals::extra(self.sh.scen.seed, 1 + self.side as u64);
            let some = |st: &mut St, v: V| if st.rng.pct(50) { v } else { V::Null };
            let mut g = f.clone();
            g.extend([
                some(st, V::sym("en-US")),
                some(st, V::Array(vec![V::sym("en-US"), V::sym("de")])),
                o,
                d,
                p,
            ]);
            let mut b = vec![];
            st.enc.value(&V::desc(wire::OPEN, V::List(g.clone())), &mut b);
            // nothing was agreed on so far
            if b.len() < 400 {
                f = g;
            }
        } else if st.rng.pct(self.ep.model.vary) {
            f.push(V::sym("en-US"));
            f.push(V::Array(vec![V::sym("en-US"), V::sym("de")]));
            f.push(V::sym("cap-a"));
            f.push(V::Array(vec![V::sym("cap-b")]));
            f.push(V::Map(vec![(V::sym("product"), V::str("model"))]));
        }
        self.put(st, 0, Perf::new(wire::OPEN, f));
    }

    // ---- input ---------------------------------------------------------
    fn on_data(&self) {
        let now = self.sh.world.now();
        {
            let mut st = self.st.borrow_mut();
            if st.stall_until > now {
                return;
            }
            let (b, eof) = self.conn.pipes[1 - self.side].read_all();
            st.parser.feed(&b);
            while let Some((i, _)) = st.parser.next() {
                st.queue.push_back(i);
            }
            st.eof |= eof;
        }
        self.kick();
    }

    fn kick(&self) {
        let mut st = self.st.borrow_mut();
        if st.busy {
            return;
        }
        if st.queue.is_empty() {
            if st.eof && st.phase != Phase::Closed {
                st.phase = Phase::Closed;
                drop(st);
                self.conn.pipes[self.side].close_write();
            }
            return;
        }
        st.busy = true;
        let (a, b) = self.ep.model.delay;
        let d = st.rng.range(a, b);
        drop(st);
        let me = self.rc();
        self.sh.world.after(d, move || {
            let mut st = me.st.borrow_mut();
            st.busy = false;
            if let Some(i) = st.queue.pop_front() {
                me.input(&mut st, i);
            }
            me.retry(&mut st);
            me.arm_pump(&mut st);
            drop(st);
            me.kick();
        });
    }

    fn input(&self, st: &mut St, i: Item) {
        match i {
            Item::Bad(_) => st.phase = Phase::Closed,
            Item::Proto(p) => self.proto(st, p),
            Item::Frame(f) => {
                if let Some(p) = f.perf {
                    if f.sasl {
                        self.sasl(st, &p);
                    } else {
                        self.frame(st, f.channel, p);
                    }
                }
            }
        }
    }

    fn proto(&self, st: &mut St, p: [u8; 4]) {
        match (self.side, p[0]) {
            (1, 3) => {
                st.phase = Phase::Sasl;
                self.emit(st, 0, None, b"AMQP\x03\x01\x00\x00");
                let m = if st.rng.pct(50) {
                    V::Array(vec![V::sym("EXTERNAL"), V::sym("PLAIN")])
                } else {
                    V::sym("PLAIN")
                };
                self.put(st, 0, Perf::new(wire::SASL_MECHANISMS, vec![m]));
            }
            (1, _) => {
                st.phase = Phase::Open;
                self.hdr(st);
                if st.rng.pct(30) {
                    self.open(st);
                }
            }
            (_, 3) => st.phase = Phase::Sasl,
            _ => {
                st.phase = Phase::Open;
                self.open(st);
            }
        }
    }

    fn sasl(&self, st: &mut St, p: &Perf) {
        match p.code {
            wire::SASL_MECHANISMS => {
                let c = cred(&self.sh.scen);
                let f = vec![
                    V::sym("PLAIN"),
                    V::Bin(format!("{}\0{}\0{}", c.0, c.1, c.2).into_bytes()),
                    V::str("sasl.host"),
                ];
                self.put(st, 0, Perf::new(wire::SASL_INIT, f));
            }
            wire::SASL_CHALLENGE => {
                let mut r = b"resp-".to_vec();
                r.extend_from_slice(p.get(0).as_bin().unwrap_or_default());
                self.put(st, 0, Perf::new(wire::SASL_RESPONSE, vec![V::Bin(r)]));
            }
            wire::SASL_INIT => {
                let code = self
                    .sh
                    .scen
                    .flags
                    .iter()
                    .find_map(|f| f.strip_prefix("sasl-code="))
                    .map_or(0, |c| c.parse::<u8>().unwrap());
                self.put(st, 0, Perf::new(wire::SASL_OUTCOME, vec![V::Ubyte(code)]));
                if code == 0 {
                    st.phase = Phase::Hdr;
                }
            }
            wire::SASL_OUTCOME => {
                if p.u64(0) == Some(0) {
                    st.phase = Phase::Hdr;
                    self.hdr(st);
                } else {
                    self.conn.pipes[self.side].close_write();
                    st.phase = Phase::Closed;
                }
            }
            _ => {}
        }
    }

    fn sess_by_their(&self, st: &St, ch: u16) -> Option<usize> {
        st.sess.iter().position(|s| s.their_ch == Some(ch) && s.begin_rcvd && !s.end_rcvd)
    }

    fn frame(&self, st: &mut St, ch: u16, p: Perf) {
        match p.code {
            wire::OPEN => {
                st.open_rcvd = true;
                st.peer_max_frame = p.u32(2).unwrap_or(u32::MAX).max(512) as usize;
                st.peer_ch_max = p.get(3).as_u64().unwrap_or(65535) as u16;
                self.open(st);
                st.phase = Phase::Up;
            }
            wire::CLOSE => {
                if !st.close_sent {
                    self.put(st, 0, Perf::new(wire::CLOSE, vec![]));
                    st.close_sent = true;
                }
                st.phase = Phase::Closed;
                let me = self.rc();
                let d = st.rng.range(0, 500_000);
                if !self.ep.model.mute.contains(&wire::CLOSE) {
                    self.sh.world.after(d, move || me.conn.pipes[me.side].close_write());
                }
            }
            wire::BEGIN => self.on_begin(st, ch, &p),
            _ => {
                let Some(si) = self.sess_by_their(st, ch) else { return };
                match p.code {
                    wire::END => {
                        st.sess[si].end_rcvd = true;
                        st.sess[si].unsettled.clear();
                        if !st.sess[si].end_sent {
                            st.sess[si].end_sent = true;
                            let ch = st.sess[si].my_ch;
                            self.put(st, ch, Perf::new(wire::END, vec![]));
                        }
                    }
                    wire::ATTACH => self.on_attach(st, si, &p),
                    wire::FLOW => self.on_flow(st, si, &p),
                    wire::TRANSFER => self.on_transfer(st, si, &p),
                    wire::DISPOSITION => self.on_disposition(st, si, &p),
                    wire::DETACH => {
                        let Some(li) = self.link_by_their(st, si, p.u32(0)) else { return };
                        let closed = p.bool(1);
                        let s = &mut st.sess[si];
                        s.links[li].det_rcvd = true;
                        s.unsettled.retain(|_, d| d.link != li);
                        if !s.links[li].det_sent && !s.end_sent {
                            if s.links[li].at_sent {
                                s.links[li].det_sent = true;
                                let h = s.links[li].my_h;
                                let ch = s.my_ch;
                                self.put(
                                    st,
                                    ch,
                                    Perf::new(wire::DETACH, vec![V::Uint(h), V::Bool(closed)]),
                                );
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    fn link_by_their(&self, st: &St, si: usize, h: Option<u32>) -> Option<usize> {
        let h = h?;
        st.sess[si].links.iter().position(|l| l.their_h == Some(h) && l.at_rcvd && !l.det_rcvd)
    }

    fn new_ch(&self, st: &mut St) -> Option<u16> {
        let max = st.peer_ch_max.min(self.ep.channel_max);
        let used: Vec<u16> =
            st.sess.iter().filter(|s| !(s.end_sent && s.end_rcvd)).map(|s| s.my_ch).collect();
        if self.ep.model.scatter {
            for _ in 0..50 {
                let x = if st.rng.pct(70) {
                    st.rng.below(u64::from(max.min(8)) + 1) as u16
                } else {
                    st.rng.below(u64::from(max) + 1) as u16
                };
                if !used.contains(&x) {
                    return Some(x);
                }
            }
        }
        (0..=max).find(|x| !used.contains(x))
    }

    fn new_handle(&self, st: &mut St, si: usize) -> u32 {
        let used: Vec<u32> = st.sess[si]
            .links
            .iter()
            .filter(|l| !(l.det_sent && l.det_rcvd))
            .map(|l| l.my_h)
            .collect();
        if self.ep.model.scatter {
            for _ in 0..50 {
                let x = if st.rng.pct(80) {
                    st.rng.below(6) as u32
                } else {
                    st.rng.next() as u32
                };
                if !used.contains(&x) {
                    return x;
                }
            }
        }
        (0..u32::MAX).find(|x| !used.contains(x)).unwrap()
    }

    fn new_sess(&self, my_ch: u16) -> Sess {
        let m = &self.ep.model;
        Sess {
            s: None,
            my_ch,
            their_ch: None,
            begin_rcvd: false,
            begin_sent: false,
            end_sent: false,
            end_rcvd: false,
            next_out: m.next_out_id,
            init_out: m.next_out_id,
            out_left: 0,
            deliv_next: m.first_delivery_id,
            next_in: 0,
            in_left: m.begin_window.unwrap_or(m.in_window),
            links: vec![],
            unsettled: BTreeMap::new(),
            settle_armed: false,
            window_armed: false,
        }
    }

    fn send_begin(&self, st: &mut St, si: usize, remote: Option<u16>) {
        let m = &self.ep.model;
        let s = &mut st.sess[si];
        s.begin_sent = true;
        let mut f = vec![
            remote.map_or(V::Null, V::Ushort),
            V::Uint(s.next_out),
            V::Uint(m.begin_window.unwrap_or(m.in_window)),
            V::Uint(m.out_window),
            V::Uint(u32::MAX),
        ];
        let ch = s.my_ch;
        if self.values() {
            let salt = 10 + self.side as u64 + (u64::from(ch) << 8) + ((si as u64) << 32);
            let (o, d, p) = vals::extra(self.sh.scen.seed, salt);
            f.extend([o, d, p]);
        }
        self.put(st, ch, Perf::new(wire::BEGIN, f));
    }

    fn on_begin(&self, st: &mut St, ch: u16, p: &Perf) {
        let si = if let Some(rc) = p.get(0).as_u64() {
            match st
                .sess
                .iter()
                .position(|s| u64::from(s.my_ch) == rc && s.begin_sent && !s.begin_rcvd)
            {
                Some(i) => i,
                None => return,
            }
        } else {
            let Some(my) = self.new_ch(st) else { return };
            let s = self.new_sess(my);
            st.sess.push(s);
            st.sess.len() - 1
        };
        let s = &mut st.sess[si];
        s.their_ch = Some(ch);
        s.begin_rcvd = true;
        s.next_in = p.u32(1).unwrap_or(0);
        s.out_left = p.u32(2).unwrap_or(0);
        if !s.begin_sent {
            // which script session is it?
            let hint = self.sh.hint_at(1 - self.side, ch);
            st.sess[si].s = hint;
            self.send_begin(st, si, Some(ch));
        }
        if self.ep.model.begin_window.is_some() {
            self.arm_window(st, si, false);
        }
    }

    fn attach_perf(&self, st: &mut St, si: usize, li: usize, addr: &str, refuse: bool) -> Perf {
        let odd = st.rng.below(16) as u32;
        let l = &st.sess[si].links[li];
        let src = V::desc(wire::SOURCE, V::List(vec![V::str(addr)]));
        let tgt = match addr {
            "-none-" => V::Null,
            "-null-" => V::desc(wire::TARGET, V::List(vec![])),
            _ => V::desc(wire::TARGET, V::List(vec![V::str(addr)])),
        };
        let m = &self.ep.model;
        let mut f = vec![
            V::Str(l.name.clone()),
            V::Uint(l.my_h),
            V::Bool(!l.i_send),
            V::Null,
            V::Null,
            if refuse && l.i_send { V::Null } else { src },
            if refuse && !l.i_send { V::Null } else { tgt },
            V::Null,
            V::Null,
            // means nothing from a receiver
            if l.i_send || odd == 0 { V::Uint(l.dc) } else if odd < 4 { V::Uint(9_999_999u32.wrapping_mul(odd)) } else { V::Null },
            if m.max_msg == 0 { V::Null } else { V::Ulong(m.max_msg) },
        ];
        if self.values() {
            let key = match l.l {
                Some(l) => l,
                None => l.name.bytes().fold(1000usize, |h, b| (h * 31 + b as usize) % 1_000_003),
            };
            let [s, t, o, d, p] = vals::terms(self.sh.scen.seed, key);
            for (i, t) in [(5, s), (6, t)] {
                if !f[i].is_null() && !f[i].fields().is_empty() {
                    f[i] = vals::with_address(&t, Some(addr));
                    if i == 5 && self.sh.scen.flag("desc-filter") {
                        f[i] = vals::with_filter(&f[i]);
                    }
                }
            }
            f.extend([o, d, p]);
        } else if st.rng.pct(m.vary) {
            f.push(V::sym("cap"));
            f.push(V::Array(vec![V::sym("a"), V::sym("b")]));
            f.push(V::Map(vec![(V::sym("p"), V::Bool(true))]));
        }
        Perf::new(wire::ATTACH, f)
    }

    fn mk_link(&self, st: &mut St, si: usize, name: &str, i_send: bool, l: Option<usize>) -> usize {
        let my_h = self.new_handle(st, si);
        let pol = l
            .and_then(|l| self.sh.l_rcv.get(&l).cloned())
            .unwrap_or_else(|| self.ep.rcv.clone());
        st.sess[si].links.push(Link {
            l,
            name: name.to_string(),
            my_h,
            their_h: None,
            i_send,
            at_sent: false,
            at_rcvd: false,
            det_sent: false,
            det_rcvd: false,
            dc: self.ep.model.init_dc,
            limit: None,
            q: VecDeque::new(),
            cur: None,
            pol,
            left: 0,
            part: None,
            grant_armed: false,
            granted_once: false,
        });
        st.sess[si].links.len() - 1
    }

    fn on_attach(&self, st: &mut St, si: usize, p: &Perf) {
        let name = p.str(0).unwrap_or_default().to_string();
        let peer_sends = !p.bool(2);
        let h = p.u32(1);
        let found = st.sess[si].links.iter().position(|l| {
            l.name == name && l.i_send != peer_sends && l.at_sent && !l.at_rcvd && !l.det_rcvd
        });
        let li = match found {
            Some(li) => {
                let l = &mut st.sess[si].links[li];
                l.their_h = h;
                l.at_rcvd = true;
                li
            }
            None => {
                let script = self
                    .sh
                    .l_hint
                    .borrow()
                    .get(&(self.conn.id, 1 - self.side, name.clone(), peer_sends))
                    .copied();
                let li = self.mk_link(st, si, &name, !peer_sends, script);
                {
                    let l = &mut st.sess[si].links[li];
                    l.their_h = h;
                    l.at_rcvd = true;
                }
                if st.sess[si].end_sent {
                    return;
                }
                let refuse = script.is_some_and(|l| self.sh.l_refuse.contains(&l))
                    || st.rng.pct(u32::from(self.ep.model.refuse_pct));
                st.sess[si].links[li].at_sent = true;
                let a = self.attach_perf(st, si, li, "addr", refuse);
                let ch = st.sess[si].my_ch;
                self.put(st, ch, a);
                if refuse {
                    let l = &mut st.sess[si].links[li];
                    l.det_sent = true;
                    let h = l.my_h;
                    self.put(
                        st,
                        ch,
                        Perf::new(
                            wire::DETACH,
                            vec![
                                V::Uint(h),
                                V::Bool(true),
                                wire::err("refused-by-model", Some("no")),
                            ],
                        ),
                    );
                    return;
                }
                li
            }
        };
        let l = &mut st.sess[si].links[li];
        if !l.i_send {
            l.dc = p.u32(9).unwrap_or(0);
            self.arm_grant(st, si, li, true);
        }
    }

    // ---- flow control --------------------------------------------------
    /// own flow frame; `li`: with link state
    fn flow(&self, st: &mut St, si: usize, li: Option<usize>, echo: bool) {
        if st.close_sent {
            return;
        }
        let s = &st.sess[si];
        if s.end_sent || !s.begin_sent {
            return;
        }
        let mut f = vec![
            if s.begin_rcvd { V::Uint(s.next_in) } else { V::Null },
            V::Uint(s.in_left),
            V::Uint(s.next_out),
            V::Uint(self.ep.model.out_window),
        ];
        if let Some(li) = li {
            let l = &s.links[li];
            if !l.at_sent || l.det_sent {
                return;
            }
            f.push(V::Uint(l.my_h));
            // known from the attach of the sender
            f.push(if l.i_send || l.at_rcvd { V::Uint(l.dc) } else { V::Null });
            f.push(V::Uint(if l.i_send {
                l.limit.map_or(0, |x| {
                    let d = x.wrapping_sub(l.dc);
                    if d > 1 << 31 { 0 } else { d }
                })
            } else {
                l.left
            }));
            f.push(if l.i_send { V::Uint(l.q.len() as u32) } else { V::Null });
            f.push(V::Null);
            f.push(if echo { V::Bool(true) } else { V::Null });
        } else if echo {
            f.extend([V::Null, V::Null, V::Null, V::Null, V::Null, V::Bool(true)]);
        }
        if self.values() {
            f.resize(10, V::Null);
            let x = st.rng.below(50);
            f.push(vals::extra(self.sh.scen.seed, 1 << 40 | x).2);
        }
        let s = &st.sess[si];
        let ch = s.my_ch;
        self.put(st, ch, Perf::new(wire::FLOW, f));
    }

    /// Credit for a link whose other end has not been attached yet
    fn early_credit(&self, st: &mut St, si: usize, li: usize) {
        for _ in 0..st.rng.range(1, 4) {
            let d = *st.rng.pick(&[0u64, 1000, 100_000, 1_000_000, 10_000_000]);
            let d = st.rng.range(0, d);
            let me = self.rc();
            self.sh.world.after(d, move || {
                let mut st = me.st.borrow_mut();
                let n = st.rng.below(4) as u32;
                let l = &mut st.sess[si].links[li];
                if !l.at_sent || l.at_rcvd || l.det_sent || l.det_rcvd {
                    return;
                }
                l.left = l.left.wrapping_add(n);
                me.sh.world.count("probe:early_credit");
                me.flow(&mut st, si, Some(li), false);
            });
        }
    }

    fn arm_grant(&self, st: &mut St, si: usize, li: usize, initial: bool) {
        let healed = st.healed;
        let l = &mut st.sess[si].links[li];
        if l.i_send || l.grant_armed || !live(l) {
            return;
        }
        let due = if healed {
            l.left < 200
        } else if initial && !l.granted_once {
            l.pol.grant > 0
        } else {
            l.left <= l.pol.regrant_at && l.pol.regrant > 0
        };
        if !due {
            return;
        }
        l.grant_armed = true;
        let (a, b) = if healed { (0, 100_000) } else { l.pol.delay };
        let d = st.rng.range(a, b);
        let me = self.rc();
        self.sh.world.after(d, move || {
            let mut st = me.st.borrow_mut();
            let healed = st.healed;
            let l = &mut st.sess[si].links[li];
            l.grant_armed = false;
            if !live(l) {
                return;
            }
            if healed {
                l.left = 1000;
            } else if l.granted_once {
                l.left = l.left.wrapping_add(l.pol.regrant);
            } else {
                l.left = l.left.max(l.pol.grant);
            }
            l.granted_once = true;
            let echo = me.ep.model.echo_pct;
            let echo = st.rng.pct(u32::from(echo));
            me.flow(&mut st, si, Some(li), echo);
        });
    }

    fn arm_window(&self, st: &mut St, si: usize, force: bool) {
        let healed = st.healed;
        let m = &self.ep.model;
        let s = &mut st.sess[si];
        if s.window_armed || !slive(s) {
            return;
        }
        let due = if healed { force || s.in_left < 500 } else { s.in_left <= m.rewindow_at };
        if !due {
            return;
        }
        s.window_armed = true;
        let (a, b) = if healed { (0, 100_000) } else { m.delay };
        let d = st.rng.range(a, b);
        let me = self.rc();
        self.sh.world.after(d, move || {
            let mut st = me.st.borrow_mut();
            let healed = st.healed;
            let s = &mut st.sess[si];
            s.window_armed = false;
            if !slive(s) {
                return;
            }
            s.in_left = if healed { 5000 } else { me.ep.model.in_window };
            let echo = me.ep.model.echo_pct;
            let echo = st.rng.pct(u32::from(echo));
            me.flow(&mut st, si, None, echo);
        });
    }

    fn on_flow(&self, st: &mut St, si: usize, p: &Perf) {
        let s = &mut st.sess[si];
        if let Some(w) = p.u32(1) {
            let flying = s.next_out.wrapping_sub(p.u32(0).unwrap_or(s.init_out));
            s.out_left = w.saturating_sub(flying);
        }
        let mut li = None;
        if let Some(h) = p.u32(4) {
            li = s.links.iter().position(|l| l.their_h == Some(h) && l.at_rcvd && !l.det_rcvd);
            let Some(li) = li else { return };
            let init_dc = self.ep.model.init_dc;
            let l = &mut s.links[li];
            if l.i_send {
                if let Some(c) = p.u32(6) {
                    l.limit = Some(p.u32(5).unwrap_or(init_dc).wrapping_add(c));
                }
            }
        }
        if p.bool(9) {
            self.flow(st, si, li, false);
        }
    }

    // ---- receiving -----------------------------------------------------
    fn on_transfer(&self, st: &mut St, si: usize, p: &Perf) {
        let now = self.sh.world.now();
        let Some(li) = self.link_by_their(st, si, p.u32(0)) else { return };
        {
            let s = &mut st.sess[si];
            s.next_in = s.next_in.wrapping_add(1);
            s.in_left = s.in_left.saturating_sub(1);
        }
        let mut rng = st.rng.clone();
        let s = &mut st.sess[si];
        let l = &mut s.links[li];
        if l.part.is_none() {
            let did = p.u32(1).unwrap_or(0);
            l.part = Some(did);
            l.dc = l.dc.wrapping_add(1);
            l.left = l.left.saturating_sub(1);
            if !p.bool(4) && live(l) {
                let tot: u32 = l.pol.mix.iter().map(|x| u32::from(*x)).sum();
                let hold = rng.below(u64::from(tot.max(1))) as u32 >= tot - u32::from(l.pol.mix[5]) - u32::from(l.pol.mix[4]);
                let ready_at = now + rng.range(l.pol.delay.0, l.pol.delay.1);
                let early = rng.pct(5);
                s.unsettled.insert(
                    did,
                    InDel {
                        link: li,
                        // may be decided before it is complete
                        ready_at: if early { now } else { ready_at },
                        hold,
                        said: None,
                        updated: false,
                    },
                );
            }
        }
        if !p.bool(5) {
            s.links[li].part = None;
        }
        st.rng = rng;
        self.arm_window(st, si, false);
        self.arm_grant(st, si, li, false);
        self.arm_settle(st, si);
        if st.rng.pct(u32::from(self.ep.model.flow_noise)) {
            let which = if st.rng.pct(50) { Some(li) } else { None };
            let echo = st.rng.pct(u32::from(self.ep.model.echo_pct));
            if slive(&st.sess[si]) {
                self.flow(st, si, which, echo);
            }
        }
    }

    fn arm_settle(&self, st: &mut St, si: usize) {
        let healed = st.healed;
        let s = &mut st.sess[si];
        if s.settle_armed || !slive(s) {
            return;
        }
        let next = s
            .unsettled
            .values()
            .filter(|d| healed || !d.hold)
            .map(|d| d.ready_at)
            .min();
        let Some(t) = next else { return };
        s.settle_armed = true;
        let d = st.rng.range(0, 200_000);
        let me = self.rc();
        self.sh.world.at(t.max(self.sh.world.now()) + d, move || {
            let mut st = me.st.borrow_mut();
            st.sess[si].settle_armed = false;
            me.settle(&mut st, si);
            me.arm_settle(&mut st, si);
        });
    }

    fn settle(&self, st: &mut St, si: usize) {
        let now = self.sh.world.now();
        let healed = st.healed;
        let mut rng = st.rng.clone();
        let s = &mut st.sess[si];
        if !slive(s) {
            return;
        }
        let ready: Vec<u32> = s
            .unsettled
            .iter()
            .filter(|(_, d)| (healed || !d.hold) && d.ready_at <= now)
            .map(|(k, _)| *k)
            .collect();
        if ready.is_empty() {
            return;
        }
        let pol = s.links[s.unsettled[&ready[0]].link].pol.clone();
        let first = if pol.shuffle { *rng.pick(&ready) } else { ready[0] };
        let said = s.unsettled[&first].said.clone();
        let mut last = first;
        let max = rng.range(1, u64::from(pol.batch.max(1))) as u32;
        while last.wrapping_sub(first) + 1 < max {
            let n = last.wrapping_add(1);
            if !ready.contains(&n) || s.unsettled[&n].said != said {
                break;
            }
            last = n;
        }
        let ids: Vec<u32> = (0..=last.wrapping_sub(first)).map(|i| first.wrapping_add(i)).collect();
        let w = &pol.mix;
        let x = rng.below(1000);
        let tot = u64::from(w[0]) + u64::from(w[1]) + u64::from(w[2]) + u64::from(w[3]);
        let mut k = rng.below(tot.max(1));
        let mut kind = 0;
        for (i, w) in w[..4].iter().enumerate() {
            if k < u64::from(*w) {
                kind = i;
                break;
            }
            k -= u64::from(*w);
        }
        let mk = |kind: usize| match kind {
            _ if self.values() => vals::state(self.sh.scen.seed, kind, x),
            0 => V::desc(wire::ACCEPTED, V::List(vec![])),
            1 => V::desc(
                wire::REJECTED,
                V::List(if x % 4 == 0 { vec![] } else { vec![wire::err(&format!("rej-{x}"), None)] }),
            ),
            2 => V::desc(wire::RELEASED, V::List(vec![])),
            3 => V::desc(
                wire::MODIFIED,
                V::List(match x % 3 {
                    0 => vec![V::Bool(true)],
                    1 => vec![V::Null, V::Bool(true)],
                    _ => vec![],
                }),
            ),
            _ => V::desc(wire::RECEIVED, V::List(vec![V::Uint((x % 5) as u32), V::Ulong(x)])),
        };
        let fresh = said.is_none();
        let (state, settled) = if fresh
            && !s.unsettled[&first].updated
            && rng.pct(u32::from(self.ep.rcv.update_pct))
        {
            for id in &ids {
                let again = now + rng.range(pol.delay.0, pol.delay.1);
                let d = s.unsettled.get_mut(id).unwrap();
                d.updated = true;
                d.ready_at = again;
            }
            (mk(4), false)
        } else if let Some(v) = said {
            (if rng.pct(50) { v } else { V::Null }, true)
        } else if rng.pct(4) {
            // settled, and not a word about how it ended
            (V::Null, true)
        } else if rng.pct(u32::from(pol.two_step_pct)) {
            let v = mk(kind);
            for id in &ids {
                let again = now + rng.range(pol.delay.0, pol.delay.1);
                let d = s.unsettled.get_mut(id).unwrap();
                d.said = Some(v.clone());
                d.ready_at = again;
            }
            (v, false)
        } else {
            (mk(kind), true)
        };
        if settled {
            for id in &ids {
                s.unsettled.remove(id);
            }
        }
        let f = vec![
            V::Bool(true),
            V::Uint(first),
            if last == first && rng.pct(60) { V::Null } else { V::Uint(last) },
            V::Bool(settled),
            state,
        ];
        if ids.len() > 1 {
            self.sh.world.count("probe:range_disposition");
            if last < first {
                self.sh.world.count("probe:range_wraps");
            }
        }
        let ch = s.my_ch;
        st.rng = rng;
        self.put(st, ch, Perf::new(wire::DISPOSITION, f));
    }

    fn on_disposition(&self, st: &mut St, si: usize, p: &Perf) {
        let first = p.u32(1).unwrap_or(0);
        let last = p.u32(2).unwrap_or(first);
        if !p.bool(0) {
            // the sender settles
            let n = last.wrapping_sub(first).min(1000);
            if p.bool(3) {
                for i in 0..=n {
                    st.sess[si].unsettled.remove(&first.wrapping_add(i));
                }
            }
        }
    }

    // ---- sending -------------------------------------------------------
    fn arm_pump(&self, st: &mut St) {
        if st.pump_armed || st.close_sent {
            return;
        }
        let any = st.sess.iter().any(|s| {
            slive(s) && s.links.iter().any(|l| l.i_send && live(l) && self.can_send(s, l))
        });
        if !any {
            return;
        }
        st.pump_armed = true;
        let (a, b) = self.ep.model.delay;
        let d = st.rng.range(a, b);
        let me = self.rc();
        self.sh.world.after(d, move || {
            let mut st = me.st.borrow_mut();
            st.pump_armed = false;
            let n = st.rng.range(1, 4);
            for _ in 0..n {
                me.pump(&mut st);
            }
            me.arm_pump(&mut st);
        });
    }

    fn can_send(&self, s: &Sess, l: &Link) -> bool {
        if s.out_left == 0 {
            return false;
        }
        if l.cur.is_some() {
            return true;
        }
        if l.q.is_empty() {
            return false;
        }
        if self.ep.model.over_credit {
            return true;
        }
        match l.limit {
            None => false,
            Some(x) => {
                let d = x.wrapping_sub(l.dc);
                d > 0 && d < 1 << 31
            }
        }
    }

    fn pump(&self, st: &mut St) {
        let mut c = vec![];
        for (si, s) in st.sess.iter().enumerate() {
            if !slive(s) {
                continue;
            }
            for (li, l) in s.links.iter().enumerate() {
                if l.i_send && live(l) && self.can_send(s, l) {
                    c.push((si, li));
                }
            }
        }
        if c.is_empty() || st.close_sent {
            return;
        }
        let (si, li) = *st.rng.pick(&c);
        let maxf = st.peer_max_frame;
        let m = &self.ep.model;
        let repeat = st.rng.pct(u32::from(m.repeat_pct));
        let rnd = st.rng.next();
        let vary = st.rng.pct(m.vary);
        let s = &mut st.sess[si];
        if s.links[li].cur.is_none() {
            let spec = s.links[li].q.pop_front().unwrap();
            let did = s.deliv_next;
            s.deliv_next = did.wrapping_add(1);
            s.links[li].dc = s.links[li].dc.wrapping_add(1);
            let body = if spec.msg {
                crate::tracker::msg_bytes(&self.sh.scen, spec.m, spec.len, &mut st.enc)
            } else {
                body_bytes(spec.m, spec.len)
            };
            let tag = spec.tag.clone().unwrap_or_else(|| spec.m.to_be_bytes().to_vec());
            s.links[li].cur = Some(Cur { spec, did, tag, body, off: 0, frames: 0 });
        }
        s.next_out = s.next_out.wrapping_add(1);
        s.out_left -= 1;
        let h = s.links[li].my_h;
        let cur = s.links[li].cur.as_mut().unwrap();
        let first = cur.frames == 0;
        let room = maxf.saturating_sub(120 + cur.tag.len()).max(1);
        let chunk = if m.split == 0 {
            room
        } else {
            (1 + (rnd % (2 * m.split as u64)) as usize).min(room)
        };
        // the number of frames of a delivery is bounded
        let chunk = chunk.max((cur.body.len() / 60).min(room));
        let rest = cur.body.len() - cur.off;
        let abort = cur.spec.abort && !first && (rnd % 3 == 0 || chunk >= rest);
        let n = if abort { 0 } else { chunk.min(rest) };
        let mut more = !abort && n < rest;
        if first && cur.spec.abort {
            more = true;
        }
        let id_fields = first || repeat;
        let mut p = Perf::new(
            wire::TRANSFER,
            vec![
                V::Uint(h),
                if id_fields { V::Uint(cur.did) } else { V::Null },
                if id_fields { V::Bin(cur.tag.clone()) } else { V::Null },
                if id_fields { cur.spec.format.map_or(V::Null, V::Uint) } else { V::Null },
                if cur.spec.settled && (id_fields || vary) {
                    V::Bool(true)
                } else if first && vary {
                    V::Bool(false)
                } else {
                    V::Null
                },
                // whether more would have followed says nothing about an aborted delivery
                if more || abort && rnd / 7 % 3 == 0 { V::Bool(true) } else { V::Null },
            ],
        );
        if abort {
            p.f.extend([V::Null, V::Null, V::Null, V::Bool(true)]);
        }
        p.payload = cur.body[cur.off..cur.off + n].to_vec();
        cur.off += n;
        cur.frames += 1;
        if !more {
            s.links[li].cur = None;
        }
        let ch = s.my_ch;
        self.put(st, ch, p);
    }

    // ---- scripted operations -------------------------------------------
    fn op(&self, k: OpK) {
        let mut st = self.st.borrow_mut();
        st.pending.push_back(k);
        self.retry(&mut st);
        self.arm_pump(&mut st);
        drop(st);
        self.on_data();
    }

    fn retry(&self, st: &mut St) {
        let mut i = 0;
        while i < st.pending.len() {
            let k = st.pending[i].clone();
            if self.try_op(st, &k) {
                st.pending.remove(i);
                i = 0;
            } else {
                i += 1;
            }
        }
    }

    fn find_link(&self, st: &St, l: usize) -> Option<(usize, usize)> {
        for (si, s) in st.sess.iter().enumerate().rev() {
            for (li, x) in s.links.iter().enumerate().rev() {
                if x.l == Some(l) {
                    return Some((si, li));
                }
            }
        }
        None
    }
    fn find_sess(&self, st: &mut St, s: usize) -> Option<usize> {
        if let Some(i) = st.sess.iter().rposition(|x| x.s == Some(s)) {
            return Some(i);
        }
        let (by, ch) = self.sh.hint(s)?;
        if by == self.side {
            return None;
        }
        let i = st.sess.iter().rposition(|x| x.their_ch == Some(ch) && x.s.is_none() && !x.end_rcvd)?;
        st.sess[i].s = Some(s);
        Some(i)
    }

    /// false: not yet possible
    fn try_op(&self, st: &mut St, k: &OpK) -> bool {
        match k {
            OpK::ReadStall { d } => {
                let t = self.sh.world.now() + d;
                if !st.healed {
                    st.stall_until = t.min(self.sh.scen.heal_at);
                    self.sh.world.count("fault:read_stall");
                }
                let me = self.rc();
                self.sh.world.at(t, move || me.on_data());
                return true;
            }
            OpK::Raw { bytes } => {
                self.raw(bytes);
                return true;
            }
            OpK::CloseConn { .. } | OpK::ForceClose => {
                if matches!(k, OpK::ForceClose) {
                    self.conn.pipes[self.side].close_write();
                    self.conn.pipes[1 - self.side].close_read();
                    st.close_sent = true;
                    return true;
                }
            }
            _ => {}
        }
        if !(st.open_rcvd && st.open_sent) {
            return false;
        }
        if st.close_sent {
            return true;
        }
        match k {
            OpK::Empty => {
                let b = wire::build(&mut st.enc, false, 0, None);
                self.raw(&b);
                true
            }
            OpK::CloseConn { err } => {
                let f = err.as_ref().map(|c| self.err(c, Some("bye"))).into_iter().collect();
                self.put(st, 0, Perf::new(wire::CLOSE, f));
                st.close_sent = true;
                true
            }
            OpK::Begin { s } => {
                let Some(ch) = self.new_ch(st) else { return true };
                let mut x = self.new_sess(ch);
                x.s = Some(*s);
                st.sess.push(x);
                let si = st.sess.len() - 1;
                self.sh.set_hint(*s, self.side, ch);
                self.send_begin(st, si, None);
                true
            }
            OpK::BeginOver { by } => {
                let ch = u32::from(st.peer_ch_max) + 1 + by;
                let Ok(ch) = u16::try_from(ch) else { return true };
                self.sh.world.count("fault:begin_out_of_range");
                let x = self.new_sess(ch);
                st.sess.push(x);
                let si = st.sess.len() - 1;
                self.send_begin(st, si, None);
                true
            }
            OpK::Attach { s, l, name, sender, addr, .. } => {
                let Some(si) = self.find_sess(st, *s) else { return false };
                if st.sess[si].end_sent || st.sess[si].end_rcvd {
                    return true;
                }
                // a name in use has to wait
                if st.sess[si].links.iter().any(|x| {
                    x.name == *name && x.i_send == *sender && !(x.det_sent && x.det_rcvd)
                }) && !self.sh.scen.flag("dup-names")
                {
                    return false;
                }
                if !st.sess[si].begin_rcvd && st.rng.pct(50) {
                    return false;
                }
                self.sh.l_hint.borrow_mut().insert((self.conn.id, self.side, name.clone(), *sender), *l);
                let li = self.mk_link(st, si, name, *sender, Some(*l));
                st.sess[si].links[li].at_sent = true;
                let a = self.attach_perf(st, si, li, addr, false);
                let ch = st.sess[si].my_ch;
                self.put(st, ch, a);
                if !*sender && st.rng.pct(40) {
                    self.early_credit(st, si, li);
                }
                true
            }
            OpK::End { s, err } => {
                let Some(si) = self.find_sess(st, *s) else { return false };
                let x = &mut st.sess[si];
                if x.end_sent || !x.begin_sent {
                    return true;
                }
                if !x.begin_rcvd {
                    return false;
                }
                x.end_sent = true;
                let ch = x.my_ch;
                let f = err.as_ref().map(|c| self.err(c, None)).into_iter().collect();
                self.put(st, ch, Perf::new(wire::END, f));
                true
            }
            OpK::Window { s, n } => {
                let Some(si) = self.find_sess(st, *s) else { return false };
                if !st.sess[si].begin_sent {
                    return false;
                }
                if st.healed {
                    return true;
                }
                st.sess[si].in_left = *n;
                self.flow(st, si, None, false);
                true
            }
            OpK::Echo { s, l } => {
                let Some(si) = self.find_sess(st, *s) else { return false };
                let li = match l {
                    None => None,
                    Some(l) => match self.find_link(st, *l) {
                        Some((a, li)) if a == si => {
                            if !st.sess[si].links[li].at_rcvd {
                                return false;
                            }
                            if !live(&st.sess[si].links[li]) {
                                return true;
                            }
                            Some(li)
                        }
                        Some(_) => return true,
                        None => return false,
                    },
                };
                if slive(&st.sess[si]) {
                    self.flow(st, si, li, true);
                    return true;
                }
                st.sess[si].end_sent || st.sess[si].end_rcvd
            }
            OpK::Disp { s, role_receiver, first, last, settled, state } => {
                let Some(si) = self.find_sess(st, *s) else { return false };
                if !slive(&st.sess[si]) {
                    return true;
                }
                let v = match state {
                    0 => V::desc(wire::ACCEPTED, V::List(vec![])),
                    1 => V::desc(wire::RELEASED, V::List(vec![])),
                    2 => V::desc(wire::RECEIVED, V::List(vec![V::Uint(1), V::Ulong(2)])),
                    _ => V::Null,
                };
                let ch = st.sess[si].my_ch;
                self.put(
                    st,
                    ch,
                    Perf::new(
                        wire::DISPOSITION,
                        vec![
                            V::Bool(*role_receiver),
                            V::Uint(*first),
                            last.map_or(V::Null, V::Uint),
                            V::Bool(*settled),
                            v,
                        ],
                    ),
                );
                true
            }
            OpK::Send { l, .. }
            | OpK::Credit { l, .. }
            | OpK::Grant { l, .. }
            | OpK::Detach { l, .. }
            | OpK::CloseLink { l, .. } => {
                let Some((si, li)) = self.find_link(st, *l) else { return false };
                let gone = {
                    let s = &st.sess[si];
                    let x = &s.links[li];
                    s.end_sent || s.end_rcvd || x.det_sent || x.det_rcvd
                };
                if gone {
                    return true;
                }
                match k {
                    OpK::Send { spec, .. } => {
                        if st.sess[si].links[li].i_send {
                            st.sess[si].links[li].q.push_back(spec.clone());
                        }
                        true
                    }
                    OpK::Credit { n, .. } | OpK::Grant { n, .. } => {
                        let x = &mut st.sess[si].links[li];
                        if x.i_send || st.healed {
                            return true;
                        }
                        if !live(x) {
                            return false;
                        }
                        if matches!(k, OpK::Credit { .. }) {
                            x.left = *n;
                        } else {
                            x.left = x.left.wrapping_add(*n);
                        }
                        x.granted_once = true;
                        self.flow(st, si, Some(li), false);
                        true
                    }
                    OpK::Detach { .. } | OpK::CloseLink { .. } if !st.sess[si].links[li].at_sent => false,
                    OpK::Detach { closed, err, .. } => {
                        self.detach(st, si, li, *closed, err.as_deref());
                        true
                    }
                    OpK::CloseLink { err, .. } => {
                        self.detach(st, si, li, true, err.as_deref());
                        true
                    }
                    _ => true,
                }
            }
            _ => true,
        }
    }

    fn detach(&self, st: &mut St, si: usize, li: usize, closed: bool, err: Option<&str>) {
        let s = &mut st.sess[si];
        let x = &mut s.links[li];
        x.det_sent = true;
        let mut f = vec![V::Uint(x.my_h), V::Bool(closed)];
        if let Some(c) = err {
            f.push(self.err(c, Some("detached")));
        }
        s.unsettled.retain(|_, d| d.link != li);
        let ch = s.my_ch;
        self.put(st, ch, Perf::new(wire::DETACH, f));
    }
}
