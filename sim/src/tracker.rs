//! Reconstructs sessions, links, deliveries from the frames on the wire, both directions,
//! with no reference to the code under test.
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

use crate::hist::{AppEv, Body, Call, Ev, EvK, OpId, Ret};
use crate::scen::Scenario;
use crate::wire::{self, Dec, Enc, Frame, Item, Perf, V};

#[derive(Clone, Copy, Debug)]
pub struct Fr {
    /// position of the write in the history
    pub seq: usize,
    pub t: u64,
    /// position of the complete read by the other side
    pub read: usize,
}
pub const NEVER: usize = usize::MAX;

pub struct TConn {
    pub id: usize,
    pub proto: [Vec<[u8; 4]>; 2],
    pub open: [Option<(Fr, Perf)>; 2],
    pub close: [Option<(Fr, Perf)>; 2],
    pub cut: [Option<usize>; 2],
    pub io_closed: [Option<usize>; 2],
    /// where the peer went over its channels
    pub refused: std::cell::Cell<usize>,
    pub bad: [Option<(usize, String)>; 2],
    /// settled marks per side
    pub marks: [Vec<usize>; 2],
    pub cur_sess: [HashMap<u16, usize>; 2],
    pub frames: [usize; 2],
}

pub struct TSess {
    pub conn: usize,
    pub ch: [Option<u16>; 2],
    pub begin: [Option<(Fr, Perf)>; 2],
    pub end: [Option<(Fr, Perf)>; 2],
    /// transfer frames written by each side: positions
    pub transfers: [Vec<Fr>; 2],
    pub flows: Vec<TFlow>,
    pub disps: Vec<TDisp>,
    pub links: Vec<usize>,
    pub cur_link: [HashMap<u32, usize>; 2],
    /// delivery ids in use: (sender side, id) -> (link, index)
    pub dels: HashMap<(usize, u32), (usize, usize)>,
    pub last_did: [Option<u32>; 2],
}

pub struct TFlow {
    pub from: usize,
    pub fr: Fr,
    pub p: Perf,
    pub link: Option<usize>,
    /// transfer frames written by `from` before
    pub tx_before: usize,
    /// deliveries started by `from` on the link before
    pub del_before: usize,
}

pub struct TDisp {
    pub from: usize,
    pub fr: Fr,
    pub receiver: bool,
    pub first: u32,
    pub last: u32,
    pub settled: bool,
    pub state: V,
}
impl TDisp {
    pub fn covers(&self, id: u32) -> bool {
        id.wrapping_sub(self.first) <= self.last.wrapping_sub(self.first)
    }
}

pub struct TLink {
    pub conn: usize,
    pub sess: usize,
    pub name: String,
    pub sender: usize,
    pub h: [Option<u32>; 2],
    pub attach: [Option<(Fr, Perf)>; 2],
    pub detach: [Option<(Fr, Perf)>; 2],
    pub dels: Vec<TDel>,
    pub first_by: usize,
}

pub struct TDel {
    pub id: u32,
    pub tag: Vec<u8>,
    pub format: Option<u32>,
    pub settled: bool,
    pub payload: Vec<u8>,
    pub frames: Vec<Fr>,
    pub complete: bool,
    pub aborted: bool,
}

pub struct OpRec {
    pub op: OpId,
    pub conn: usize,
    pub side: usize,
    pub call: usize,
    pub t: u64,
    pub c: Call,
    pub ret: Option<(usize, u64, Ret)>,
}

pub struct LinkApi {
    pub lid: usize,
    pub seq: usize,
    pub conn: usize,
    pub side: usize,
    pub sid: usize,
    pub name: String,
    pub sender: bool,
    pub local: bool,
    pub handle: u32,
    pub link: Option<usize>,
}

pub struct SessApi {
    pub sid: usize,
    pub seq: usize,
    pub conn: usize,
    pub side: usize,
    pub sess: Option<usize>,
}

#[derive(Debug, Clone)]
pub struct Problem {
    pub conn: usize,
    pub side: usize,
    pub seq: usize,
    pub msg: String,
}

pub struct Tr<'a> {
    pub evs: &'a [Ev],
    pub conns: Vec<TConn>,
    pub sess: Vec<TSess>,
    pub links: Vec<TLink>,
    pub ops: Vec<OpRec>,
    pub op_ix: HashMap<OpId, usize>,
    pub lapi: BTreeMap<usize, LinkApi>,
    pub sapi: BTreeMap<usize, SessApi>,
    /// breaches of the conversation rules (C13), by the writing side
    pub problems: Vec<Problem>,
    /// frame seq -> (session, link)
    pub at: HashMap<usize, (Option<usize>, Option<usize>)>,
    pub heal: usize,
    pub end: usize,
    pub sizes: Vec<(usize, usize, usize, usize)>,
    /// control call announcing a remotely attached link -> link
    pub ctl_link: BTreeMap<usize, usize>,
    /// link object of the application -> link
    pub lnks: BTreeMap<usize, usize>,
}

impl<'a> Tr<'a> {
    pub fn new(evs: &'a [Ev]) -> Tr<'a> {
        let mut reads: HashMap<(usize, usize, usize), usize> = HashMap::new();
        for e in evs {
            if let EvK::Read { conn, from, fi } = &e.k {
                reads.insert((*conn, *from, *fi), e.seq);
            }
        }
        let mut t = Tr {
            evs,
            conns: vec![],
            sess: vec![],
            links: vec![],
            ops: vec![],
            op_ix: HashMap::new(),
            lapi: BTreeMap::new(),
            sapi: BTreeMap::new(),
            problems: vec![],
            at: HashMap::new(),
            heal: NEVER,
            end: evs.len(),
            sizes: vec![],
            ctl_link: BTreeMap::new(),
            lnks: BTreeMap::new(),
        };
        for e in evs {
            t.ev(e, &reads);
        }
        t
    }

    fn conn(&mut self, id: usize) -> usize {
        if let Some(i) = self.conns.iter().position(|c| c.id == id) {
            return i;
        }
        self.conns.push(TConn {
            id,
            proto: [vec![], vec![]],
            open: [None, None],
            close: [None, None],
            cut: [None, None],
            io_closed: [None, None],
            refused: std::cell::Cell::new(NEVER),
            bad: [None, None],
            marks: [vec![], vec![]],
            cur_sess: [HashMap::new(), HashMap::new()],
            frames: [0, 0],
        });
        self.conns.len() - 1
    }

    fn bad(&mut self, conn: usize, side: usize, seq: usize, msg: impl Into<String>) {
        self.problems.push(Problem { conn, side, seq, msg: msg.into() });
    }

    fn ev(&mut self, e: &Ev, reads: &HashMap<(usize, usize, usize), usize>) {
        match &e.k {
            EvK::Wire { conn, from, fi, item } => {
                let c = self.conn(*conn);
                let fr = Fr {
                    seq: e.seq,
                    t: e.t,
                    read: reads.get(&(*conn, *from, *fi)).copied().unwrap_or(NEVER),
                };
                self.item(c, *from, fr, item);
            }
            EvK::Cut { conn, from, .. } => {
                let c = self.conn(*conn);
                self.conns[c].cut[*from].get_or_insert(e.seq);
            }
            EvK::IoClosed { conn, side } => {
                let c = self.conn(*conn);
                self.conns[c].io_closed[*side].get_or_insert(e.seq);
            }
            EvK::Settled { conn, side } => {
                let c = self.conn(*conn);
                self.conns[c].marks[*side].push(e.seq);
            }
            EvK::Call { conn, side, op, c } => {
                self.op_ix.insert(*op, self.ops.len());
                self.ops.push(OpRec {
                    op: *op,
                    conn: *conn,
                    side: *side,
                    call: e.seq,
                    t: e.t,
                    c: c.clone(),
                    ret: None,
                });
            }
            EvK::Ret { op, r, .. } => {
                if let Some(i) = self.op_ix.get(op) {
                    self.ops[*i].ret = Some((e.seq, e.t, r.clone()));
                }
            }
            EvK::App { conn, side, e: a } => match a {
                AppEv::Ctl { id, kind, ch: Some(ch), rhandle: Some(rh), sid, lnk: Some(lnk), .. }
                    if matches!(*kind, "AttachReceiver" | "AttachSender") =>
                {
                    let _ = (conn, ch);
                    let snd = if *kind == "AttachSender" { *side } else { 1 - *side };
                    let si = sid.and_then(|sid| self.sapi.get(&sid)).and_then(|s| s.sess);
                    // answers come in order: the first one not announced yet
                    if let Some(si) = si {
                        let l = self.sess[si].links.iter().copied().find(|l| {
                            let k = &self.links[*l];
                            k.sender == snd
                                && k.first_by != *side
                                && k.h[1 - *side] == Some(*rh)
                                && k.attach[1 - *side].as_ref().is_some_and(|a| a.0.read < e.seq)
                                && !self.ctl_link.values().any(|x| x == l)
                        });
                        if let Some(l) = l {
                            self.ctl_link.insert(*id, l);
                            self.lnks.insert(*lnk, l);
                        }
                    }
                }
                AppEv::SessionUp { sid, ch, rch, .. } => {
                    let c = self.conn(*conn);
                    // its own begin may be not written yet, or the session may have ended already
                    let sess = self.sess.iter().rposition(|s| {
                        s.conn == c
                            && s.ch[1 - *side] == Some(*rch)
                            && (s.ch[*side].is_none() || s.ch[*side] == Some(*ch))
                    });
                    self.sapi.insert(
                        *sid,
                        SessApi { sid: *sid, seq: e.seq, conn: c, side: *side, sess },
                    );
                }
                AppEv::LinkUp { lid, sid, handle, rhandle, name, sender, local, lnk, .. } => {
                    let c = self.conn(*conn);
                    let si = self.sapi.get(sid).and_then(|s| s.sess);
                    let snd = if *sender { *side } else { 1 - *side };
                    let link = self.lnks.get(lnk).copied().or_else(|| si.and_then(|si| {
                        self.sess[si].links.iter().rev().copied().find(|l| {
                            let l = &self.links[*l];
                            l.sender == snd
                                && if *local {
                                    l.h[*side] == Some(*handle) && l.name == *name
                                } else {
                                    l.h[1 - *side] == Some(*rhandle)
                                }
                        })
                    }));
                    if let Some(l) = link {
                        self.lnks.insert(*lnk, l);
                    }
                    self.lapi.insert(
                        *lid,
                        LinkApi {
                            lid: *lid,
                            seq: e.seq,
                            conn: c,
                            side: *side,
                            sid: *sid,
                            name: name.clone(),
                            sender: *sender,
                            local: *local,
                            handle: *handle,
                            link,
                        },
                    );
                }
                _ => {}
            },
            EvK::Heal => self.heal = e.seq,
            EvK::End => self.end = e.seq,
            _ => {}
        }
    }

    fn item(&mut self, c: usize, from: usize, fr: Fr, item: &Rc<Item>) {
        match &**item {
            Item::Proto(p) => self.conns[c].proto[from].push(*p),
            Item::Bad(e) => {
                self.conns[c].bad[from] = Some((fr.seq, e.clone()));
                self.bad(c, from, fr.seq, format!("malformed output: {e}"));
            }
            Item::Frame(f) => {
                self.conns[c].frames[from] += 1;
                if !f.sasl {
                    self.frame(c, from, fr, f);
                }
            }
        }
    }

    fn frame(&mut self, c: usize, x: usize, fr: Fr, f: &Frame) {
        let y = 1 - x;
        self.sizes.push((c, x, fr.seq, f.size));
        if self.conns[c].close[x].is_some() {
            self.bad(c, x, fr.seq, format!("frame after close: {}", wire::brief(&Item::Frame(f.clone()))));
            return;
        }
        let Some(p) = &f.perf else { return };
        if self.conns[c].open[x].is_none() && p.code != wire::OPEN {
            self.bad(c, x, fr.seq, format!("{} before open", wire::name_of(p.code)));
            if p.code == wire::CLOSE {
                self.conns[c].close[x] = Some((fr, p.clone()));
            }
            return;
        }
        match p.code {
            wire::OPEN => {
                if self.conns[c].open[x].is_some() {
                    self.bad(c, x, fr.seq, "second open");
                    return;
                }
                if f.channel != 0 {
                    self.bad(c, x, fr.seq, format!("open on channel {}", f.channel));
                }
                self.conns[c].open[x] = Some((fr, p.clone()));
            }
            wire::CLOSE => {
                if f.channel != 0 {
                    self.bad(c, x, fr.seq, format!("close on channel {}", f.channel));
                }
                self.conns[c].close[x] = Some((fr, p.clone()));
            }
            wire::BEGIN => self.begin(c, x, fr, f.channel, p),
            _ => {
                let Some(si) = self.conns[c].cur_sess[x].get(&f.channel).copied() else {
                    self.bad(
                        c,
                        x,
                        fr.seq,
                        format!("{} on channel {} which is not in use", wire::name_of(p.code), f.channel),
                    );
                    return;
                };
                self.at.insert(fr.seq, (Some(si), None));
                match p.code {
                    wire::END => {
                        self.sess[si].end[x] = Some((fr, p.clone()));
                        self.conns[c].cur_sess[x].remove(&f.channel);
                    }
                    wire::ATTACH => self.attach(c, x, fr, si, p),
                    wire::DETACH => {
                        let h = p.u32(0).unwrap_or(0);
                        match self.sess[si].cur_link[x].remove(&h) {
                            None => self.bad(c, x, fr.seq, format!("detach of handle {h} which is not attached")),
                            Some(l) => {
                                self.links[l].detach[x] = Some((fr, p.clone()));
                                self.at.insert(fr.seq, (Some(si), Some(l)));
                            }
                        }
                    }
                    wire::FLOW => {
                        let mut link = None;
                        if let Some(h) = p.u32(4) {
                            link = self.sess[si].cur_link[x].get(&h).copied();
                            if link.is_none() {
                                self.bad(c, x, fr.seq, format!("flow for handle {h} which is not attached"));
                            }
                        } else if (5..=8).any(|i| !p.get(i).is_null() && *p.get(i) != V::Bool(false)) {
                            self.bad(c, x, fr.seq, "link flow fields without a handle");
                        }
                        let begun = self.sess[si].begin[y].as_ref().map(|b| b.0.read);
                        if p.u32(0).is_none() && begun.is_some_and(|r| r < fr.seq) {
                            self.bad(c, x, fr.seq, "flow without next-incoming-id although the begin was received");
                        }
                        let s = &self.sess[si];
                        let tx_before = s.transfers[x].len();
                        let del_before = link.map_or(0, |l| self.links[l].dels.len());
                        self.at.insert(fr.seq, (Some(si), link));
                        self.sess[si].flows.push(TFlow {
                            from: x,
                            fr,
                            p: p.clone(),
                            link,
                            tx_before,
                            del_before,
                        });
                    }
                    wire::TRANSFER => self.transfer(c, x, fr, si, p),
                    wire::DISPOSITION => {
                        let first = p.u32(1).unwrap_or(0);
                        let d = TDisp {
                            from: x,
                            fr,
                            receiver: p.bool(0),
                            first,
                            last: p.u32(2).unwrap_or(first),
                            settled: p.bool(3),
                            state: p.get(4).clone(),
                        };
                        let snd = if d.receiver { y } else { x };
                        let n = d.last.wrapping_sub(d.first);
                        if n > 100_000 {
                            self.bad(c, x, fr.seq, format!("disposition covers {n} deliveries"));
                        } else {
                            for i in 0..=n {
                                let id = d.first.wrapping_add(i);
                                if !self.sess[si].dels.contains_key(&(snd, id)) {
                                    self.bad(
                                        c,
                                        x,
                                        fr.seq,
                                        format!("disposition about delivery {id} that does not exist"),
                                    );
                                    break;
                                }
                            }
                        }
                        self.sess[si].disps.push(d);
                    }
                    _ => {}
                }
            }
        }
    }

    fn begin(&mut self, c: usize, x: usize, fr: Fr, ch: u16, p: &Perf) {
        let y = 1 - x;
        if self.conns[c].cur_sess[x].contains_key(&ch) {
            self.bad(c, x, fr.seq, format!("begin on channel {ch} which is in use"));
        }
        let si = if let Some(rc) = p.get(0).as_u64() {
            let s = self.sess.iter().rposition(|s| {
                s.conn == c && s.ch[y].map(u64::from) == Some(rc) && s.begin[y].is_some() && s.begin[x].is_none()
            });
            match s {
                Some(si) => {
                    if self.sess[si].begin[y].as_ref().unwrap().0.read > fr.seq {
                        self.bad(c, x, fr.seq, "answer to a begin that has not arrived");
                    }
                    si
                }
                None => {
                    self.bad(
                        c,
                        x,
                        fr.seq,
                        format!("begin answers channel {rc} where there is nothing to answer"),
                    );
                    self.push_sess(c)
                }
            }
        } else {
            self.push_sess(c)
        };
        self.at.insert(fr.seq, (Some(si), None));
        let s = &mut self.sess[si];
        s.ch[x] = Some(ch);
        s.begin[x] = Some((fr, p.clone()));
        self.conns[c].cur_sess[x].insert(ch, si);
    }

    fn push_sess(&mut self, c: usize) -> usize {
        self.sess.push(TSess {
            conn: c,
            ch: [None, None],
            begin: [None, None],
            end: [None, None],
            transfers: [vec![], vec![]],
            flows: vec![],
            disps: vec![],
            links: vec![],
            cur_link: [HashMap::new(), HashMap::new()],
            dels: HashMap::new(),
            last_did: [None, None],
        });
        self.sess.len() - 1
    }

    fn attach(&mut self, c: usize, x: usize, fr: Fr, si: usize, p: &Perf) {
        let y = 1 - x;
        let name = p.str(0).unwrap_or_default().to_string();
        let h = p.u32(1).unwrap_or(0);
        let sender = if p.bool(2) { y } else { x };
        if self.sess[si].cur_link[x].contains_key(&h) {
            self.bad(c, x, fr.seq, format!("attach with handle {h} which is in use"));
        }
        if sender == x && p.u32(9).is_none() {
            self.bad(c, x, fr.seq, "sender's attach without initial-delivery-count");
        }
        let dup = self.sess[si].cur_link[x]
            .values()
            .any(|l| self.links[*l].name == name && self.links[*l].sender == sender);
        if dup {
            self.bad(c, x, fr.seq, format!("attach of link name {name:?} which is attached already"));
        }
        // answers come in the order of what they answer
        let found = self.sess[si].links.iter().copied().find(|l| {
            let l = &self.links[*l];
            l.name == name && l.sender == sender && l.attach[y].is_some() && l.attach[x].is_none()
        });
        let li = match found {
            Some(l) => l,
            None => {
                self.links.push(TLink {
                    conn: c,
                    sess: si,
                    name: name.clone(),
                    sender,
                    h: [None, None],
                    attach: [None, None],
                    detach: [None, None],
                    dels: vec![],
                    first_by: x,
                });
                let l = self.links.len() - 1;
                self.sess[si].links.push(l);
                l
            }
        };
        self.at.insert(fr.seq, (Some(si), Some(li)));
        let l = &mut self.links[li];
        l.h[x] = Some(h);
        l.attach[x] = Some((fr, p.clone()));
        self.sess[si].cur_link[x].insert(h, li);
    }

    fn transfer(&mut self, c: usize, x: usize, fr: Fr, si: usize, p: &Perf) {
        let y = 1 - x;
        self.sess[si].transfers[x].push(fr);
        let h = p.u32(0).unwrap_or(0);
        let Some(li) = self.sess[si].cur_link[x].get(&h).copied() else {
            self.bad(c, x, fr.seq, format!("transfer on handle {h} which is not attached"));
            return;
        };
        self.at.insert(fr.seq, (Some(si), Some(li)));
        if self.links[li].sender != x {
            self.bad(c, x, fr.seq, "transfer by the receiver of the link");
            return;
        }
        if self.links[li].attach[y].as_ref().is_none_or(|a| a.0.read > fr.seq) {
            self.bad(c, x, fr.seq, "transfer before the peer's attach was received");
        }
        let more = p.bool(5);
        let aborted = p.bool(9);
        let partial = self.links[li].dels.last().is_some_and(|d| !d.complete);
        let mut msgs: Vec<String> = vec![];
        if partial {
            let d = self.links[li].dels.last_mut().unwrap();
            if p.u32(1).is_some_and(|i| i != d.id) {
                msgs.push(format!("delivery {:?} starts inside delivery {}", p.u32(1), d.id));
            }
            if p.get(2).as_bin().is_some_and(|t| t != d.tag) {
                msgs.push("delivery tag changes inside a delivery".into());
            }
            if p.get(3).as_u32().is_some_and(|t| Some(t) != d.format) {
                msgs.push("message format changes inside a delivery".into());
            }
            d.settled |= p.bool(4);
            d.payload.extend_from_slice(&p.payload);
            d.frames.push(fr);
            d.complete = !more || aborted;
            d.aborted = aborted;
        } else {
            let id = match p.u32(1) {
                Some(i) => i,
                None => {
                    msgs.push("first transfer of a delivery without delivery-id".into());
                    0
                }
            };
            let tag = match p.get(2).as_bin() {
                Some(t) => t.to_vec(),
                None => {
                    msgs.push("first transfer of a delivery without delivery-tag".into());
                    vec![]
                }
            };
            if tag.len() > 32 {
                msgs.push(format!("delivery tag of {} bytes", tag.len()));
            }
            if let Some(l) = self.sess[si].last_did[x]
                && id != l.wrapping_add(1)
            {
                msgs.push(format!("delivery-id {id} after {l} on the session"));
            }
            self.sess[si].last_did[x] = Some(id);
            let n = self.links[li].dels.len();
            // unsettled deliveries of the link must have distinct tags
            for (k, d) in self.links[li].dels.iter().enumerate() {
                let _ = k;
                if d.tag == tag && !d.settled && !d.aborted {
                    let done = self.sess[si].disps.iter().any(|q| q.settled && q.receiver == (q.from != x) && q.covers(d.id));
                    if !done {
                        msgs.push(format!("tag of delivery {id} is in use by unsettled delivery {}", d.id));
                        break;
                    }
                }
            }
            self.sess[si].dels.insert((x, id), (li, n));
            self.links[li].dels.push(TDel {
                id,
                tag,
                format: p.u32(3),
                settled: p.bool(4),
                payload: p.payload.clone(),
                frames: vec![fr],
                complete: !more || aborted,
                aborted,
            });
        }
        for m in msgs {
            self.bad(c, x, fr.seq, m);
        }
    }

    // ---- helpers -------------------------------------------------------
    /// certainly processed by `side` before `seq`
    pub fn processed(&self, conn: usize, side: usize, fr: &Fr, seq: usize) -> bool {
        if fr.read >= seq {
            return false;
        }
        let m = &self.conns[conn].marks[side];
        let i = m.partition_point(|x| *x <= fr.read);
        m.get(i).is_some_and(|x| *x < seq)
    }
    /// first settled mark of `side` after `seq`
    pub fn mark_after(&self, conn: usize, side: usize, seq: usize) -> Option<usize> {
        let m = &self.conns[conn].marks[side];
        let i = m.partition_point(|x| *x <= seq);
        m.get(i).copied()
    }
    pub fn time(&self, seq: usize) -> u64 {
        self.evs[seq.min(self.evs.len() - 1)].t
    }
    /// first position at which anything about the end of the connection happened
    pub fn conn_down(&self, c: usize) -> usize {
        let k = &self.conns[c];
        let mut m = k.refused.get();
        for s in 0..2 {
            if let Some(x) = &k.close[s] {
                m = m.min(x.0.seq);
            }
            for y in [k.cut[s], k.io_closed[s]].into_iter().flatten() {
                m = m.min(y);
            }
        }
        for o in &self.ops {
            if o.conn == k.id && matches!(o.c, Call::CloseConn | Call::ForceClose) {
                m = m.min(o.call);
            }
        }
        m
    }
    pub fn sess_down(&self, si: usize) -> usize {
        let s = &self.sess[si];
        let mut m = self.conn_down(s.conn);
        for x in s.end.iter().flatten() {
            m = m.min(x.0.seq);
        }
        for o in &self.ops {
            if let Call::End { sid } = o.c
                && self.sapi.get(&sid).and_then(|a| a.sess) == Some(si)
            {
                m = m.min(o.call);
            }
        }
        m
    }
    pub fn link_down(&self, li: usize) -> usize {
        let l = &self.links[li];
        let mut m = self.sess_down(l.sess);
        for x in l.detach.iter().flatten() {
            m = m.min(x.0.seq);
        }
        for o in &self.ops {
            if let Call::CloseLink { lid } | Call::DetachLink { lid } = o.c
                && self.lapi.get(&lid).and_then(|a| a.link) == Some(li)
            {
                m = m.min(o.call);
            }
        }
        m
    }
}

/// bytes of the standard structured message
pub fn msg_bytes(scen: &Scenario, m: u64, len: usize, enc: &mut Enc) -> Vec<u8> {
    let (_, b) = crate::node::make_body(scen, m, len, true);
    let Body::Msg(s) = b else { unreachable!() };
    let mut o = vec![];
    let mut c = Enc::compact();
    let e = if scen.flag("values") { enc } else { &mut c };
    for v in s.iter() {
        e.value(v, &mut o);
    }
    o
}

pub fn body_matches(b: &Body, payload: &[u8], complete: bool) -> bool {
    match b {
        Body::Raw(v) => {
            if complete {
                v.as_slice() == payload
            } else {
                v.starts_with(payload)
            }
        }
        Body::Msg(s) => {
            if !complete {
                return true;
            }
            let mut d = Dec::new(payload);
            for want in s.iter() {
                match d.value() {
                    Ok(v) => {
                        if !trim(&v).same(want) && !crate::vals::equal(&v, want) {
                            return false;
                        }
                    }
                    Err(_) => return false,
                }
            }
            d.b.is_empty()
        }
    }
}

/// described lists without trailing nulls
pub fn trim(v: &V) -> V {
    match v {
        V::Desc(d, x) => match &**x {
            V::List(l) => {
                let mut l = l.clone();
                while l.last().is_some_and(V::is_null) {
                    l.pop();
                }
                V::Desc(d.clone(), Box::new(V::List(l)))
            }
            _ => v.clone(),
        },
        v => v.clone(),
    }
}
