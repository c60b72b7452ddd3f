//! A real endpoint (client or server) driven by a script.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::future::poll_fn;
use std::rc::Rc;
use std::task::{Poll, Waker};

use ntex_amqp::codec::protocol::{
    self, Accepted, DeliveryState, Error as AError, ErrorCondition, Modified, Received, Rejected,
    Released, TransferBody,
};
use ntex_amqp::codec::{AmqpFrame, Message};
use ntex_amqp::error::{AmqpProtocolError, LinkError};
use ntex_amqp::{
    AmqpServiceConfig, ConnectionRef, ControlFrame, ControlFrameKind, Delivery, ReceiverLink,
    SenderLink, Session, State, client, server, types,
};
use ntex_bytes::{ByteString, Bytes};
use ntex_io::{Io, IoConfig};
use ntex_service::cfg::SharedCfg;
use ntex_service::{ServiceFactory, fn_factory_with_config, fn_service};
use ntex_util::time::Seconds;

use crate::hist::{AppEv, Body, Call, EvK, OpId, Ret};
use crate::net::Conn;
use crate::rng::{Rng, mix};
use crate::scen::{After, EpCfg, Op, OpK, RcvPol, Scenario, SendSpec};
use crate::vals;
use crate::sim::{self, World, sleep, sleep_until, within};
use crate::wire::{V};

/// State shared by all endpoints of a run.
pub struct Shared {
    pub scen: Rc<Scenario>,
    pub world: Rc<World>,
    next: RefCell<[usize; 7]>,
    /// script session -> (side that began it, its channel)
    s_hint: RefCell<BTreeMap<usize, (usize, u16)>>,
    /// (connection, name, opener is the sender) -> script link
    pub l_hint: RefCell<BTreeMap<(usize, usize, String, bool), usize>>,
    pub l_refuse: BTreeSet<usize>,
    pub l_rcv: BTreeMap<usize, RcvPol>,
    pub live_tasks: Cell<usize>,
}

impl Shared {
    /// session `s` was opened by `side` on its channel `ch`
    pub fn set_hint(&self, s: usize, side: usize, ch: u16) {
        let mut h = self.s_hint.borrow_mut();
        h.retain(|_, x| *x != (side, ch));
        h.insert(s, (side, ch));
    }
    pub fn hint(&self, s: usize) -> Option<(usize, u16)> {
        self.s_hint.borrow().get(&s).copied()
    }
    pub fn hint_at(&self, side: usize, ch: u16) -> Option<usize> {
        self.s_hint.borrow().iter().find(|x| *x.1 == (side, ch)).map(|x| *x.0)
    }

    pub fn new(scen: &Rc<Scenario>, world: &Rc<World>) -> Rc<Shared> {
        let mut l_refuse = BTreeSet::new();
        let mut l_rcv = BTreeMap::new();
        for op in &scen.ops {
            if let OpK::Attach { l, refuse, rcv, .. } = &op.k {
                if *refuse {
                    l_refuse.insert(*l);
                }
                if let Some(r) = rcv {
                    l_rcv.insert(*l, r.clone());
                }
            }
        }
        Rc::new(Shared {
            scen: scen.clone(),
            world: world.clone(),
            next: RefCell::default(),
            s_hint: RefCell::default(),
            l_hint: RefCell::default(),
            l_refuse,
            l_rcv,
            live_tasks: Cell::new(0),
        })
    }
    /// every kind of thing has numbers of its own
    pub fn id(&self, kind: &'static str) -> usize {
        const KINDS: [&str; 7] = ["op", "session", "link", "name", "control", "publish", "handler"];
        let k = KINDS.iter().position(|x| *x == kind).unwrap();
        let n = &mut self.next.borrow_mut()[k];
        *n += 1;
        k * 1_000_000 + *n
    }
}

pub fn body_bytes(m: u64, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    v.extend_from_slice(&m.to_be_bytes()[..len.min(8)]);
    if len > 8 {
        v.extend(Rng::new(mix(m ^ 0xb0d1)).bytes(len - 8));
    }
    v
}

/// (what the API is given, what has to be on the wire)
pub fn make_body(scen: &Scenario, m: u64, len: usize, msg: bool) -> (TransferBody, Body) {
    let b = body_bytes(m, len);
    if msg && scen.flag("values") {
        let s = vals::sections(scen.seed, m, len);
        (TransferBody::Message(vals::message(scen.seed, m, &s)), Body::Msg(Rc::new(s)))
    } else if msg {
        let mut x = Message::with_body(Bytes::from(b.clone()));
        x.set_properties(|p| {
            p.message_id = Some(m.into());
            p.subject = Some(ByteString::from(format!("s{m}")));
        });
        x.set_app_property("k", m as i32);
        let props = vec![
            V::Ulong(m),
            V::Null,
            V::Null,
            V::Str(format!("s{m}")),
        ];
        let sections = vec![
            V::desc(0x73, V::List(props)),
            V::desc(0x74, V::Map(vec![(V::str("k"), V::Int(m as i32))])),
            V::desc(0x75, V::Bin(b)),
        ];
        (TransferBody::Message(x), Body::Msg(Rc::new(sections)))
    } else {
        (TransferBody::Data(Bytes::from(b.clone())), Body::Raw(Rc::new(b)))
    }
}

pub fn custom_error(cond: &str) -> AError {
    AError(Box::new(protocol::ErrorInner {
        condition: ErrorCondition::Custom(cond.to_string().into()),
        description: Some(ByteString::from(format!("d-{cond}"))),
        info: None,
    }))
}

pub fn err_v(e: &AError) -> V {
    vals::v_error(e)
}

pub fn cond_str(c: &ErrorCondition) -> String {
    use ntex_amqp::codec::protocol::{AmqpError as A, ConnectionError as C, LinkError as L, SessionError as S};
    match c {
        ErrorCondition::AmqpError(a) => match a {
            A::InternalError => "amqp:internal-error",
            A::NotFound => "amqp:not-found",
            A::UnauthorizedAccess => "amqp:unauthorized-access",
            A::DecodeError => "amqp:decode-error",
            A::ResourceLimitExceeded => "amqp:resource-limit-exceeded",
            A::NotAllowed => "amqp:not-allowed",
            A::InvalidField => "amqp:invalid-field",
            A::NotImplemented => "amqp:not-implemented",
            A::ResourceLocked => "amqp:resource-locked",
            A::PreconditionFailed => "amqp:precondition-failed",
            A::ResourceDeleted => "amqp:resource-deleted",
            A::IllegalState => "amqp:illegal-state",
            A::FrameSizeTooSmall => "amqp:frame-size-too-small",
        }
        .to_string(),
        ErrorCondition::ConnectionError(a) => match a {
            C::ConnectionForced => "amqp:connection:forced",
            C::FramingError => "amqp:connection:framing-error",
            C::Redirect => "amqp:connection:redirect",
        }
        .to_string(),
        ErrorCondition::SessionError(a) => match a {
            S::WindowViolation => "amqp:session:window-violation",
            S::ErrantLink => "amqp:session:errant-link",
            S::HandleInUse => "amqp:session:handle-in-use",
            S::UnattachedHandle => "amqp:session:unattached-handle",
        }
        .to_string(),
        ErrorCondition::LinkError(a) => match a {
            L::DetachForced => "amqp:link:detach-forced",
            L::TransferLimitExceeded => "amqp:link:transfer-limit-exceeded",
            L::MessageSizeExceeded => "amqp:link:message-size-exceeded",
            L::Redirect => "amqp:link:redirect",
            L::Stolen => "amqp:link:stolen",
        }
        .to_string(),
        ErrorCondition::Custom(s) => s.as_str().to_string(),
    }
}

pub fn state_v(s: &DeliveryState) -> V {
    vals::v_state(s)
}

/// the state chosen for the n-th kind, carrying `x` so that it is recognisable
pub fn make_state(kind: usize, x: u64) -> DeliveryState {
    match kind {
        0 => DeliveryState::Accepted(Accepted {}),
        1 => DeliveryState::Rejected(Rejected {
            error: if x % 4 == 0 { None } else { Some(custom_error(&format!("rej-{x}"))) },
        }),
        2 => DeliveryState::Released(Released {}),
        3 => DeliveryState::Modified(Modified {
            delivery_failed: [None, Some(true), Some(false)][(x % 3) as usize],
            undeliverable_here: [Some(true), None, Some(false)][(x / 3 % 3) as usize],
            message_annotations: None,
        }),
        _ => DeliveryState::Received(Received { section_number: (x % 7) as u32, section_offset: x }),
    }
}

pub fn ret_err(e: &AmqpProtocolError) -> Ret {
    let (k, c): (&str, Option<&AError>) = match e {
        AmqpProtocolError::Codec(_) => ("Codec", None),
        AmqpProtocolError::TooManyChannels => ("TooManyChannels", None),
        AmqpProtocolError::BodyTooLarge => ("BodyTooLarge", None),
        AmqpProtocolError::KeepAliveTimeout => ("KeepAliveTimeout", None),
        AmqpProtocolError::ReadTimeout => ("ReadTimeout", None),
        AmqpProtocolError::Disconnected => ("Disconnected", None),
        AmqpProtocolError::UnknownSession(_) => ("UnknownSession", None),
        AmqpProtocolError::UnknownLink(_) => ("UnknownLink", None),
        AmqpProtocolError::Closed(e) => ("Closed", e.as_ref()),
        AmqpProtocolError::SessionEnded(e) => ("SessionEnded", e.as_ref()),
        AmqpProtocolError::LinkDetached(e) => ("LinkDetached", e.as_ref()),
        AmqpProtocolError::UnexpectedOpeningState(_) => ("UnexpectedOpeningState", None),
        AmqpProtocolError::Unexpected(_) => ("Unexpected", None),
        AmqpProtocolError::ConnectionDropped => ("ConnectionDropped", None),
    };
    Ret::Err { kind: k.to_string(), cond: c.map(|e| cond_str(e.condition())) }
}

pub enum L {
    S(SenderLink),
    R(ReceiverLink),
}

pub struct LinkEnt {
    pub lid: usize,
    pub l: Option<usize>,
    pub sid: usize,
    pub k: L,
    pub name: String,
    pub taken: Cell<u64>,
    pub granted: Cell<u32>,
    pub pol: RcvPol,
    pub last_credit: Cell<u32>,
    /// close or detach calls in flight
    pub closing: Cell<u32>,
    pub detached: Cell<bool>,
}

pub struct SessEnt {
    pub sid: usize,
    pub s: Cell<Option<usize>>,
    pub session: Session,
}

pub struct Node {
    pub sh: Rc<Shared>,
    pub conn: Rc<Conn>,
    pub side: usize,
    pub cfg: EpCfg,
    pub sink: RefCell<Option<ConnectionRef>>,
    pub sess: RefCell<BTreeMap<usize, Rc<SessEnt>>>,
    pub links: RefCell<BTreeMap<usize, Rc<LinkEnt>>>,
    waiters: RefCell<Vec<Waker>>,
    /// control calls (and attach notifications) in flight
    pub busy: Cell<usize>,
    pub dead: Cell<bool>,
    pub marked: Cell<usize>,
    /// (script session, name, sender) -> script link that has it
    names: RefCell<BTreeMap<(usize, String, bool), usize>>,
    /// address of a link -> its number; the links are kept so that no address is used twice
    ids: RefCell<BTreeMap<usize, usize>>,
    /// router handlers being shut down
    pub shut: RefCell<Vec<(usize, AppEv)>>,
    keep: RefCell<Vec<L>>,
    /// script links whose attach failed
    refused: RefCell<BTreeSet<usize>>,
    pub rng: RefCell<Rng>,
    /// router handlers registered
    pub custom: RefCell<Option<Rc<dyn Fn(&Rc<Node>)>>>,
}

thread_local! {
    static NODES: RefCell<Vec<Rc<Node>>> = const { RefCell::new(Vec::new()) };
}

type Shut = LinkError;

#[derive(Debug, Clone)]
pub struct HsErr(pub String);
impl From<HsErr> for AError {
    fn from(_: HsErr) -> AError {
        custom_error("handshake")
    }
}

impl Node {
    pub fn new(sh: &Rc<Shared>, conn: &Rc<Conn>, side: usize, cfg: &EpCfg) -> Rc<Node> {
        Rc::new(Node {
            sh: sh.clone(),
            conn: conn.clone(),
            side,
            cfg: cfg.clone(),
            sink: RefCell::new(None),
            sess: RefCell::default(),
            links: RefCell::default(),
            waiters: RefCell::default(),
            busy: Cell::new(0),
            dead: Cell::new(false),
            marked: Cell::new(0),
            names: RefCell::default(),
            ids: RefCell::default(),
            shut: RefCell::default(),
            keep: RefCell::default(),
            refused: RefCell::default(),
            rng: RefCell::new(Rng::new(mix(sh.scen.seed ^ (side as u64 + 77)))),
            custom: RefCell::default(),
        })
    }

    fn error(&self, c: &str) -> AError {
        if self.sh.scen.flag("values") && vals::is_key(c) {
            vals::b_error(&vals::error(self.sh.scen.seed, c))
        } else {
            custom_error(c)
        }
    }
    fn state(&self, kind: usize, x: u64) -> DeliveryState {
        if self.sh.scen.flag("values") {
            vals::b_state(&vals::state(self.sh.scen.seed, kind, x))
        } else {
            make_state(kind, x)
        }
    }
    fn ret_err(&self, e: &AmqpProtocolError) -> Ret {
        self.err_seen(e);
        ret_err(e)
    }
    fn terms(&self, a: &mut protocol::Attach, l: usize, name: String, sender: bool, addr: &str) {
        let f = vals::fill_attach(a, self.sh.scen.seed, l, sender, addr);
        self.app(AppEv::Terms { l, name, sender, f });
    }
    /// reads the message in a delivery
    pub fn decoded(&self, t: &protocol::Transfer) {
        if self.sh.scen.flag("values") {
            let body = t.get_body().map(|b| b.to_vec()).unwrap_or_default();
            self.decoded_(body, t.load_message::<Message>().map_err(|e| format!("{e:?}")));
        }
    }
    pub fn decoded_(&self, body: Vec<u8>, r: Result<Message, String>) {
        self.app(AppEv::Decoded { body, r: r.map(|m| vals::v_message(&m)) });
    }
    pub fn err_seen(&self, e: &AmqpProtocolError) {
        let x = match e {
            AmqpProtocolError::Closed(Some(e))
            | AmqpProtocolError::SessionEnded(Some(e))
            | AmqpProtocolError::LinkDetached(Some(e)) => e,
            _ => return,
        };
        if self.sh.scen.flag("values") {
            self.app(AppEv::SeenErr { v: vals::v_error(x) });
        }
    }
    fn given(&self, op: OpId, err: Option<&str>) {
        if self.sh.scen.flag("values") {
            self.app(AppEv::Given { op, err: err.map(str::to_string) });
        }
    }
    fn seen(&self, v: impl FnOnce() -> V) {
        if self.sh.scen.flag("values") {
            self.app(AppEv::Seen { v: v() });
        }
    }

    pub fn shared_cfg(&self) -> SharedCfg {
        shared_cfg(&self.cfg, if self.side == 0 { "CLI" } else { "SRV" })
    }

    // ---- history -------------------------------------------------------
    pub fn app(&self, e: AppEv) {
        self.sh.world.rec(EvK::App { conn: self.conn.id, side: self.side, e });
    }
    pub fn call(&self, c: Call) -> OpId {
        let op = self.sh.id("op");
        self.sh.world.rec(EvK::Call { conn: self.conn.id, side: self.side, op, c });
        op
    }
    pub fn ret(&self, op: OpId, r: Ret) {
        let says = matches!(r, Ret::Err { .. });
        self.sh.world.rec(EvK::Ret { conn: self.conn.id, side: self.side, op, r });
        if says {
            self.conn_says();
        }
    }
    /// Ask the connection about itself
    fn conn_says(&self) {
        let Some(sink) = self.sink.borrow().clone() else { return };
        let err = sink.get_error().and_then(|e| match ret_err(&e) {
            Ret::Err { kind, cond } => Some((kind, cond)),
            _ => None,
        });
        self.app(AppEv::ConnSays { opened: sink.is_opened(), err });
    }
    pub fn ret_res(&self, op: OpId, r: Result<(), AmqpProtocolError>) {
        self.ret(
            op,
            match r {
                Ok(()) => Ret::Ok,
                Err(e) => self.ret_err(&e),
            },
        );
    }

    pub fn wake(&self) {
        for w in self.waiters.borrow_mut().drain(..) {
            w.wake();
        }
    }
    /// wait until `f` finds something; gives up at the end of the scenario
    async fn find<T>(&self, f: impl Fn(&Node) -> Option<T>) -> Option<T> {
        let limit = self.sh.scen.end_at.saturating_sub(self.sh.world.now());
        let x = within(
            limit,
            poll_fn(|cx| {
                if let Some(x) = f(self) {
                    return Poll::Ready(Some(x));
                }
                if self.dead.get() {
                    return Poll::Ready(None);
                }
                self.waiters.borrow_mut().push(cx.waker().clone());
                Poll::Pending
            }),
        )
        .await;
        x.flatten()
    }
    fn jitter(&self, r: (u64, u64)) -> u64 {
        self.rng.borrow_mut().range(r.0, r.1)
    }

    // ---- entity tables -------------------------------------------------
    fn add_session(&self, session: &Session, s: Option<usize>) -> Rc<SessEnt> {
        let p = std::ptr::from_ref(session.frame());
        let found = self
            .sess
            .borrow()
            .values()
            .find(|e| std::ptr::eq(std::ptr::from_ref(e.session.frame()), p))
            .cloned();
        if let Some(e) = found {
            if s.is_some() {
                e.s.set(s);
            }
            return e;
        }
        let sid = self.sh.id("session");
        let e = Rc::new(SessEnt { sid, s: Cell::new(s), session: session.clone() });
        self.sess.borrow_mut().insert(sid, e.clone());
        self.app(AppEv::SessionUp {
            sid,
            s,
            ch: session.local_channel_id(),
            rch: session.remote_channel_id(),
        });
        self.seen(|| vals::v_begin(session.frame()));
        self.wake();
        e
    }

    fn pol_of(&self, l: Option<usize>) -> RcvPol {
        l.and_then(|l| self.sh.l_rcv.get(&l).cloned()).unwrap_or_else(|| self.cfg.rcv.clone())
    }

    fn add_link(&self, k: L, l: Option<usize>, local: bool) -> Rc<LinkEnt> {
        let (session, name, h, rh, sender) = match &k {
            L::S(x) => (x.session().clone(), x.name().to_string(), x.id(), x.remote_handle(), true),
            L::R(x) => {
                (x.session().clone(), x.name().to_string(), x.handle(), x.remote_handle(), false)
            }
        };
        let se = self.add_session(&session, None);
        let lnk = self.lnk(&k);
        let lid = self.sh.id("link");
        let e = Rc::new(LinkEnt {
            lid,
            l,
            sid: se.sid,
            k,
            name: name.clone(),
            taken: Cell::new(0),
            granted: Cell::new(0),
            pol: self.pol_of(l),
            last_credit: Cell::new(u32::MAX),
            closing: Cell::new(0),
            detached: Cell::new(false),
        });
        self.links.borrow_mut().insert(lid, e.clone());
        self.app(AppEv::LinkUp {
            lid,
            l,
            sid: se.sid,
            ch: session.local_channel_id(),
            handle: h,
            rhandle: rh,
            name,
            sender,
            local,
            lnk,
        });
        let old: Vec<_> = self.links.borrow().values().rev().filter(|o| o.sid == se.sid && o.lid != lid).take(6).cloned().collect();
        for o in old {
            self.lookups(&o);
        }
        self.wake();
        e
    }

    /// Look the link up in every way there is
    fn lookups(&self, e: &LinkEnt) {
        let found = |k: Option<L>| {
            k.map(|k| {
                let (h, rh) = match &k {
                    L::S(x) => (x.id(), x.remote_handle()),
                    L::R(x) => (x.handle(), x.remote_handle()),
                };
                (self.lnk(&k), h, rh)
            })
        };
        let say = |by, k: Option<L>| self.app(AppEv::Lookup { lid: e.lid, by, found: found(k) });
        let s = match &e.k {
            L::S(x) => {
                let s = x.session().clone();
                say("local handle", s.get_sender_link_by_local_handle(x.id()).cloned().map(L::S));
                say("remote handle", s.get_sender_link_by_remote_handle(x.remote_handle()).cloned().map(L::S));
                say("name", s.get_sender_link(x.name()).cloned().map(L::S));
                s
            }
            L::R(x) => {
                let s = x.session().clone();
                say("local handle", s.get_receiver_link_by_local_handle(x.handle()).cloned().map(L::R));
                say("remote handle", s.get_receiver_link_by_remote_handle(x.remote_handle()).cloned().map(L::R));
                s
            }
        };
        self.conn_says();
        self.app(AppEv::SessSays {
            sid: e.sid,
            window: s.remote_window_size(),
            ch: s.local_channel_id(),
            rch: s.remote_channel_id(),
            found: s
                .connection()
                .get_session_by_local_id(s.local_channel_id())
                .map(|s| (s.local_channel_id(), s.remote_channel_id())),
        });
    }

    pub fn lnk(&self, k: &L) -> usize {
        let (p, c) = match k {
            L::S(x) => (std::ptr::from_ref(x.name()) as usize, L::S(x.clone())),
            L::R(x) => (std::ptr::from_ref(x.name()) as usize, L::R(x.clone())),
        };
        *self.ids.borrow_mut().entry(p).or_insert_with(|| {
            self.keep.borrow_mut().push(c);
            self.sh.id("name")
        })
    }
    fn link_gone(&self, l: usize) -> bool {
        if self.refused.borrow().contains(&l) {
            return true;
        }
        self.link_of(l).is_some_and(|e| {
            e.closing.get() == 0
                && match &e.k {
                    L::S(x) => x.is_closed(),
                    L::R(x) => x.is_closed(),
                }
        })
    }
    fn link_of(&self, l: usize) -> Option<Rc<LinkEnt>> {
        self.links.borrow().values().rev().find(|e| e.l == Some(l)).cloned()
    }
    fn lid_of_rcv(&self, r: &ReceiverLink) -> Option<Rc<LinkEnt>> {
        self.links
            .borrow()
            .values()
            .find(|e| matches!(&e.k, L::R(x) if std::ptr::eq(x.name(), r.name())))
            .cloned()
    }
    pub fn session_of(&self, s: usize) -> Option<Rc<SessEnt>> {
        if let Some(e) = self.sess.borrow().values().rev().find(|e| e.s.get() == Some(s)) {
            return Some(e.clone());
        }
        // begun by the peer?
        let (by, ch) = self.sh.hint(s)?;
        if by == self.side {
            return None;
        }
        let sink = self.sink.borrow().clone()?;
        for id in 0..=2048u16 {
            if let Some(se) = sink.get_session_by_local_id(id)
                && se.remote_channel_id() == ch
            {
                // another one on the same channel
                let p = std::ptr::from_ref(se.frame());
                let other = self.sess.borrow().values().any(|e| {
                    std::ptr::eq(std::ptr::from_ref(e.session.frame()), p) && e.s.get().is_some_and(|x| x != s)
                });
                return if other { None } else { Some(self.add_session(&se, Some(s))) };
            }
        }
        None
    }

    // ---- settled marks -------------------------------------------------
    pub fn on_idle(&self) {
        if self.dead.get() || self.busy.get() > 0 || !self.conn.settled(self.side) {
            return;
        }
        let (n, traffic) = {
            let h = self.sh.world.hist.borrow();
            let m = self.marked.get();
            (
                h.len(),
                h[m.min(h.len())..].iter().any(|e| match e.k {
                    EvK::Wire { from, .. } => from == self.side,
                    EvK::Read { from, .. } => from != self.side,
                    _ => false,
                }),
            )
        };
        if self.marked.get() == n {
            return;
        }
        self.sh.world.rec(EvK::Settled { conn: self.conn.id, side: self.side });
        let links: Vec<_> = self.links.borrow().values().cloned().collect();
        for e in links {
            if let L::S(x) = &e.k
                && !x.is_closed()
            {
                let n = x.credit();
                if traffic || e.last_credit.get() != n {
                    e.last_credit.set(n);
                    self.app(AppEv::Credit { lid: e.lid, n });
                }
            }
        }
        self.marked.set(self.sh.world.hist.borrow().len());
    }

    // ---- connection ----------------------------------------------------
    pub fn start(self: &Rc<Self>) {
        let me = self.clone();
        self.sh.world.on_idle.borrow_mut().push(Rc::new(move || me.on_idle()));
        let me = self.clone();
        ntex_rt::spawn(async move {
            if me.side == 0 { me.run_client().await } else { me.run_server().await }
            me.dead.set(true);
            me.wake();
        });
        for (i, op) in self.sh.scen.ops.iter().enumerate() {
            if op.side == self.side {
                let me = self.clone();
                let op = op.clone();
                let _ = i;
                ntex_rt::spawn(async move {
                    sleep_until(op.at).await;
                    me.exec(op).await;
                });
            }
        }
    }

    async fn run_client(self: &Rc<Self>) {
        let op = self.call(Call::Connect);
        let cfg = self.shared_cfg();
        let me = self.clone();
        let once = Rc::new(RefCell::new(Some(Io::new(self.conn.io(0), cfg.clone()))));
        let once2 = once.clone();
        let connector = client::Connector::with(fn_service(
            async move |_: ntex_net::connect::Connect<String>| {
                let io = once.borrow_mut().take();
                io.ok_or_else(|| {
                    ntex_error::Error::from(ntex_net::connect::ConnectError::Unresolved)
                })
            },
        ));
        let mut done = None;
        if self.sh.scen.flag("negotiate") {
            // over a socket the application has opened
            let io = ntex_io::IoBoxed::from(once2.borrow_mut().take().unwrap());
            let Ok(s) = ServiceFactory::<client::Connect<String>, SharedCfg>::create(&connector, cfg.clone()).await else { return };
            let host = self.sh.scen.flag("connect-hostname").then(|| ByteString::from("conn.host"));
            done = Some(if self.cfg.sasl {
                let c = cred(&self.sh.scen);
                let auth = client::SaslAuth { authz_id: c.0.into(), authn_id: c.1.into(), password: c.2.into() };
                s.negotiate_sasl(io, auth, host).await
            } else {
                s.negotiate(io, host).await
            });
        }
        let p = match connector.pipeline(cfg).await {
            Ok(p) => p,
            Err(_) => return,
        };
        let mut req = client::Connect::new("sim:1".to_string());
        if self.cfg.sasl {
            let c = cred(&self.sh.scen);
            req = req.sasl_auth(
                ByteString::from(c.0),
                ByteString::from(c.1),
                ByteString::from(c.2),
            );
        }
        if self.sh.scen.flag("connect-hostname") {
            req = req.hostname("conn.host");
        }
        let r = match done {
            Some(r) => r,
            None => p.call(req).await,
        };
        match r {
            Err(e) => {
                let s = format!("{e:?}");
                self.ret(op, Ret::Err { kind: s.chars().take(60).collect(), cond: None });
                // keep the failed connection's io from lingering
                drop(p);
            }
            Ok(c) => {
                self.ret(op, Ret::Ok);
                let sink = c.sink();
                self.app(AppEv::Opened { is_opened: sink.is_opened() });
                *self.sink.borrow_mut() = Some(sink);
                self.wake();
                let op = self.call(Call::Serve);
                let r = if self.cfg.default_ctl {
                    c.start_default().await
                } else {
                    c.start(fn_service(move |f: ControlFrame| {
                        let me = me.clone();
                        async move { me.ctl(f).await }
                    }))
                    .await
                };
                self.serve_ret(op, r.map_err(|e| format!("{e:?}")));
            }
        }
    }

    fn serve_ret(&self, op: OpId, r: Result<(), String>) {
        self.ret(
            op,
            match r {
                Ok(()) => Ret::Ok,
                Err(e) => Ret::Err { kind: e.chars().take(80).collect(), cond: None },
            },
        );
    }

    async fn run_server(self: &Rc<Self>) {
        let cfg = self.shared_cfg();
        let op = self.call(Call::Serve);
        let me = self.clone();
        let b = server::Server::build(fn_service(move |h: server::Handshake| {
            let me = me.clone();
            async move { me.handshake(h).await }
        }));
        let io = Io::new(self.conn.io(1), cfg.clone());
        macro_rules! go {
            ($b:expr, $pb:expr) => {{
                let srv = $b.finish($pb);
                match ServiceFactory::<Io, SharedCfg>::pipeline(&srv, cfg).await {
                    Ok(p) => p.call(io).await.map_err(|e: server::ServerError<HsErr>| format!("{e:?}")),
                    Err(_) => Err("init".to_string()),
                }
            }};
        }
        macro_rules! with_pb {
            ($b:expr) => {{
                if self.cfg.router {
                    go!($b, crate::rout::router(self))
                } else {
                    let me = self.clone();
                    go!(
                        $b,
                        fn_factory_with_config(move |_: State<()>| {
                            let me = me.clone();
                            async move {
                                me.app(AppEv::Misc("publish service started".into()));
                                Ok::<_, LinkError>(fn_service(move |m: types::Message| {
                                    let me = me.clone();
                                    async move { me.publish(m).await }
                                }))
                            }
                        })
                    )
                }
            }};
        }
        let r = if self.cfg.default_ctl {
            with_pb!(b)
        } else {
            let me = self.clone();
            with_pb!(b.control(fn_factory_with_config(move |_: State<()>| {
                let me = me.clone();
                async move {
                    me.app(AppEv::Misc("control service started".into()));
                    Ok::<_, LinkError>(fn_service(move |f: ControlFrame| {
                        let me = me.clone();
                        async move { me.ctl(f).await }
                    }))
                }
            })))
        };
        self.serve_ret(op, r);
    }

    async fn handshake(
        self: &Rc<Self>,
        h: server::Handshake,
    ) -> Result<server::HandshakeAck<()>, HsErr> {
        let e = |e: server::HandshakeError| HsErr(format!("{e:?}").chars().take(60).collect::<String>());
        let o = match h {
            server::Handshake::Amqp(h) => {
                if self.sh.scen.flag("require-sasl") {
                    return Err(HsErr("plain refused".into()));
                }
                h.open().await.map_err(e)?
            }
            server::Handshake::Sasl(h) => {
                self.app(AppEv::Misc("sasl".into()));
                let init = h.mechanism("PLAIN").mechanism("EXTERNAL").init().await.map_err(e)?;
                self.app(AppEv::Cred {
                    what: format!(
                        "{}|{}|{}",
                        init.mechanism(),
                        init.initial_response().map_or("-".into(), hex),
                        init.hostname().unwrap_or("-")
                    ),
                });
                let d = self.jitter(self.cfg.ctl_delay);
                sleep(d).await;
                let rounds = self.sh.scen.flags.iter().filter(|f| *f == "challenge").count();
                let code = self
                    .sh
                    .scen
                    .flags
                    .iter()
                    .find_map(|f| f.strip_prefix("sasl-code="))
                    .map_or(0, |c| c.parse::<u8>().unwrap());
                let code = protocol::SaslCode::try_from(code).unwrap();
                let ok = if rounds == 0 {
                    init.outcome(code).await.map_err(e)?
                } else {
                    let r = init.challenge_with(Bytes::from_static(b"chal-1")).await.map_err(e)?;
                    self.app(AppEv::Cred { what: format!("response|{}", hex(r.response())) });
                    r.outcome(code).await.map_err(e)?
                };
                if self.sh.scen.flag("refuse-after-outcome") {
                    return Err(HsErr("refused".into()));
                }
                ok.open().await.map_err(e)?
            }
        };
        if self.sh.scen.flag("refuse-open") {
            return Err(HsErr("open refused".into()));
        }
        self.seen(|| vals::v_open(o.frame()));
        self.app(AppEv::Remote {
            max_frame: o.remote_config().max_frame_size,
            channel_max: o.remote_config().channel_max,
            idle: o.remote_config().idle_time_out,
            hostname: o.remote_config().hostname.as_ref().map(ToString::to_string),
        });
        let sink = o.sink().get_ref();
        *self.sink.borrow_mut() = Some(sink);
        self.wake();
        Ok(o.ack(()))
    }

    // ---- services ------------------------------------------------------
    async fn ctl(self: &Rc<Self>, f: ControlFrame) -> Result<(), Shut> {
        let id = self.sh.id("control");
        self.busy.set(self.busy.get() + 1);
        let mut l = None;
        let mut ent = None;
        let mut lnk = None;
        let (kind, ch, handle, rhandle, name, detail): (
            &'static str,
            Option<u16>,
            Option<u32>,
            Option<u32>,
            Option<String>,
            String,
        ) = {
            let s = |x: &SenderLink| {
                (
                    Some(x.session().local_channel_id()),
                    Some(x.id()),
                    Some(x.remote_handle()),
                    Some(x.name().to_string()),
                )
            };
            let r = |x: &ReceiverLink| {
                (
                    Some(x.session().local_channel_id()),
                    Some(x.handle()),
                    Some(x.remote_handle()),
                    Some(x.name().to_string()),
                )
            };
            let all = |v: &Vec<ntex_util::future::Either<SenderLink, ReceiverLink>>| {
                let mut n: Vec<String> = v
                    .iter()
                    .map(|e| match e {
                        ntex_util::future::Either::Left(x) => format!(
                            "S:{}:{}:{}",
                            x.session().local_channel_id(),
                            x.id(),
                            x.name()
                        ),
                        ntex_util::future::Either::Right(x) => format!(
                            "R:{}:{}:{}",
                            x.session().local_channel_id(),
                            x.handle(),
                            x.name()
                        ),
                    })
                    .collect();
                n.sort();
                n.join(",")
            };
            match f.kind() {
                ControlFrameKind::AttachSender(a, _, x) => {
                    let (c, h, rh, n) = s(x);
                    l = self.hint(a.name(), false);
                    self.seen(|| vals::v_attach(a));
                    ent = Some(L::S(x.clone()));
                    ("AttachSender", c, h, rh, n, String::new())
                }
                ControlFrameKind::AttachReceiver(a, _, x) => {
                    let (c, h, rh, n) = r(x);
                    l = self.hint(a.name(), true);
                    self.seen(|| vals::v_attach(a));
                    ent = Some(L::R(x.clone()));
                    ("AttachReceiver", c, h, rh, n, String::new())
                }
                ControlFrameKind::Flow(fl, x) => {
                    lnk = Some(self.lnk(&L::S(x.clone())));
                    let (c, h, rh, n) = s(x);
                    self.seen(|| vals::v_flow(fl));
                    ("Flow", c, h, rh, n, format!("{:?}/{:?}", fl.delivery_count(), fl.link_credit()))
                }
                ControlFrameKind::LocalDetachSender(d, x) => {
                    lnk = Some(self.lnk(&L::S(x.clone())));
                    let (c, h, rh, n) = s(x);
                    ("LocalDetachSender", c, h, rh, n, dt(d))
                }
                ControlFrameKind::RemoteDetachSender(d, x) => {
                    lnk = Some(self.lnk(&L::S(x.clone())));
                    let (c, h, rh, n) = s(x);
                    self.seen(|| vals::v_detach(d));
                    ("RemoteDetachSender", c, h, rh, n, dt(d))
                }
                ControlFrameKind::LocalDetachReceiver(d, x) => {
                    lnk = Some(self.lnk(&L::R(x.clone())));
                    let (c, h, rh, n) = r(x);
                    ("LocalDetachReceiver", c, h, rh, n, dt(d))
                }
                ControlFrameKind::RemoteDetachReceiver(d, x) => {
                    lnk = Some(self.lnk(&L::R(x.clone())));
                    let (c, h, rh, n) = r(x);
                    self.seen(|| vals::v_detach(d));
                    ("RemoteDetachReceiver", c, h, rh, n, dt(d))
                }
                ControlFrameKind::LocalSessionEnded(v) => {
                    ("LocalSessionEnded", f.session().map(|s| s.local_channel_id()), None, None, None, all(v))
                }
                ControlFrameKind::RemoteSessionEnded(v) => {
                    ("RemoteSessionEnded", f.session().map(|s| s.local_channel_id()), None, None, None, all(v))
                }
                ControlFrameKind::ProtocolError(e) => {
                    let r = self.ret_err(e);
                    ("ProtocolError", None, None, None, None, format!("{r:?}"))
                }
                ControlFrameKind::Disconnected(e) => {
                    ("Disconnected", None, None, None, None, format!("{}", e.is_some()))
                }
                ControlFrameKind::Closed => ("Closed", None, None, None, None, String::new()),
            }
        };
        if let Some(k) = &ent {
            lnk = Some(self.lnk(k));
        }
        // its session is the current one on these channels only now
        let sid = match &ent {
            Some(L::S(x)) => {
                Some(self.add_session(&x.session().clone(), None).sid)
            }
            Some(L::R(x)) => {
                Some(self.add_session(&x.session().clone(), None).sid)
            }
            None => None,
        };
        self.app(AppEv::Ctl { id, kind, ch, handle, rhandle, name, detail, sid, lnk });
        if let Some(L::R(x)) = &ent {
            if let Some(n) = self.pol_of(l).max_size {
                x.set_max_message_size(n);
            }
        }
        // the channel is known to the peer by now: let waiting operations look again
        self.wake();
        let d = if matches!(kind, "Closed" | "Disconnected") && !self.sh.scen.flag("slow-close") {
            0
        } else {
            self.jitter(self.cfg.ctl_delay)
        };
        if d > 0 {
            sleep(d).await;
        }
        let refuse = ent.is_some() && l.is_some_and(|l| self.sh.l_refuse.contains(&l));
        self.busy.set(self.busy.get() - 1);
        if refuse {
            self.app(AppEv::CtlDone { id, err: Some("refused-by-test".into()) });
            let e = LinkError::new(ErrorCondition::Custom("refused-by-test".to_string().into()))
                .description("no way");
            return Err(e);
        }
        self.app(AppEv::CtlDone { id, err: None });
        self.conn_says();
        if let Some(k) = ent {
            let me = self.clone();
            let recv = matches!(k, L::R(_)) && (self.side == 0 || self.sh.scen.flag("recv-loop"));
            ntex_rt::spawn(async move {
                let e = me.add_link(k, l, false);
                if recv {
                    me.recv_loop(e).await;
                }
            });
        }
        Ok(())
    }

    fn hint(&self, name: &str, opener_is_sender: bool) -> Option<usize> {
        self.sh.l_hint.borrow().get(&(self.conn.id, 1 - self.side, name.to_string(), opener_is_sender)).copied()
    }

    async fn publish(self: &Rc<Self>, m: types::Message) -> Result<(), LinkError> {
        let id = self.sh.id("publish");
        let info = |r: &ReceiverLink| (Some(r.handle()), Some(r.name().to_string()), Some(r.session().local_channel_id()));
        match m {
            types::Message::Attached(_, r) => {
                let (handle, name, ch) = info(&r);
                self.app(AppEv::Pub { id, kind: "Attached", handle, name, ch, n: 1 });
                self.busy.set(self.busy.get() + 1);
                let d = self.jitter(self.cfg.pub_delay);
                if d > 0 {
                    sleep(d).await;
                }
                self.busy.set(self.busy.get() - 1);
                self.app(AppEv::PubDone { id, err: None });
            }
            types::Message::Detached(r) => {
                let (handle, name, ch) = info(&r);
                self.app(AppEv::Pub { id, kind: "Detached", handle, name, ch, n: 1 });
            }
            types::Message::DetachedAll(v) => {
                let n = v.len();
                self.app(AppEv::Pub { id, kind: "DetachedAll", handle: None, name: None, ch: None, n });
            }
            types::Message::Transfer(r) => {
                if self.sh.scen.flag("recv-loop") {
                    return Ok(());
                }
                let d = self.jitter(self.cfg.pub_delay);
                if d > 0 {
                    sleep(d).await;
                }
                let ent = self.find(|n| n.lid_of_rcv(&r)).await;
                let has = r.has_deliveries();
                let got = r.get_delivery();
                if let Some(e) = ent {
                    self.app(AppEv::Queue { lid: e.lid, has, got: got.is_some() });
                    if let Some((d, t)) = got {
                        self.deliver(&e, d, t).await;
                    }
                }
            }
        }
        Ok(())
    }

    // ---- receiving -----------------------------------------------------
    async fn recv_loop(self: &Rc<Self>, e: Rc<LinkEnt>) {
        let L::R(r) = &e.k else { return };
        let op = self.call(Call::RecvLoop { lid: e.lid });
        let mut rng = Rng::new(mix(self.sh.scen.seed ^ e.lid as u64));
        loop {
            let d = rng.range(e.pol.take_delay.0, e.pol.take_delay.1);
            if d > 0 {
                sleep(d).await;
            }
            let turn = e.taken.get() % 4;
            if turn != 1 {
                // whether something waits has to be what taking it shows
                let has = r.has_deliveries();
                let now = if turn == 2 {
                    r.get_delivery()
                } else {
                    match poll_fn(|cx| Poll::Ready(r.poll_recv(cx))).await {
                        Poll::Ready(Some(Ok(x))) => Some(x),
                        Poll::Ready(Some(Err(x))) => {
                            if has {
                                self.app(AppEv::Queue { lid: e.lid, has, got: false });
                            }
                            self.ret(op, self.ret_err(&x));
                            return;
                        }
                        Poll::Ready(None) => {
                            if has {
                                self.app(AppEv::Queue { lid: e.lid, has, got: false });
                            }
                            self.ret(op, Ret::None);
                            return;
                        }
                        Poll::Pending => None,
                    }
                };
                if has || now.is_some() {
                    self.app(AppEv::Queue { lid: e.lid, has, got: now.is_some() });
                }
                if let Some((d, t)) = now {
                    self.deliver(&e, d, t).await;
                    continue;
                }
            }
            let next = if turn == 3 {
                let mut s = r.clone();
                ntex_util::future::stream_recv(&mut s).await
            } else {
                r.recv().await
            };
            match next {
                Some(Ok((d, t))) => {
                    self.deliver(&e, d, t).await;
                }
                Some(Err(x)) => {
                    self.ret(op, self.ret_err(&x));
                    return;
                }
                None => {
                    self.ret(op, Ret::None);
                    return;
                }
            }
        }
    }

    async fn deliver(self: &Rc<Self>, e: &Rc<LinkEnt>, mut d: Delivery, t: protocol::Transfer) {
        let body = t.get_body().map(|b| b.to_vec()).unwrap_or_default();
        let n = e.taken.get();
        e.taken.set(n + 1);
        self.decoded(&t);
        let settled = t.settled().unwrap_or(false);
        self.app(AppEv::Deliver {
            lid: e.lid,
            id: d.id(),
            tag: d.tag().to_vec(),
            settled,
            format: t.message_format(),
            body,
        });
        self.regrant(e);
        let mut rng = Rng::new(mix(self.sh.scen.seed ^ mix(n) ^ (e.lid as u64) << 32));
        if settled {
            // nothing to decide; try to settle all the same sometimes
            if rng.pct(20) {
                d.settle(self.state(0, 0));
            }
            return;
        }
        if n % 4 == 0 {
            self.lookups(e);
        }
        let pol = e.pol.clone();
        let me = self.clone();
        let lid = e.lid;
        let work = async move {
            let id = d.id();
            let peek = |d: &Delivery| {
                me.app(AppEv::Peek {
                    lid,
                    id,
                    sender: false,
                    settled: d.is_remote_settled(),
                    state: d.remote_state().as_ref().map(state_v),
                });
            };
            if rng.pct(u32::from(pol.update_pct)) {
                sleep(rng.range(pol.delay.0, pol.delay.1)).await;
                let st = me.state(4, rng.below(1000));
                me.app(AppEv::Update { lid, id, state: state_v(&st) });
                d.update_state(st);
            }
            sleep(rng.range(pol.delay.0, pol.delay.1)).await;
            peek(&d);
            let tot: u32 = pol.mix.iter().map(|x| u32::from(*x)).sum();
            let mut x = rng.below(u64::from(tot.max(1))) as u32;
            let mut k = 0;
            for (i, w) in pol.mix.iter().enumerate() {
                if x < u32::from(*w) {
                    k = i;
                    break;
                }
                x -= u32::from(*w);
            }
            match k {
                4 => {
                    me.app(AppEv::DropDelivery { lid, id });
                    drop(d);
                }
                5 => {
                    // hold it for a long time, then decide
                    let until = me.sh.scen.heal_at;
                    sleep_until(until).await;
                    peek(&d);
                    let st = me.state(0, 0);
                    me.app(AppEv::Settle { lid, id, state: state_v(&st) });
                    d.settle(st);
                }
                k => {
                    let st = me.state(k, rng.below(1000));
                    me.app(AppEv::Settle { lid, id, state: state_v(&st) });
                    d.settle(st);
                    if rng.pct(10) {
                        // a second decision must have no effect
                        if rng.pct(50) {
                            d.settle(me.state(2, 0));
                        } else {
                            d.update_state(me.state(4, 7));
                        }
                    }
                    if rng.pct(50) {
                        sleep(rng.range(0, pol.delay.1)).await;
                    }
                }
            }
        };
        ntex_rt::spawn(work);
    }

    fn grant(&self, e: &LinkEnt, n: u32) {
        if let L::R(r) = &e.k {
            e.granted.set(e.granted.get().wrapping_add(n));
            self.app(AppEv::Granted { lid: e.lid, n });
            r.set_link_credit(n);
        }
    }
    fn regrant(&self, e: &LinkEnt) {
        if let L::R(r) = &e.k
            && !r.is_closed()
            && r.credit() <= e.pol.regrant_at
            && e.pol.regrant > 0
        {
            let n = e.pol.regrant;
            self.grant(e, n);
        }
    }

    // ---- operations ----------------------------------------------------
    async fn exec(self: &Rc<Self>, op: Op) {
        let late = op.at >= self.sh.scen.cut_at && self.sh.scen.cut_at > 0;
        match op.k {
            OpK::Begin { s } => {
                let Some(sink) = self.find(|n| n.sink.borrow().clone()).await else { return };
                let o = self.call(Call::OpenSession { s });
                match sink.open_session().attach().await {
                    Ok(se) => {
                        let e = self.add_session(&se, Some(s));
                        self.sh.set_hint(s, self.side, se.local_channel_id());
                        self.wake();
                        self.ret(o, Ret::Session { sid: e.sid });
                    }
                    Err(e) => self.ret(o, self.ret_err(&e)),
                }
            }
            OpK::BeginCancel { s, after } => {
                let Some(sink) = self.find(|n| n.sink.borrow().clone()).await else { return };
                let o = self.call(Call::OpenSession { s });
                match within(after, sink.open_session().attach()).await {
                    Some(Ok(se)) => {
                        let e = self.add_session(&se, Some(s));
                        self.sh.set_hint(s, self.side, se.local_channel_id());
                        self.wake();
                        self.ret(o, Ret::Session { sid: e.sid });
                    }
                    Some(Err(e)) => self.ret(o, self.ret_err(&e)),
                    None => {
                        self.sh.world.count("fault:cancel_open_session");
                        self.ret(o, Ret::Cancelled);
                    }
                }
            }
            OpK::Attach { s, l, name, sender, addr, rcv, max_size, .. } => {
                let Some(se) = self.find(|n| n.session_of(s)).await else { return };
                // a name may be used again once the previous link is gone
                let key = (s, name.clone(), sender);
                loop {
                    let used = self.names.borrow().get(&key).is_some_and(|p| !self.link_gone(*p));
                    if !used {
                        break;
                    }
                    let until = self.sh.scen.end_at.min(self.sh.scen.heal_at + 20 * sim::SEC);
                    if self.dead.get() || self.sh.world.now() >= until {
                        return;
                    }
                    sleep(sim::MS).await;
                }
                self.names.borrow_mut().insert(key, l);
                self.sh.l_hint.borrow_mut().insert((self.conn.id, self.side, name.clone(), sender), l);
                let o = self.call(Call::Attach { s, l, name: name.clone(), sender });
                if sender {
                    let mut b = se.session.build_sender_link(name.clone(), addr.clone());
                    if self.sh.scen.flag("values") {
                        b = b.with_frame(|a| self.terms(a, l, name, true, &addr));
                    }
                    if let Some(n) = max_size {
                        b = b.max_message_size(n);
                    }
                    match b.attach().await {
                        Ok(x) => {
                            let e = self.add_link(L::S(x), Some(l), true);
                            self.ret(o, Ret::Link { lid: e.lid });
                        }
                        Err(e) => {
                            self.refused.borrow_mut().insert(l);
                            self.ret(o, self.ret_err(&e));
                        }
                    }
                } else {
                    let mut b = se.session.build_receiver_link(name.clone(), addr.clone());
                    if self.sh.scen.flag("values") {
                        b = b.with_frame(|a| self.terms(a, l, name, false, &addr));
                    }
                    let pol = rcv.clone().unwrap_or_else(|| self.cfg.rcv.clone());
                    if let Some(n) = pol.max_size {
                        b = b.max_message_size(n);
                    }
                    match b.attach().await {
                        Ok(x) => {
                            let e = self.add_link(L::R(x), Some(l), true);
                            self.ret(o, Ret::Link { lid: e.lid });
                            if pol.grant > 0 {
                                self.grant(&e, pol.grant);
                            }
                            self.recv_loop(e).await;
                        }
                        Err(e) => {
                            self.refused.borrow_mut().insert(l);
                            self.ret(o, self.ret_err(&e));
                        }
                    }
                }
            }
            OpK::Send { l, spec } => {
                let Some(e) = self.find(|n| n.link_of(l)).await else { return };
                self.send(e, spec).await;
            }
            OpK::Grant { l, n } => {
                let Some(e) = self.find(|n| n.link_of(l)).await else { return };
                self.grant(&e, n);
            }
            OpK::Detach { l, err, .. } => {
                let Some(e) = self.find(|n| n.link_of(l)).await else { return };
                let Some(se) = self.sess.borrow().get(&e.sid).cloned() else { return };
                // the handle is what names the link here, it may belong to another link by now
                let gone = match &e.k {
                    L::S(x) => x.is_closed(),
                    L::R(x) => x.is_closed(),
                };
                if gone || e.detached.replace(true) {
                    return;
                }
                e.closing.set(e.closing.get() + 1);
                let o = self.call(Call::DetachLink { lid: e.lid });
                self.given(o, err.as_deref());
                let err = err.map(|c| self.error(&c));
                let r = match &e.k {
                    L::S(x) => se.session.detach_sender_link(x.id(), err).await,
                    L::R(x) => se.session.detach_receiver_link(x.handle(), err).await,
                };
                e.closing.set(e.closing.get() - 1);
                self.ret_res(o, r);
                self.lookups(&e);
            }
            OpK::CloseLink { l, err } => {
                let Some(e) = self.find(|n| n.link_of(l)).await else { return };
                e.closing.set(e.closing.get() + 1);
                let o = self.call(Call::CloseLink { lid: e.lid });
                self.given(o, err.as_deref());
                let err = err.map(|c| self.error(&c));
                let r = match (&e.k, err) {
                    (L::S(x), None) => x.close().await,
                    (L::S(x), Some(e)) => x.close_with_error(e).await,
                    (L::R(x), None) => x.close().await,
                    (L::R(x), Some(e)) => x.close_with_error(e).await,
                };
                e.closing.set(e.closing.get() - 1);
                self.ret_res(o, r);
                self.lookups(&e);
            }
            OpK::DropLink { l } => {
                let Some(e) = self.find(|n| n.link_of(l)).await else { return };
                // deliveries still have to find their receiver
                if matches!(e.k, L::S(_)) {
                    self.links.borrow_mut().remove(&e.lid);
                }
            }
            OpK::End { s, .. } => {
                let Some(e) = self.find(|n| n.session_of(s)).await else { return };
                let o = self.call(Call::End { sid: e.sid });
                let f = e.session.end();
                let (sink, ch) = (e.session.connection(), e.session.local_channel_id());
                self.app(AppEv::EndSays { sid: e.sid, found: sink.get_session_by_local_id(ch).is_some() });
                let r = f.await;
                self.ret_res(o, r);
            }
            OpK::CloseConn { err } => {
                let Some(sink) = self.find(|n| n.sink.borrow().clone()).await else { return };
                let o = self.call(Call::CloseConn);
                let r = match err {
                    None => sink.close().await,
                    Some(c) => sink.close_with_error(self.error(&c)).await,
                };
                self.ret_res(o, r);
                self.conn_says();
            }
            OpK::ForceClose => {
                let Some(sink) = self.find(|n| n.sink.borrow().clone()).await else { return };
                let o = self.call(Call::ForceClose);
                sink.force_close();
                self.ret(o, Ret::Ok);
                self.conn_says();
            }
            OpK::Ready { l } => {
                let Some(e) = self.find(|n| n.link_of(l)).await else { return };
                self.lookups(&e);
                if let L::S(x) = &e.k {
                    let o = self.call(Call::Ready { lid: e.lid });
                    let r = x.ready().await;
                    self.ret(o, Ret::Bool(r));
                }
            }
            OpK::OnCredit { l } => {
                let Some(e) = self.find(|n| n.link_of(l)).await else { return };
                if let L::S(x) = &e.k {
                    let o = self.call(Call::OnCredit { lid: e.lid });
                    x.on_credit_update().await;
                    self.ret(o, Ret::Ok);
                }
            }
            OpK::OnCloseLink { l } => {
                let Some(e) = self.find(|n| n.link_of(l)).await else { return };
                if let L::S(x) = &e.k {
                    let o = self.call(Call::OnCloseLink { lid: e.lid });
                    x.on_close().await;
                    self.ret(o, Ret::Ok);
                    self.lookups(&e);
                }
            }
            OpK::OnCloseConn => {
                let Some(sink) = self.find(|n| n.sink.borrow().clone()).await else { return };
                let o = self.call(Call::OnCloseConn);
                sink.on_close().await;
                self.ret(o, Ret::Ok);
                self.conn_says();
            }
            _ => {}
        }
        let _ = late;
    }

    async fn send(self: &Rc<Self>, e: Rc<LinkEnt>, spec: SendSpec) {
        let L::S(x) = &e.k else { return };
        let (data, body) = make_body(&self.sh.scen, spec.m, spec.len, spec.msg);
        let cancel = matches!(spec.after, After::Cancel(_));
        let o = self.call(Call::Send {
            lid: e.lid,
            m: spec.m,
            settled: spec.settled,
            tag: spec.tag.clone(),
            format: spec.format,
            body,
            cancel,
        });
        let mut b = x.transfer(data);
        if let Some(t) = &spec.tag {
            b = b.tag(Bytes::from(t.clone()));
        }
        if spec.settled {
            b = b.settled();
        }
        if let Some(f) = spec.format {
            b = b.format(f);
        }
        let r = if let After::Cancel(n) = spec.after {
            match within(n, b.send()).await {
                None => {
                    self.sh.world.count("fault:cancel_send");
                    self.ret(o, Ret::Cancelled);
                    return;
                }
                Some(r) => r,
            }
        } else {
            b.send().await
        };
        let mut d = match r {
            Err(e) => {
                self.ret(o, self.ret_err(&e));
                return;
            }
            Ok(d) => d,
        };
        self.ret(o, Ret::Sent { id: d.id(), tag: d.tag().to_vec() });
        if spec.m % 4 == 0 {
            self.lookups(&e);
        }
        let m = spec.m;
        let peek = |d: &Delivery| {
            if !spec.settled {
                self.app(AppEv::Peek {
                    lid: e.lid,
                    id: d.id(),
                    sender: true,
                    settled: d.is_remote_settled(),
                    state: d.remote_state().as_ref().map(state_v),
                });
            }
        };
        let wait = async |d: &Delivery| {
            let o = self.call(Call::Wait { m });
            let r = d.wait().await;
            self.ret(
                o,
                match &r {
                    Ok(s) => Ret::Outcome(s.as_ref().map(state_v)),
                    Err(e) => self.ret_err(e),
                },
            );
            r
        };
        match spec.after {
            After::Wait | After::Cancel(_) => {
                let _ = wait(&d).await;
            }
            After::WaitN(n) => {
                for _ in 0..n {
                    let _ = wait(&d).await;
                }
            }
            After::WaitLater(t) => {
                sleep(t).await;
                peek(&d);
                let _ = wait(&d).await;
            }
            After::WaitBoth(n) => {
                let all: Vec<_> = (0..n).map(|_| Box::pin(wait(&d))).collect();
                let _ = ntex_util::future::join_all(all).await;
            }
            After::WaitGiveUp(t) => {
                let o = self.call(Call::Wait { m });
                match within(t, d.wait()).await {
                    None => self.ret(o, Ret::Cancelled),
                    Some(r) => self.ret(
                        o,
                        match &r {
                            Ok(s) => Ret::Outcome(s.as_ref().map(state_v)),
                            Err(e) => self.ret_err(e),
                        },
                    ),
                }
                let _ = wait(&d).await;
            }
            After::Keep => {
                sleep_until(self.sh.scen.end_at).await;
                peek(&d);
            }
            After::Drop => {
                peek(&d);
                self.app(AppEv::DropSent { m });
            }
            After::Settle => {
                self.app(AppEv::Misc(format!("sender settles {m}")));
                d.settle(self.state(0, 0));
                let _ = wait(&d).await;
            }
        }
        peek(&d);
        peek(&d);
        self.app(AppEv::DropSent { m });
        drop(d);
    }
}

fn dt(d: &protocol::Detach) -> String {
    format!("{}:{}", d.closed(), d.error().map(|e| cond_str(e.condition())).unwrap_or_default())
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn cred(s: &Scenario) -> (String, String, String) {
    (format!("z{}", s.seed % 97), format!("user{}", s.seed % 89), format!("p\u{e4}ss{}", s.seed % 83))
}

pub fn shared_cfg(c: &EpCfg, tag: &'static str) -> SharedCfg {
    let mut a = AmqpServiceConfig::new()
        .set_channel_max(c.channel_max)
        .set_max_frame_size(c.max_frame)
        .set_max_size(c.max_size)
        .set_handshake_timeout(Seconds(c.hs_timeout));
    a.idle_time_out = c.idle_ms;
    if let Some(h) = &c.hostname {
        a = a.set_hostname(h);
    }
    let mut i = IoConfig::new().set_disconnect_timeout(Seconds(c.disconnect_timeout));
    if c.rbuf > 0 {
        i = i.set_read_buf(c.rbuf, (c.rbuf / 4).max(1), 4);
    }
    if c.wbuf > 0 {
        i = i.set_write_buf(c.wbuf, (c.wbuf / 4).max(1), 4);
    }
    SharedCfg::new(tag).add(a).add(i).into()
}

#[allow(dead_code)]
pub type AmqpF = AmqpFrame;
#[allow(dead_code)]
pub fn _s() {
    let _ = sim::US;
    NODES.with(|_| ());
}
