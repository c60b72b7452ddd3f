//! The totally ordered history of a run.
use std::rc::Rc;

use crate::wire::{self, Item, V};

#[derive(Clone, Debug)]
pub struct Ev {
    pub seq: usize,
    pub t: u64,
    pub k: EvK,
}

pub type OpId = usize;

#[derive(Clone, Debug)]
pub enum EvK {
    /// completely handed to the network by `from`
    Wire { conn: usize, from: usize, fi: usize, item: Rc<Item> },
    /// completely read from the network by the other side
    Read { conn: usize, from: usize, fi: usize },
    /// a direction ends; own: the node closed it
    Cut { conn: usize, from: usize, rst: bool, own: bool },
    IoClosed { conn: usize, side: usize },
    /// an incomplete frame is as large as this
    Head { conn: usize, from: usize, size: u64 },
    /// everything that had arrived at the real endpoint has been processed
    Settled { conn: usize, side: usize },
    Call { conn: usize, side: usize, op: OpId, c: Call },
    Ret { conn: usize, side: usize, op: OpId, r: Ret },
    App { conn: usize, side: usize, e: AppEv },
    /// from here on the model grants generously and no new faults are injected
    Heal,
    /// end of the run
    End,
    Note(String),
}

#[derive(Clone, Debug)]
pub enum Body {
    Raw(Rc<Vec<u8>>),
    /// message sections
    Msg(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Call {
    Connect,
    Serve,
    OpenSession { s: usize },
    Attach { s: usize, l: usize, name: String, sender: bool },
    Send { lid: usize, m: u64, settled: bool, tag: Option<Vec<u8>>, format: Option<u32>, body: Body, cancel: bool },
    Wait { m: u64 },
    Ready { lid: usize },
    OnCredit { lid: usize },
    RecvLoop { lid: usize },
    CloseLink { lid: usize },
    DetachLink { lid: usize },
    OnCloseLink { lid: usize },
    End { sid: usize },
    CloseConn,
    ForceClose,
    OnCloseConn,
}

#[derive(Clone, Debug)]
pub enum Ret {
    Ok,
    Err { kind: String, cond: Option<String> },
    Session { sid: usize },
    Link { lid: usize },
    Sent { id: u32, tag: Vec<u8> },
    /// None: no state
    Outcome(Option<V>),
    Bool(bool),
    Cancelled,
    /// the stream ended
    None,
}

#[derive(Clone, Debug)]
pub enum AppEv {
    SessionUp { sid: usize, s: Option<usize>, ch: u16, rch: u16 },
    LinkUp { lid: usize, l: Option<usize>, sid: usize, ch: u16, handle: u32, rhandle: u32, name: String, sender: bool, local: bool, lnk: usize },
    /// a delivery was handed to the application
    Deliver { lid: usize, id: u32, tag: Vec<u8>, settled: bool, format: Option<u32>, body: Vec<u8> },
    /// the application settles (or updates, or drops) a received delivery
    Settle { lid: usize, id: u32, state: V },
    Update { lid: usize, id: u32, state: V },
    DropDelivery { lid: usize, id: u32 },
    /// what a delivery says about the other side, without waiting
    /// the receiver said whether a delivery is waiting, then was asked for it
    Queue { lid: usize, has: bool, got: bool },
    Peek { lid: usize, id: u32, sender: bool, settled: bool, state: Option<V> },
    /// looking a link up in its session by handle and by name
    Lookup { lid: usize, by: &'static str, found: Option<(usize, u32, u32)> },
    /// whether the connection still hands out a session that is being ended
    EndSays { sid: usize, found: bool },
    /// what the connection says about itself
    ConnSays { opened: bool, err: Option<(String, Option<String>)> },
    /// what the session says about the room it has and about its channels
    SessSays { sid: usize, window: u32, ch: u16, rch: u16, found: Option<(u16, u16)> },
    /// the application drops a sender-side delivery
    DropSent { m: u64 },
    Granted { lid: usize, n: u32 },
    Credit { lid: usize, n: u32 },
    MaxSize { lid: usize, n: u64 },
    /// control service called / finished
    Ctl { id: usize, kind: &'static str, ch: Option<u16>, handle: Option<u32>, rhandle: Option<u32>, name: Option<String>, detail: String, sid: Option<usize>, lnk: Option<usize> },
    CtlDone { id: usize, err: Option<String> },
    /// publish service
    Pub { id: usize, kind: &'static str, handle: Option<u32>, name: Option<String>, ch: Option<u16>, n: usize },
    PubDone { id: usize, err: Option<String> },
    /// router handler
    Handler { hid: usize, lnk: usize, kind: &'static str, route: usize, path: String, detail: String, id: u32, tag: Vec<u8>, settled: bool, format: Option<u32>, body: Vec<u8> },
    Opened { is_opened: bool },
    /// parameters of the peer as seen by the application
    Remote { max_frame: u32, channel_max: u16, idle: u32, hostname: Option<String> },
    Cred { what: String },
    /// a performative as the application sees it, all fields
    Seen { v: V },
    /// an error as the application sees it
    SeenErr { v: V },
    /// what the application wants the attach to say
    Terms { l: usize, name: String, sender: bool, f: Vec<V> },
    /// a message read from a delivery
    Decoded { body: Vec<u8>, r: Result<Vec<V>, String> },
    /// the error an operation was given
    Given { op: OpId, err: Option<String> },
    Misc(String),
}

impl EvK {
    pub fn brief(&self) -> String {
        match self {
            EvK::Wire { conn, from, fi, item } => {
                format!("c{conn} {from}->  #{fi} {}", wire::brief(item))
            }
            EvK::Read { conn, from, fi } => format!("c{conn}   ->{} read #{fi}", 1 - from),
            EvK::App { conn, side, e: AppEv::Seen { v: V::Desc(d, v) } }
                if d.as_u64() == Some(wire::OPEN) =>
            {
                // the container id is random
                let f = if let V::List(f) = &**v { f.get(1..).unwrap_or_default() } else { &[] };
                let s = format!("App {{ conn: {conn}, side: {side}, e: Seen open {f:?}");
                s.chars().take(600).collect()
            }
            k => {
                let s = format!("{k:?}");
                if s.len() > 600 { s.chars().take(600).collect() } else { s }
            }
        }
    }
}
