//! Scenario: everything that determines a run.
use serde::{Deserialize, Serialize};

use crate::net::DirCfg;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub family: String,
    pub seed: u64,
    pub eps: [EpCfg; 2],
    pub net: [DirCfg; 2],
    pub poll_cost: u64,
    pub ops: Vec<Op>,
    /// the model turns generous, no further disturbance
    pub heal_at: u64,
    /// the connection is cut (0 = not)
    pub cut_at: u64,
    pub end_at: u64,
    #[serde(default)]
    pub flags: Vec<String>,
    /// free-form extra data for specialised families
    #[serde(default)]
    pub extra: Vec<Vec<u8>>,
    #[serde(default)]
    pub script: Vec<crate::script::Step>,
    /// what a hostile model does
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub muts: Vec<crate::hostile::Mut>,
    /// another connection in the same process
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub bystander: Option<Box<Scenario>>,
    /// how the stream of the peer is cut
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cuts: Option<crate::cuts::Cuts>,
    /// the peer plays this
    #[serde(skip)]
    pub tape: Option<crate::cuts::Tape>,
    /// what the peer writes, and what can be seen of the endpoint, is wanted
    #[serde(skip)]
    pub observe: bool,
}

impl Scenario {
    pub fn flag(&self, f: &str) -> bool {
        self.flags.iter().any(|x| x == f)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EpCfg {
    pub real: bool,
    pub max_frame: u32,
    /// model only: leave the field out
    pub omit_max_frame: bool,
    pub channel_max: u16,
    pub idle_ms: u32,
    /// inbound limit (real only), 0 = none
    pub max_size: usize,
    pub hs_timeout: u16,
    pub sasl: bool,
    pub hostname: Option<String>,
    /// real: io buffers (read high, write high)
    pub rbuf: usize,
    pub wbuf: usize,
    pub disconnect_timeout: u16,
    /// real: control service delay range (ns)
    pub ctl_delay: (u64, u64),
    /// publish service delay range (ns)
    pub pub_delay: (u64, u64),
    /// real server uses the library's default control service
    pub default_ctl: bool,
    /// default receiving policy of remotely opened links (real), of all links (model)
    pub rcv: RcvPol,
    pub model: ModelCfg,
    pub router: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RcvPol {
    /// initial credit
    pub grant: u32,
    pub regrant_at: u32,
    pub regrant: u32,
    /// None: leave the default
    pub max_size: Option<u64>,
    /// weights: accept, reject, release, modified, drop, hold
    pub mix: [u8; 6],
    /// percentage that first gets a non-final update
    pub update_pct: u8,
    pub delay: (u64, u64),
    /// real: application waits this long before taking the next delivery
    pub take_delay: (u64, u64),
    /// model: max number of deliveries covered by one disposition
    pub batch: u32,
    pub shuffle: bool,
    /// model: settle in two steps (state, then settled)
    pub two_step_pct: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ModelCfg {
    /// encoding freedom in percent
    pub vary: u32,
    pub sym_desc: bool,
    pub next_out_id: u32,
    pub first_delivery_id: u32,
    pub in_window: u32,
    /// the window announced when the session begins, if it is another one
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub begin_window: Option<u32>,
    /// send a new window when the remaining one is <= this
    pub rewindow_at: u32,
    pub out_window: u32,
    /// delay of every reaction
    pub delay: (u64, u64),
    /// own channel and handle numbers are not the identity
    pub scatter: bool,
    /// refuse this percentage of attaches
    pub refuse_pct: u8,
    /// initial delivery count of links the model sends on
    pub init_dc: u32,
    /// announced max-message-size on attaches (0 = none)
    pub max_msg: u64,
    /// never answers these performatives
    pub mute: Vec<u64>,
    /// frame payload limit when sending (0 = as large as allowed)
    pub split: usize,
    /// sends flows without a next-incoming-id (only before it has seen a begin)
    pub echo_pct: u8,
    /// repeat delivery-id/tag on continuation frames
    pub repeat_pct: u8,
    /// ignore credit of the peer
    pub over_credit: bool,
    /// extra flows: percentage per received transfer
    pub flow_noise: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub at: u64,
    pub side: usize,
    pub k: OpK,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum After {
    /// wait for the outcome
    Wait,
    /// wait, several times
    WaitN(u8),
    /// wait after a pause
    WaitLater(u64),
    /// several at once
    WaitBoth(u8),
    /// give up waiting after this many ns, then wait again
    WaitGiveUp(u64),
    /// keep it until the end of the run, never wait
    Keep,
    Drop,
    /// settle locally
    Settle,
    /// give up the send after this many ns
    Cancel(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SendSpec {
    pub m: u64,
    pub len: usize,
    pub settled: bool,
    pub tag: Option<Vec<u8>>,
    pub format: Option<u32>,
    /// encode as a structured message (real), data section of len bytes
    pub msg: bool,
    pub after: After,
    /// model only: abort after the n-th frame
    pub abort: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum OpK {
    Begin { s: usize },
    /// real: given up after this many ns
    BeginCancel { s: usize, after: u64 },
    /// model: on a channel the other side does not allow (by this much), or on one in use
    BeginOver { by: u32 },
    Attach { s: usize, l: usize, name: String, sender: bool, addr: String, rcv: Option<RcvPol>, refuse: bool, max_size: Option<u64> },
    Send { l: usize, spec: SendSpec },
    Grant { l: usize, n: u32 },
    /// model: announce exactly this much credit
    Credit { l: usize, n: u32 },
    /// model: announce exactly this window
    Window { s: usize, n: u32 },
    /// model: flow with echo, on the link or on the session only
    Echo { s: usize, l: Option<usize> },
    Detach { l: usize, closed: bool, err: Option<String> },
    CloseLink { l: usize, err: Option<String> },
    DropLink { l: usize },
    End { s: usize, err: Option<String> },
    CloseConn { err: Option<String> },
    ForceClose,
    Ready { l: usize },
    OnCredit { l: usize },
    OnCloseLink { l: usize },
    OnCloseConn,
    /// model: does not read for this long
    ReadStall { d: u64 },
    Raw { bytes: Vec<u8> },
    /// model: an empty frame
    Empty,
    /// model: disposition about anything
    Disp { s: usize, role_receiver: bool, first: u32, last: Option<u32>, settled: bool, state: u8 },
}
