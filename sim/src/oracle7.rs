//! C14: nothing a peer sends harms more than its own connection.
use std::collections::BTreeMap;

use crate::hist::{Call, Ev, EvK, OpId};
use crate::model::inbound_limit;
use crate::oracle::Violation;
use crate::scen::Scenario;
use crate::sim::{MS, SEC};
use crate::wire::Item;

/// the history of one connection, as if it were the only one
pub fn only(h: &[Ev], id: usize) -> Vec<Ev> {
    h.iter()
        .filter_map(|e| {
            let mut e = e.clone();
            match &mut e.k {
                EvK::Wire { conn, .. }
                | EvK::Read { conn, .. }
                | EvK::Cut { conn, .. }
                | EvK::IoClosed { conn, .. }
                | EvK::Settled { conn, .. }
                | EvK::Call { conn, .. }
                | EvK::Ret { conn, .. }
                | EvK::App { conn, .. }
                | EvK::Head { conn, .. } => {
                    if *conn != id {
                        return None;
                    }
                    *conn = 0;
                }
                EvK::Heal | EvK::End | EvK::Note(_) => {}
            }
            Some(e)
        })
        .enumerate()
        .map(|(i, mut e)| {
            e.seq = i;
            e
        })
        .collect()
}

pub fn check(s: &Scenario, h: &[Ev], received: u64, largest: u64) -> Vec<Violation> {
    let mut out = vec![];
    let mut fail = |seq: usize, msg: String| {
        if out.len() < 20 {
            out.push(Violation { prop: "C14".into(), msg, seq });
        }
    };
    let x = usize::from(s.eps[1].real);
    let end = h.last().map_or(0, |e| e.t);
    let mut open: BTreeMap<OpId, (usize, u64, String)> = BTreeMap::new();
    let mut closed = None;
    let limit = inbound_limit(s, x) as u64;
    let mut big: Option<(usize, u64, u64)> = None;
    for e in h {
        match &e.k {
            EvK::Call { conn: 0, op, c, .. } => {
                let mut t = match c {
                    Call::Send { .. } => "Send".to_string(),
                    c => format!("{c:?}"),
                };
                t.truncate(50);
                open.insert(*op, (e.seq, e.t, t));
            }
            EvK::Ret { conn: 0, op, .. } => {
                open.remove(op);
            }
            EvK::IoClosed { conn: 0, side } if *side == x => {
                closed.get_or_insert((e.seq, e.t));
            }
            EvK::Head { conn: 0, from, size } if *from != x && *size > limit => {
                big.get_or_insert((e.seq, e.t, *size));
            }
            EvK::Wire { conn: 0, from, item, .. } if *from != x => {
                if let Item::Frame(f) = &**item
                    && f.size as u64 > limit
                {
                    big.get_or_insert((e.seq, e.t, f.size as u64));
                }
            }
            _ => {}
        }
    }
    for (seq, t, what) in open.values() {
        if t + 4 * SEC < end {
            fail(*seq, format!("side {x}: {what} has never finished after hostile input"));
        }
    }
    if limit > 0
        && let Some((seq, t, n)) = big
    {
        // it has arrived, and the grace period of a shutdown is over
        let due = t.max(s.heal_at) + (u64::from(s.eps[x].disconnect_timeout) + 2) * SEC;
        if due < s.cut_at && closed.is_none_or(|c| c.1 > due) {
            fail(seq, format!("side {x}: a frame of {n} bytes is not refused, the limit is {limit}"));
        }
    }
    if s.cut_at > 0 && closed.is_none() && h.iter().any(|e| matches!(&e.k, EvK::Call { conn: 0, .. })) {
        fail(h.len(), format!("side {x}: the connection object outlives its connection"));
    }
    // generous: own bookkeeping of the simulation is part of it
    let fair = (64 << 20) + 64 * received;
    if largest > fair {
        fail(h.len(), format!("an allocation of {largest} bytes after {received} received"));
    }
    let _ = MS;
    out
}
