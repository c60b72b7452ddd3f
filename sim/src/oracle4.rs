//! C10: keep-alive.
use crate::hist::{AppEv, Call, EvK};
use crate::oracle::Ck;
use crate::scen::Scenario;
use crate::sim::MS;
use crate::tracker::NEVER;
use crate::wire::Item;

/// the timers of the runtime are not exact
const FLOOR: u64 = 50 * MS;

/// nothing outside of endpoint x delays what it writes
fn free(s: &Scenario, x: usize) -> bool {
    let n = &s.net[x];
    let y = 1 - x;
    n.stalls.is_empty()
        && n.short_write == 0
        && n.cap >= 1 << 20
        && !(s.eps[y].real && s.eps[y].rbuf > 0)
        && !s.ops.iter().any(|o| o.side == y && matches!(o.k, crate::scen::OpK::ReadStall { .. }))
}

impl Ck<'_> {
    pub fn c10(&mut self) {
        for c in 0..self.t.conns.len() {
            for x in 0..2 {
                if self.real(x) {
                    self.c10_side(c, x);
                }
            }
        }
    }

    fn c10_side(&mut self, c: usize, x: usize) {
        let t = self.t;
        let y = 1 - x;
        let k = &t.conns[c];
        let (Some((ox, _)), Some((oy, py))) = (&k.open[x], &k.open[y]) else { return };
        if oy.read == NEVER {
            return;
        }
        let idle = u64::from(py.u32(4).unwrap_or(0)) * MS;
        let mut down = t.conn_down(c);
        let mut seqs = vec![];
        let mut empty = vec![];
        for e in t.evs {
            match &e.k {
                EvK::Wire { conn, from, item, .. } if *conn == k.id && *from == x => {
                    let Item::Frame(f) = &**item else { continue };
                    seqs.push(e.seq);
                    if f.perf.is_none() {
                        empty.push(e.seq);
                    }
                }
                // the connection is over for the endpoint
                EvK::App { conn, side, e: AppEv::Ctl { kind, .. } } if *conn == k.id && *side == x => {
                    if matches!(*kind, "Error" | "ProtocolError" | "Closed" | "Disconnected") {
                        down = down.min(e.seq);
                    }
                }
                EvK::Cut { conn, .. } if *conn == k.id => down = down.min(e.seq),
                _ => {}
            }
        }
        for o in &t.ops {
            if o.conn == k.id
                && o.side == x
                && let Some((seq, _, _)) = &o.ret
                && matches!(o.c, Call::Serve)
            {
                // the task of the connection has ended
                down = down.min(*seq);
            }
        }
        if idle == 0 {
            if let Some(s) = empty.first()
                && *s < down
            {
                self.fail("C10", *s, format!("side {x} sends empty frames, the peer has announced no idle time-out"));
            }
            return;
        }
        if !free(self.s, x) {
            return;
        }
        let mut last = ox.seq.max(oy.read);
        let max = idle.max(FLOOR);
        for s in seqs.into_iter().filter(|s| *s > last).chain([down.min(t.end)]).collect::<Vec<_>>() {
            if last >= down {
                break;
            }
            let s = s.min(down);
            let gap = t.time(s) - t.time(last);
            if gap >= max {
                self.fail(
                    "C10",
                    s,
                    format!(
                        "side {x} is silent for {} ms after event {last}, the idle time-out of the peer is {} ms",
                        gap / MS,
                        idle / MS
                    ),
                );
                return;
            }
            last = s;
        }
    }
}

/// what the run has exercised
pub fn pings(s: &Scenario, h: &[crate::hist::Ev]) -> u64 {
    h.iter()
        .filter(|e| {
            matches!(&e.k, EvK::Wire { from, item, .. }
                if s.eps[*from].real && matches!(&**item, Item::Frame(f) if f.perf.is_none()))
        })
        .count() as u64
}
