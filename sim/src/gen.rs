//! Seed -> scenario, per property ("swarm": every run enables its own subset of features).
use crate::net::DirCfg;
use crate::rng::{Rng, mix};
use crate::scen::{After, EpCfg, ModelCfg, Op, OpK, RcvPol, Scenario, SendSpec};
use crate::sim::{MS, SEC, US};

pub const T0: u64 = SEC;

pub fn seed_of(prop: &str, base: u64, n: u64) -> u64 {
    let mut h = mix(base);
    for b in prop.bytes() {
        h = mix(h ^ u64::from(b));
    }
    mix(h ^ n) >> 12
}

pub fn generate(prop: &str, seed: u64) -> Scenario {
    let mut rng = Rng::new(mix(seed ^ 0x9e4));
    match prop {
        "C08" => crate::gen_cuts::generate(prop, seed, &mut rng),
        "C09" => crate::gen_hs::generate(prop, seed, &mut rng),
        "C14" => crate::gen_c14::generate(prop, seed, &mut rng),
        "C19" => values(traffic(prop, seed, &mut rng), &mut rng),
        _ => traffic(prop, seed, &mut rng),
    }
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub ops: Vec<Op>,
    pub m: u64,
    pub l: usize,
    pub s: usize,
    /// (link name, sending side) -> side that attaches it
    pub keys: std::collections::BTreeMap<(String, usize), usize>,
}

impl G<'_> {
    pub fn op(&mut self, at: u64, side: usize, k: OpK) {
        self.ops.push(Op { at, side, k });
    }
}

pub fn pol(r: &mut Rng) -> RcvPol {
    let grant = *r.pick(&[1u32, 1, 2, 3, 5, 10, 50, 300]);
    let mut mix = [0u8; 6];
    for x in &mut mix {
        if r.pct(45) {
            *x = r.range(1, 10) as u8;
        }
    }
    if mix[..4].iter().all(|x| *x == 0) {
        mix[0] = 5;
    }
    if r.pct(60) {
        mix[5] = 0;
    }
    RcvPol {
        grant,
        regrant_at: r.below(u64::from(grant)) as u32,
        regrant: *r.pick(&[1u32, 1, 2, 5, grant]),
        max_size: None,
        mix,
        update_pct: *r.pick(&[0u8, 0, 10, 40]),
        delay: *r.pick(&[(0, 0), (0, 200 * US), (0, 5 * MS), (MS, 60 * MS)]),
        take_delay: *r.pick(&[(0, 0), (0, 0), (0, MS), (0, 20 * MS)]),
        batch: *r.pick(&[1u32, 1, 3, 10, 40]),
        shuffle: r.pct(40),
        two_step_pct: *r.pick(&[0u8, 0, 20, 80]),
    }
}

pub fn num32(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 0,
        1 => 1,
        2 => u32::MAX - r.below(6) as u32,
        3 => (1u32 << 31) - r.below(4) as u32,
        4 => r.below(1000) as u32,
        _ => r.next() as u32,
    }
}

pub fn model(r: &mut Rng) -> ModelCfg {
    let in_window = *r.pick(&[1u32, 2, 3, 5, 10, 100, 2048, 65535]);
    ModelCfg {
        vary: *r.pick(&[0u32, 0, 10, 50]),
        sym_desc: r.pct(20),
        next_out_id: num32(r),
        first_delivery_id: num32(r),
        in_window,
        begin_window: None,
        rewindow_at: r.below(u64::from(in_window)) as u32,
        out_window: *r.pick(&[0u32, 1, 100, u32::MAX]),
        delay: *r.pick(&[(0, 0), (0, 20 * US), (0, MS), (0, 20 * MS)]),
        scatter: r.pct(60),
        refuse_pct: 0,
        init_dc: num32(r),
        max_msg: *r.pick(&[0u64, 0, 1 << 20, u64::from(u32::MAX), 1 << 40]),
        mute: vec![],
        split: *r.pick(&[0usize, 0, 1, 30, 200]),
        echo_pct: *r.pick(&[0u8, 0, 20]),
        repeat_pct: *r.pick(&[0u8, 0, 50]),
        over_credit: false,
        flow_noise: *r.pick(&[0u8, 0, 20]),
    }
}

pub fn ep(r: &mut Rng, real: bool) -> EpCfg {
    let max_frame = if real {
        *r.pick(&[512u32, 600, 1000, 2048, 2049, 2100, 4096, 65535, 65535])
    } else {
        *r.pick(&[512u32, 520, 700, 1024, 2047, 2048, 2049, 2100, 3000, 16384, 65536, u32::MAX])
    };
    EpCfg {
        real,
        max_frame,
        omit_max_frame: !real && r.pct(5),
        channel_max: *r.pick(&[10u16, 100, 1024, 65535]),
        idle_ms: 0,
        max_size: 0,
        hs_timeout: 5,
        sasl: false,
        hostname: if r.pct(20) { Some("host.example".into()) } else { None },
        rbuf: 0,
        wbuf: 0,
        disconnect_timeout: *r.pick(&[1u16, 2]),
        ctl_delay: *r.pick(&[(0, 0), (0, 0), (0, MS), (0, 30 * MS), (0, 200 * MS)]),
        pub_delay: *r.pick(&[(0, 0), (0, 0), (0, MS), (0, 20 * MS)]),
        default_ctl: false,
        rcv: pol(r),
        model: model(r),
        router: false,
    }
}

pub fn net(r: &mut Rng, span: u64) -> DirCfg {
    let mut stalls = vec![];
    if r.pct(25) {
        for _ in 0..r.range(1, 3) {
            let a = T0 + r.below(span);
            stalls.push((a, a + r.range(MS, 300 * MS)));
        }
    }
    DirCfg {
        cap: *r.pick(&[1usize << 20, 1 << 20, 1 << 16, 4096, 700, 64]),
        lat: *r.pick(&[(0, 0), (US, 10 * US), (10 * US, 500 * US), (MS, 5 * MS), (0, 40 * MS)]),
        frag: *r.pick(&[0usize, 0, 0, 1, 7, 100, 1500]),
        short_write: *r.pick(&[0usize, 0, 0, 1, 50, 900]),
        short_read: *r.pick(&[0usize, 0, 0, 1, 30, 900]),
        stalls,
        cut_after: 0,
        cut_at: 0,
        rst: false,
        exact: false,
    }
}

fn after(r: &mut Rng, cancel: u32) -> After {
    if r.pct(cancel) {
        return After::Cancel(*r.pick(&[0, 50 * US, 500 * US, 5 * MS, 50 * MS]));
    }
    match r.below(20) {
        0..=7 => After::Wait,
        8 => After::WaitBoth(r.range(2, 3) as u8),
        9 => After::WaitGiveUp(*r.pick(&[0, 20 * US, MS, 20 * MS])),
        10 | 11 => After::WaitN(2),
        12..=14 => After::WaitLater(r.range(0, 80 * MS)),
        15 | 16 => After::Keep,
        17 | 18 => After::Drop,
        _ => After::Settle,
    }
}

pub fn size(r: &mut Rng, frame: u32) -> usize {
    let f = frame.clamp(512, 20_000) as usize;
    match r.below(10) {
        0 => 0,
        1 | 2 => r.below(40) as usize,
        3 | 4 => r.below(400) as usize,
        5 => f - r.below(120) as usize,
        6 => (f * 2).saturating_sub(r.below(200) as usize),
        7 => f.saturating_sub(40) + r.below(80) as usize,
        8 => r.below(4 * f as u64) as usize,
        _ => r.below(1500) as usize,
    }
}

/// idle time-outs
fn idle(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 => 0,
        1..=6 => *r.pick(&[
            50u32, 51, 64, 99, 100, 101, 200, 400, 499, 500, 501, 999, 1000, 1001, 1300, 1333, 1334, 1500, 1999, 2000, 2001, 2500,
            2666, 2667, 3000, 5000, 10_000,
        ]),
        7 => *r.pick(&[1u32, 2, 3, 10, 49]),
        8 => *r.pick(&[30_000u32, 60_000, 120_000, 3_600_000, u32::MAX - 1, u32::MAX]),
        _ => r.range(50, 6000) as u32,
    }
}

struct LinkG {
    l: usize,
    opener: usize,
    sender: usize,
    /// limit of the receiver
    max: Option<u64>,
}

/// the same with arbitrary values in every place that takes some
pub fn values(mut s: Scenario, r: &mut Rng) -> Scenario {
    s.flags.push("values".into());
    if r.below(300) == 0 {
        s.flags.push("desc-filter".into());
    }
    for e in &mut s.eps {
        e.max_frame = *r.pick(&[65_536u32, 100_000, 1 << 20, u32::MAX]);
        e.omit_max_frame = false;
        e.rcv.max_size = None;
        e.model.max_msg = 0;
        e.model.vary = *r.pick(&[0u32, 20, 50, 80]);
        e.model.sym_desc = r.pct(40);
    }
    let mut n = 5000;
    for o in &mut s.ops {
        match &mut o.k {
            OpK::Send { spec, .. } => {
                spec.msg = r.pct(90);
                if spec.len > 4096 && r.pct(90) {
                    spec.len %= 512;
                }
                if r.pct(10) {
                    spec.len = r.range(250, 260) as usize;
                }
            }
            OpK::Attach { rcv, max_size, .. } => {
                *max_size = None;
                if let Some(p) = rcv {
                    p.max_size = None;
                }
            }
            OpK::Detach { err, .. } | OpK::CloseLink { err, .. } | OpK::End { err, .. } | OpK::CloseConn { err } => {
                if r.pct(75) {
                    n += 1;
                    *err = Some(format!("key-{n}"));
                }
            }
            _ => {}
        }
    }
    s
}

pub fn traffic(prop: &str, seed: u64, r: &mut Rng) -> Scenario {
    let span = *r.pick(&[20 * MS, 100 * MS, 600 * MS]);
    let topo = r.below(100);
    let reals = match topo {
        0..=44 => [true, false],
        45..=84 => [false, true],
        _ => [true, true],
    };
    let router = match prop {
        "C17" => true,
        "C01" | "C12" | "C06" => r.pct(6),
        _ => false,
    };
    let reals = if router { [r.pct(40), true] } else { reals };
    let mut eps = [ep(r, reals[0]), ep(r, reals[1])];
    eps[1].router = router;
    let mut nets = [net(r, span), net(r, span)];
    let mut flags: Vec<String> = vec![];
    // what this run is about
    let teardown = match prop {
        "C06" => true,
        "C11" | "C13" | "C17" | "C18" => r.pct(75),
        "C05" | "C03" | "C04" | "C16" => r.pct(10),
        _ => r.pct(35),
    };
    let cancel = match prop {
        "C03" | "C04" | "C05" | "C06" => *r.pick(&[0u32, 15, 50]),
        _ => *r.pick(&[0u32, 0, 0, 20]),
    };
    let credit_ops = match prop {
        "C03" => r.pct(80),
        "C18" | "C05" => r.pct(50),
        _ => r.pct(20),
    };
    let window_ops = match prop {
        "C04" => r.pct(80),
        "C05" => r.pct(50),
        _ => r.pct(15),
    };
    if prop == "C04" {
        for e in &mut eps {
            e.model.in_window = *r.pick(&[1u32, 2, 3, 5, 10]);
            e.model.rewindow_at = r.below(u64::from(e.model.in_window)) as u32;
        }
    }
    if r.pct(if prop == "C04" { 40 } else { 8 }) {
        // opened (or reduced) by a later flow
        for e in &mut eps {
            e.model.begin_window = Some(*r.pick(&[0u32, 0, 0, 1, 2, 7, u32::MAX]));
        }
    }
    if prop == "C16" {
        for e in &mut eps {
            e.max_frame = *r.pick(&[512u32, 512, 513, 530, 700, 1024, 2040, 2048, 2049, 2060, 4096]);
        }
    }
    if r.pct(30) {
        flags.push("recv-loop".into());
    }
    if prop == "C15" {
        for e in &mut eps {
            e.channel_max = *r.pick(&[0u16, 0, 1, 1, 2, 3, 5, 8, 40, 65535]);
        }
    }
    if prop == "C10" {
        // the other side is real
        let y = match (eps[0].real, eps[1].real) {
            (true, true) => r.below(2) as usize,
            (a, _) => usize::from(a),
        };
        eps[1 - y].idle_ms = 0;
        eps[y].idle_ms = idle(r);
        if r.pct(20) {
            // without influence
            eps[1 - y].idle_ms = idle(r);
        }
        if r.pct(80) {
            let x = 1 - y;
            nets[x].cap = 1 << 20;
            nets[x].stalls.clear();
            nets[x].short_write = 0;
            flags.push("free".into());
        }
    }
    if router {
        for (f, p) in [("slow-ready", 25), ("ready-fail", 6), ("slow-shutdown", 25)] {
            if r.pct(p) {
                flags.push(f.into());
            }
        }
    }
    if prop == "C07" {
        for e in &mut eps {
            e.model.over_credit = r.pct(30);
            if r.pct(60) {
                e.model.max_msg = *r.pick(&[1u64, 9, 100, 600, 2000, 70_000]);
            }
        }
    }
    let mut g = G { r, ops: vec![], m: 1, l: 0, s: 0, keys: Default::default() };
    let nsess = g.r.range(1, 3) as usize;
    let mut links: Vec<LinkG> = vec![];
    let mut sess: Vec<(usize, u64)> = vec![];
    for _ in 0..nsess {
        let s = g.s;
        g.s += 1;
        let by = g.r.below(2) as usize;
        let at = if g.r.pct(70) { T0 } else { T0 + g.r.below(span / 2) };
        g.op(at, by, OpK::Begin { s });
        sess.push((s, at));
        let nl = g.r.range(1, 4);
        for _ in 0..nl {
            let at = if g.r.pct(60) { at } else { at + g.r.below(span / 2) };
            let lk = attach(&mut g, s, at, prop, &eps, None);
            links.push(lk);
        }
    }
    let most = if g.r.pct(20) { 60 } else { 12 };
    let nmsg = g.r.range(1, most);
    for _ in 0..nmsg {
        let i = g.r.below(links.len() as u64) as usize;
        let at = T0 + g.r.below(span);
        // bursts
        let n = if g.r.pct(30) { g.r.range(1, 8) } else { 1 };
        for _ in 0..n {
            send(&mut g, &links[i], at, &eps, cancel);
        }
    }
    // more deliveries than the credit a link starts with
    if eps[1].router && g.r.pct(if prop == "C17" { 12 } else { 3 })
        && let Some(lk) = links.iter().find(|l| l.sender == 0)
    {
        let at = T0 + g.r.below(span / 2);
        let n = g.r.range(45, 130);
        let before = g.ops.len();
        for _ in 0..n {
            let at = if g.r.pct(70) { at } else { T0 + g.r.below(span) };
            send(&mut g, lk, at, &eps, cancel);
        }
        for o in &mut g.ops[before..] {
            if let OpK::Send { spec, .. } = &mut o.k {
                spec.len %= 300;
            }
        }
        eps[1].pub_delay = (0, *g.r.pick(&[0, 10 * US, MS]));
    }
    // hundreds of deliveries that are decided by one frame
    if g.r.pct(if prop == "C02" { 4 } else { 0 })
        && let Some(lk) = links.iter().find(|l| !eps[1 - l.sender].real)
    {
        let many = |p: &mut RcvPol| {
            p.grant = 3000;
            p.regrant_at = 1000;
            p.regrant = 2000;
            p.max_size = None;
            p.mix = [3, 1, 1, 0, 0, 250];
            p.update_pct = 0;
            p.delay = (30 * MS, 30 * MS);
            p.take_delay = (0, 0);
            p.batch = 2000;
            p.shuffle = false;
        };
        let rcv = &mut eps[1 - lk.sender];
        many(&mut rcv.rcv);
        rcv.model.in_window = 65535;
        rcv.model.begin_window = None;
        for o in &mut g.ops {
            if let OpK::Attach { l, rcv: Some(p), .. } = &mut o.k
                && *l == lk.l
            {
                many(p);
            }
        }
        let at = T0 + g.r.below(span);
        let before = g.ops.len();
        for _ in 0..g.r.range(200, 700) {
            send(&mut g, lk, at, &eps, 0);
        }
        for o in &mut g.ops[before..] {
            if let OpK::Send { spec, .. } = &mut o.k {
                spec.len %= 8;
                spec.msg = false;
                spec.settled = false;
                spec.after = After::Wait;
            }
        }
    }
    if prop == "C07" && g.r.pct(30) {
        for o in &mut g.ops {
            if !eps[o.side].real
                && let OpK::Send { spec, .. } = &mut o.k
                && g.r.pct(25)
            {
                spec.abort = true;
            }
        }
    }
    if prop == "C15" {
        channels(&mut g, &mut sess, &eps, span);
    }
    for l in &links {
        if g.r.pct(30) {
            let at = T0 + g.r.below(span);
            let k = if g.r.pct(70) { OpK::Ready { l: l.l } } else { OpK::OnCredit { l: l.l } };
            g.op(at, l.sender, k);
        }
        if g.r.pct(15) {
            let at = T0 + g.r.below(span);
            g.op(at, l.sender, OpK::OnCloseLink { l: l.l });
        }
        if credit_ops {
            for _ in 0..g.r.range(1, 6) {
                let at = T0 + g.r.below(span);
                let n = *g.r.pick(&[0u32, 0, 1, 2, 3, 10, 1000]);
                let k = if g.r.pct(80) { OpK::Credit { l: l.l, n } } else { OpK::Grant { l: l.l, n: n.min(10) } };
                let rs = 1 - l.sender;
                if eps[rs].real {
                    g.op(at, rs, OpK::Grant { l: l.l, n: n.min(50) });
                } else {
                    g.op(at, rs, k);
                }
            }
        }
        if g.r.pct(15) {
            let rs = 1 - l.sender;
            for s in [rs, l.sender] {
                if !eps[s].real && g.r.pct(60) {
                    let lnk = if g.r.pct(70) { Some(l.l) } else { None };
                    // the session index of a link is not kept: echo by link finds it
                    let _ = lnk;
                }
            }
        }
    }
    for (s, _) in &sess {
        for side in 0..2 {
            if eps[side].real {
                continue;
            }
            if window_ops {
                for _ in 0..g.r.range(1, 6) {
                    let at = T0 + g.r.below(span);
                    let n = *g.r.pick(&[0u32, 0, 1, 2, 3, 10, 1000]);
                    g.op(at, side, OpK::Window { s: *s, n });
                }
            }
            if g.r.pct(25) {
                for _ in 0..g.r.range(1, 3) {
                    let at = T0 + g.r.below(span);
                    g.op(at, side, OpK::Echo { s: *s, l: None });
                }
            }
        }
    }
    for side in 0..2 {
        let free = flags.iter().any(|f| f == "free");
        if !eps[side].real && g.r.pct(15) && !free {
            let at = T0 + g.r.below(span);
            let d = g.r.range(MS, 300 * MS);
            g.op(at, side, OpK::ReadStall { d });
        }
        if !eps[side].real && g.r.pct(10) {
            for _ in 0..3 {
                let at = T0 + g.r.below(span);
                g.op(at, side, OpK::Empty);
            }
        }
    }
    if teardown {
        tear(&mut g, prop, &sess, &mut links, span, &mut eps, &mut nets, cancel);
    }
    if g.r.pct(20) {
        let side = g.r.below(2) as usize;
        let at = T0 + g.r.below(span);
        g.op(at, side, OpK::OnCloseConn);
    }
    let heal_at = T0 + span + 200 * MS;
    let quiet = eps.iter().map(|e| u64::from(e.idle_ms)).max().unwrap().min(60_000) * 3 * MS;
    let quiet = if eps.iter().any(|e| (1..50).contains(&e.idle_ms)) { 0 } else { quiet };
    let calm = eps.iter().all(|e| e.idle_ms == 0 || e.idle_ms > 1500);
    let quiet = if prop == "C10" && calm && g.r.pct(3) { quiet + 3600 * SEC } else { quiet };
    let cut_at = heal_at + (12 * SEC).max(quiet.min(3800 * SEC));
    let end_at = cut_at + 8 * SEC;
    // late operations must fail at once
    if g.r.pct(40) {
        for _ in 0..g.r.range(1, 4) {
            let at = cut_at + 4 * SEC;
            let i = g.r.below(links.len() as u64) as usize;
            match g.r.below(5) {
                0 => {
                    let s = g.s;
                    g.s += 1;
                    let side = usize::from(!eps[0].real);
                    g.op(at, side, OpK::Begin { s });
                }
                1 => {
                    let (s, _) = sess[0];
                    attach(&mut g, s, at, prop, &eps, None);
                }
                2 => g.op(at, links[i].sender, OpK::Ready { l: links[i].l }),
                3 => {
                    let side = links[i].opener;
                    g.op(at, side, OpK::CloseLink { l: links[i].l, err: None });
                }
                _ => send(&mut g, &links[i], at, &eps, 0),
            }
        }
    }
    let poll_cost = *g.r.pick(&[0, 0, 2 * US, 50 * US]);
    let ops = g.ops;
    Scenario {
        prop: prop.into(),
        family: "traffic".into(),
        seed,
        eps,
        net: nets,
        poll_cost,
        ops,
        heal_at,
        cut_at,
        end_at,
        flags,
        extra: vec![],
        script: vec![],
        muts: vec![],
        bystander: None,
        cuts: None,
        tape: None,
        observe: false,
    }
}

/// sessions up to the limit and beyond, and sessions that end
fn channels(g: &mut G, sess: &mut Vec<(usize, u64)>, eps: &[EpCfg; 2], span: u64) {
    let limit = u64::from(eps[0].channel_max.min(eps[1].channel_max)) + 1;
    let one = g.r.pct(70);
    let who = g.r.below(2) as usize;
    let waves = g.r.range(1, 4);
    for w in 0..waves {
        let from = T0 + w * span / waves;
        let n = g.r.below(limit.min(12) + 4);
        for _ in 0..n {
            let s = g.s;
            g.s += 1;
            let at = if g.r.pct(40) { from } else { from + g.r.below(span / waves) };
            let side = if one { who } else { g.r.below(2) as usize };
            if eps[side].real && g.r.pct(8) {
                let after = *g.r.pick(&[0, 100 * US, 2 * MS, 30 * MS]);
                g.op(at, side, OpK::BeginCancel { s, after });
            } else {
                g.op(at, side, OpK::Begin { s });
            }
            sess.push((s, at));
        }
        for _ in 0..g.r.below(limit.min(12) + 2) {
            let i = g.r.below(sess.len() as u64) as usize;
            let at = from + g.r.below(span / waves);
            let side = g.r.below(2) as usize;
            g.op(at, side, OpK::End { s: sess[i].0, err: None });
        }
    }
    for side in 0..2 {
        if !eps[side].real && g.r.pct(12) {
            let by = *g.r.pick(&[0u32, 0, 1, 7, 60_000]);
            let at = T0 + g.r.below(span);
            g.op(at, side, OpK::BeginOver { by });
        }
    }
}

fn attach(g: &mut G, s: usize, at: u64, prop: &str, eps: &[EpCfg; 2], again: Option<String>) -> LinkG {
    let l = g.l;
    g.l += 1;
    let name = again.clone().unwrap_or_else(|| format!("link-{l}"));
    // one and the same link endpoint pair is only re-attached by the side that attached it before
    let sender = match g.keys.iter().find(|k| Some(&k.0.0) == again.as_ref()) {
        Some(k) if g.r.pct(70) => k.0.1,
        _ => g.r.below(2) as usize,
    };
    let router = eps[1].router;
    let sender = if router && g.r.pct(80) { 0 } else { sender };
    let any = if router && g.r.pct(90) { 0 } else { g.r.below(2) as usize };
    let opener = *g.keys.entry((name.clone(), sender)).or_insert(any);
    let snd = sender == opener;
    let mut rcv = if g.r.pct(60) { Some(pol(g.r)) } else { None };
    if prop == "C07" || g.r.pct(5) {
        let mut p = rcv.unwrap_or_else(|| eps[1 - sender].rcv.clone());
        p.max_size = Some(*g.r.pick(&[0u64, 1, 9, 100, 600, 2000, 70_000]));
        rcv = Some(p);
    }
    let max = match eps[1 - sender].real {
        true => rcv.as_ref().and_then(|p| p.max_size),
        false => Some(eps[1 - sender].model.max_msg),
    };
    let max = max.filter(|m| *m > 0 && *m <= 100_000);
    let refuse = g.r.pct(match prop {
        "C18" | "C11" | "C13" => 20,
        "C17" => 8,
        _ => 3,
    });
    let addr = if router {
        let n = if prop == "C17" { 16 } else { 9 };
        match g.r.below(n) {
            0..=2 => "q/a".to_string(),
            3 | 4 => "q/b".to_string(),
            5 | 6 => format!("t/{}", g.r.below(3)),
            7 | 8 => format!("w/{}/x", g.r.below(3)),
            9 => "bad".to_string(),
            10 => "-none-".to_string(),
            11 => "-null-".to_string(),
            12 => "q".to_string(),
            13 => format!("q/a/{}", g.r.below(3)),
            14 => "w/1/y".to_string(),
            _ => "unknown".to_string(),
        }
    } else if g.r.pct(25) { "shared-address".to_string() } else { format!("addr-{l}") };
    g.op(at, opener, OpK::Attach { s, l, name, sender: snd, addr, rcv, refuse, max_size: None });
    LinkG { l, opener, sender, max }
}

fn send(g: &mut G, l: &LinkG, at: u64, eps: &[EpCfg; 2], cancel: u32) {
    let m = g.m;
    g.m += 1;
    let frame = eps[1 - l.sender].max_frame;
    // around the limit of the receiver
    let edge = match l.max {
        Some(x) if g.r.pct(50) => Some((x + 1).saturating_sub(g.r.below(3)) as usize),
        _ => None,
    };
    let spec = SendSpec {
        m,
        len: edge.unwrap_or_else(|| size(g.r, frame)),
        settled: g.r.pct(20),
        tag: if g.r.pct(40) {
            let n = *g.r.pick(&[1usize, 4, 8, 32]);
            let mut t = m.to_be_bytes()[7..].to_vec();
            if n > 1 {
                t = g.r.bytes(n);
                t[0] = m as u8;
                t[1] = (m >> 8) as u8;
            }
            // one byte tags would collide
            if t.len() < 2 { None } else { Some(t) }
        } else {
            None
        },
        format: if g.r.pct(30) { Some(*g.r.pick(&[0, 1, 0x8001_3700, u32::MAX])) } else { None },
        msg: edge.is_none() && g.r.pct(25),
        after: after(g.r, cancel),
        abort: !eps[l.sender].real && g.r.pct(5),
    };
    g.op(at, l.sender, OpK::Send { l: l.l, spec });
}

#[allow(clippy::too_many_arguments)]
fn tear(
    g: &mut G,
    prop: &str,
    sess: &[(usize, u64)],
    links: &mut Vec<LinkG>,
    span: u64,
    eps: &mut [EpCfg; 2],
    nets: &mut [DirCfg; 2],
    cancel: u32,
) {
    let n = g.r.range(1, 5);
    for _ in 0..n {
        let at = T0 + g.r.below(span);
        let side = g.r.below(2) as usize;
        let err = if g.r.pct(30) { Some(format!("torn-{}", g.r.below(100))) } else { None };
        let i = g.r.below(links.len() as u64) as usize;
        let si = g.r.below(sess.len() as u64) as usize;
        match g.r.below(20) {
            0..=6 => {
                let l = links[i].l;
                if g.r.pct(50) {
                    g.op(at, side, OpK::CloseLink { l, err });
                } else {
                    let closed = g.r.pct(70);
                    g.op(at, side, OpK::Detach { l, closed, err });
                }
                // both at the same time
                if g.r.pct(25) {
                    g.op(at, 1 - side, OpK::CloseLink { l, err: None });
                }
                // the name again
                if g.r.pct(50) {
                    let s = links_sess(&g.ops, l);
                    let again = at + g.r.below(span / 2);
                    let lk = attach(g, s, again, prop, eps, Some(format!("link-{l}")));
                    for _ in 0..g.r.range(0, 3) {
                        let t = again + g.r.below(span / 2);
                        send(g, &lk, t, eps, cancel);
                    }
                    links.push(lk);
                }
            }
            7..=11 => {
                let s = sess[si].0;
                g.op(at, side, OpK::End { s, err });
                if g.r.pct(25) {
                    g.op(at, 1 - side, OpK::End { s, err: None });
                }
                if g.r.pct(40) {
                    let s2 = g.s;
                    g.s += 1;
                    let t = at + g.r.below(span / 2);
                    let by = g.r.below(2) as usize;
                    g.op(t, by, OpK::Begin { s: s2 });
                    let lk = attach(g, s2, t, prop, eps, None);
                    for _ in 0..g.r.range(0, 3) {
                        let t = t + g.r.below(span / 2);
                        send(g, &lk, t, eps, cancel);
                    }
                    links.push(lk);
                }
            }
            12 | 13 if g.r.pct(if matches!(prop, "C06" | "C17") { 100 } else { 40 }) => {
                g.op(at, side, OpK::CloseConn { err });
            }
            14 if matches!(prop, "C06" | "C17") => g.op(at, side, OpK::ForceClose),
            15..=17 if matches!(prop, "C06" | "C17") || g.r.pct(20) => {
                let d = g.r.below(2) as usize;
                if g.r.pct(50) {
                    nets[d].cut_at = at;
                } else {
                    nets[d].cut_after = g.r.range(1, 6000);
                }
                nets[d].rst = g.r.pct(50);
            }
            18 if prop == "C06" => {
                for e in eps.iter_mut() {
                    if !e.real {
                        let c = *g.r.pick(&[
                            crate::wire::BEGIN,
                            crate::wire::ATTACH,
                            crate::wire::DETACH,
                            crate::wire::END,
                            crate::wire::CLOSE,
                            crate::wire::DISPOSITION,
                        ]);
                        e.model.mute.push(c);
                    }
                }
            }
            _ => {
                if eps[side].real {
                    let l = links[i].l;
                    g.op(at, side, OpK::DropLink { l });
                }
            }
        }
    }
}

fn links_sess(ops: &[Op], l: usize) -> usize {
    ops.iter()
        .find_map(|o| match &o.k {
            OpK::Attach { s, l: x, .. } if *x == l => Some(*s),
            _ => None,
        })
        .unwrap_or(0)
}
