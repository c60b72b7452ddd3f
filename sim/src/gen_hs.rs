//! Negotiation: scripted peers, right and wrong.
use crate::r#gen::{T0, ep, net};
use crate::rng::Rng;
use crate::scen::{Op, Scenario};
use crate::script::Step;
use crate::sim::{MS, SEC, US};
use crate::wire::{self, Enc, Perf, V};

pub struct B<'a> {
    pub r: &'a mut Rng,
    pub enc: Enc,
}

impl B<'_> {
    pub fn step(&mut self, what: &str, bytes: Vec<u8>, wait: usize) -> Step {
        let pause = *self.r.pick(&[0, 0, 10 * US, MS, 30 * MS]);
        let piece = *self.r.pick(&[0usize, 0, 0, 1, 3, 7]);
        let gap = *self.r.pick(&[0, US, 300 * US]);
        Step { what: what.into(), bytes, wait, pause, piece, gap, end: 0 }
    }
    pub fn perf(&mut self, sasl: bool, ch: u16, code: u64, f: Vec<V>) -> Vec<u8> {
        wire::build(&mut self.enc, sasl, ch, Some(&Perf::new(code, f)))
    }
    pub fn open(&mut self) -> Vec<u8> {
        let r = &mut *self.r;
        let mut f = vec![V::Str(format!("peer-{}", r.below(10)))];
        f.push(if r.pct(50) { V::Str(format!("h{}.example", r.below(9))) } else { V::Null });
        f.push(if r.pct(70) { V::Uint(*r.pick(&[512u32, 513, 4096, 65_536, u32::MAX])) } else { V::Null });
        f.push(if r.pct(70) { V::Ushort(*r.pick(&[0u16, 1, 9, 255, 65_535])) } else { V::Null });
        f.push(if r.pct(40) { V::Uint(*r.pick(&[0u32, 1, 900, 5000, 60_000, u32::MAX])) } else { V::Null });
        if r.pct(30) {
            f.push(V::Array(vec![V::sym("en-US"), V::sym("de")]));
            f.push(if r.pct(50) { V::sym("en-US") } else { V::Null });
            f.push(V::sym("cap-a"));
            f.push(V::Array(vec![V::sym("cap-b"), V::sym("cap-c")]));
            f.push(V::Map(vec![(V::sym("product"), V::str("script")), (V::sym("n"), V::Ulong(7))]));
        }
        while f.last() == Some(&V::Null) {
            f.pop();
        }
        self.perf(false, 0, wire::OPEN, f)
    }
    /// a frame that has no business in a negotiation (at this point)
    fn odd(&mut self) -> (String, Vec<u8>) {
        let k = self.r.below(14);
        let (what, sasl, code, f) = match k {
            0 => ("mechanisms", true, wire::SASL_MECHANISMS, vec![V::sym("PLAIN")]),
            1 => ("init", true, wire::SASL_INIT, vec![V::sym("PLAIN"), V::Bin(b"\0a\0b".to_vec())]),
            2 => ("challenge", true, wire::SASL_CHALLENGE, vec![V::Bin(b"x".to_vec())]),
            3 => ("response", true, wire::SASL_RESPONSE, vec![V::Bin(b"x".to_vec())]),
            4 => ("outcome", true, wire::SASL_OUTCOME, vec![V::Ubyte(0)]),
            5 => ("begin", false, wire::BEGIN, vec![V::Null, V::Uint(0), V::Uint(10), V::Uint(10)]),
            6 => ("close", false, wire::CLOSE, vec![]),
            7 => ("end", false, wire::END, vec![]),
            8 => (
                "attach",
                false,
                wire::ATTACH,
                vec![V::str("l"), V::Uint(0), V::Bool(true), V::Null, V::Null, V::Null, V::Null, V::Null, V::Null, V::Uint(0)],
            ),
            9 => ("flow", false, wire::FLOW, vec![V::Uint(0), V::Uint(9), V::Uint(0), V::Uint(9)]),
            10 => ("transfer", false, wire::TRANSFER, vec![V::Uint(0), V::Uint(0), V::Bin(b"t".to_vec()), V::Uint(0)]),
            11 => ("disposition", false, wire::DISPOSITION, vec![V::Bool(true), V::Uint(0)]),
            12 => ("detach", false, wire::DETACH, vec![V::Uint(0)]),
            _ => return ("open".into(), self.open()),
        };
        let b = self.perf(sasl, 0, code, f);
        (format!("odd {what}"), b)
    }
    fn bad_header(&mut self) -> Vec<u8> {
        match self.r.below(8) {
            0 => b"HTTP/1.1".to_vec(),
            1 => b"amqp\0\x01\0\0".to_vec(),
            2 => b"AMQP\0\0\x09\x01".to_vec(),
            3 => b"AMQP\x01\x01\0\0".to_vec(),
            4 => b"AMQP\x02\x01\0\0".to_vec(),
            5 => vec![0x16, 3, 1, 2, 0, 1, 0, 1],
            6 => {
                let mut b = b"AMQP\0\x01\0\0".to_vec();
                let i = self.r.below(8) as usize;
                b[i] ^= 1 << self.r.below(8);
                b
            }
            _ => b"AMQP\xff\x01\0\0".to_vec(),
        }
    }
}

pub fn generate(prop: &str, seed: u64, r: &mut Rng) -> Scenario {
    let kind = r.below(100);
    let reals = match kind {
        0..=41 => [false, true],
        42..=77 => [true, false],
        _ => [true, true],
    };
    let mut eps = [ep(r, reals[0]), ep(r, reals[1])];
    let mut nets = [net(r, SEC), net(r, SEC)];
    for n in &mut nets {
        if r.pct(70) {
            n.stalls.clear();
        }
        if r.pct(80) {
            n.cap = n.cap.max(1 << 16);
        }
        n.rst = r.pct(30);
    }
    let limit = *r.pick(&[1u16, 1, 2, 5, 5, 0]);
    for e in &mut eps {
        e.hs_timeout = limit;
        e.ctl_delay = *r.pick(&[(0, 0), (0, 0), (0, MS), (0, 300 * MS), (0, 4 * SEC)]);
        e.idle_ms = if r.pct(40) { *r.pick(&[1000u32, 30_000, 90_000]) } else { 0 };
        e.default_ctl = r.pct(15);
    }
    let sasl = r.pct(60);
    eps[0].sasl = sasl;
    let mut flags: Vec<String> = vec![];
    if r.pct(25) {
        flags.push("challenge".into());
    }
    if r.pct(25) {
        flags.push(format!("sasl-code={}", r.range(1, 4)));
    }
    for (f, p) in [("require-sasl", 15), ("refuse-after-outcome", 6), ("refuse-open", 8), ("connect-hostname", 30), ("negotiate", 25)] {
        if r.pct(p) {
            flags.push(f.into());
        }
    }
    let challenge = flags.iter().any(|f| f == "challenge");
    let mut script = vec![];
    if reals != [true, true] {
        let vary = *r.pick(&[0u32, 0, 30]);
        let rng = Rng::new(r.next());
        let sym_desc = r.pct(20);
        let mut b = B { r, enc: Enc { rng, vary, sym_desc } };
        script = if reals[1] { client(&mut b, sasl, challenge) } else { server(&mut b, sasl, &flags) };
        pipeline(&mut b, &mut script);
        if b.r.pct(60) {
            deviate(&mut b, &mut script, limit);
        }
    } else if r.pct(35) {
        let d = r.below(2) as usize;
        if r.pct(50) {
            nets[d].cut_after = r.range(1, 400);
        } else {
            nets[d].cut_at = T0 + r.below(300 * MS);
        }
    }
    let heal_at = T0 + 10 * SEC;
    let cut_at = heal_at + 2 * SEC;
    Scenario {
        prop: prop.into(),
        family: "handshake".into(),
        seed,
        eps,
        net: nets,
        poll_cost: *r.pick(&[0, 0, 5 * US]),
        ops: Vec::<Op>::new(),
        heal_at,
        cut_at,
        end_at: cut_at + 4 * SEC,
        flags,
        extra: vec![],
        script,
        muts: vec![],
        bystander: None,
        cuts: None,
        tape: None,
        observe: false,
    }
}

fn client(b: &mut B<'_>, sasl: bool, challenge: bool) -> Vec<Step> {
    let mut v = vec![];
    let mut n = 0;
    if sasl {
        v.push(b.step("sasl header", b"AMQP\x03\x01\0\0".to_vec(), 0));
        let mech = if b.r.pct(80) { "PLAIN" } else { "EXTERNAL" };
        let resp = match b.r.below(4) {
            0 => V::Null,
            1 => V::Bin(vec![]),
            _ => {
                let k = b.r.range(1, 60) as usize;
                V::Bin(b.r.bytes(k))
            }
        };
        let host = if b.r.pct(50) { V::str("sasl.host") } else { V::Null };
        let x = b.perf(true, 0, wire::SASL_INIT, vec![V::sym(mech), resp, host]);
        v.push(b.step("init", x, 2));
        n = 3;
        if challenge {
            let k = b.r.below(60) as usize;
            let resp = b.r.bytes(k);
            let x = b.perf(true, 0, wire::SASL_RESPONSE, vec![V::Bin(resp)]);
            v.push(b.step("response", x, 3));
            n = 4;
        }
    }
    v.push(b.step("header", b"AMQP\0\x01\0\0".to_vec(), n));
    let o = b.open();
    v.push(b.step("open", o, n + 1));
    if b.r.pct(30) {
        let x = b.perf(false, 3, wire::BEGIN, vec![V::Null, V::Uint(0), V::Uint(10), V::Uint(10)]);
        let wait = if b.r.pct(50) { 0 } else { n + 2 };
        v.push(b.step("begin", x, wait));
    }
    v
}

fn server(b: &mut B<'_>, sasl: bool, flags: &[String]) -> Vec<Step> {
    let mut v = vec![];
    let mut n = 1;
    if sasl {
        v.push(b.step("sasl header", b"AMQP\x03\x01\0\0".to_vec(), 1));
        let m = match b.r.below(3) {
            0 => V::sym("PLAIN"),
            1 => V::Array(vec![V::sym("PLAIN")]),
            _ => V::Array(vec![V::sym("EXTERNAL"), V::sym("PLAIN"), V::sym("ANONYMOUS")]),
        };
        let x = b.perf(true, 0, wire::SASL_MECHANISMS, vec![m]);
        v.push(b.step("mechanisms", x, 1));
        let code = flags.iter().find_map(|f| f.strip_prefix("sasl-code=")).map_or(0, |c| c.parse::<u8>().unwrap());
        let mut f = vec![V::Ubyte(code)];
        if b.r.pct(20) {
            f.push(V::Bin(b"more".to_vec()));
        }
        let x = b.perf(true, 0, wire::SASL_OUTCOME, f);
        v.push(b.step("outcome", x, 2));
        n = 3;
    }
    v.push(b.step("header", b"AMQP\0\x01\0\0".to_vec(), n));
    let o = b.open();
    v.push(b.step("open", o, n + 1));
    v
}

/// what the peer may send without waiting for an answer
fn pipeline(b: &mut B<'_>, v: &mut [Step]) {
    if b.r.pct(30) {
        for i in 1..v.len() {
            let free = matches!(
                (&*v[i - 1].what, &*v[i].what),
                ("header", "open") | ("sasl header", "init" | "mechanisms") | ("open", "begin")
            );
            if free && b.r.pct(70) {
                v[i].wait = v[i].wait.min(v[i - 1].wait);
                v[i].pause = 0;
            }
        }
    }
}

fn deviate(b: &mut B<'_>, v: &mut Vec<Step>, limit: u16) {
    let i = b.r.below(v.len() as u64) as usize;
    let lim = u64::from(limit.max(1)) * SEC;
    match b.r.below(11) {
        0 | 1 => {
            // something else in its place, or before it
            let (what, x) = b.odd();
            let s = Step { what, bytes: x, ..v[i].clone() };
            if b.r.pct(50) {
                v[i] = s;
            } else {
                v.insert(i, s);
            }
        }
        2 => {
            let h: Vec<usize> = (0..v.len()).filter(|i| v[*i].what.ends_with("header")).collect();
            let i = *b.r.pick(&h);
            v[i].what = "bad header".into();
            v[i].bytes = b.bad_header();
        }
        3 => {
            v.remove(i);
        }
        4 => {
            // twice
            let s = v[i].clone();
            v.insert(i, s);
        }
        5 | 6 => {
            // stops in the middle: silence, end, break
            let k = b.r.below(v[i].bytes.len() as u64 + 1) as usize;
            v[i].bytes.truncate(k);
            v[i].end = b.r.below(3) as u8;
            if v[i].end == 0 {
                v.truncate(i + 1);
            }
        }
        7 => {
            // slow around the limit
            v[i].pause = lim / 4 + b.r.below(lim * 5 / 4);
        }
        8 => {
            // byte by byte
            let total = lim / 4 + b.r.below(lim * 3 / 2);
            v[i].piece = 1;
            v[i].gap = total / v[i].bytes.len().max(1) as u64;
        }
        9 => {
            // the other order
            if v.len() > 1 {
                let j = b.r.below(v.len() as u64 - 1) as usize;
                v.swap(j, j + 1);
                let w = v[j].wait.min(v[j + 1].wait);
                v[j].wait = w;
                v[j + 1].wait = w;
            }
        }
        _ => {
            // does not wait for anything
            for s in v.iter_mut() {
                s.wait = 0;
            }
            v[i].end = *b.r.pick(&[0u8, 1, 1, 2]);
        }
    }
}
