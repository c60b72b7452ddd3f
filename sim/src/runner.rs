//! One run of a scenario.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

use crate::hist::{Ev, EvK};
use crate::model::Model;
use crate::net::Conn;
use crate::node::{Node, Shared};
use crate::oracle::{self, Violation};
use crate::scen::Scenario;
use crate::sim::{self, SEC, World, sleep_until};

#[derive(Default, Clone)]
pub struct Outcome {
    pub hash: u64,
    pub violations: Vec<Violation>,
    pub counters: BTreeMap<String, u64>,
    pub polls: u64,
    pub sim_ns: u64,
    pub events: usize,
    /// fingerprint of what happened (order of frames and returns, without values)
    pub shape: u64,
    pub text: Vec<String>,
    /// (if wanted) what the peer wrote
    pub tape: crate::cuts::Tape,
    /// (if wanted) what could be seen of the endpoint
    pub seen: Vec<(String, String, u64)>,
}

thread_local! {
    pub static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static OTHER: RefCell<Option<Rc<Conn>>> = const { RefCell::new(None) };
    static TAPE: RefCell<crate::cuts::Tape> = const { RefCell::new(vec![]) };
    static RECEIVED: Cell<u64> = const { Cell::new(0) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        if std::env::var("SHOWPANIC").is_ok() {
            eprintln!("{s}");
        }
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(s);
            }
        });
    }));
}

/// Runs in a thread of its own: thread-locals of the libraries start afresh.
pub fn run(scen: &Scenario, text: bool) -> Outcome {
    if scen.family == "cuts" {
        return crate::cuts::compare(scen, text);
    }
    let scen = scen.clone();
    let h = std::thread::Builder::new()
        .stack_size(if scen.family == "hostile" { 2 << 20 } else { 8 << 20 })
        .spawn(move || run_here(&scen, text))
        .unwrap();
    match h.join() {
        Ok(o) => o,
        Err(_) => Outcome {
            violations: vec![Violation { prop: "*".into(), msg: "simulation thread died".into(), seq: 0 }],
            ..Outcome::default()
        },
    }
}

fn run_here(scen: &Scenario, text: bool) -> Outcome {
    let scen = Rc::new(scen.clone());
    let world = World::install(scen.seed, text);
    world.poll_cost.set(scen.poll_cost);
    if scen.tape.is_some() {
        world.max_polls.set(8_000_000);
    }
    PANIC.with(|p| *p.borrow_mut() = None);
    crate::alloc::reset();
    let w2 = world.clone();
    let s2 = scen.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let w3 = w2.clone();
        sim::run(&w2, async move { body(s2, w3).await });
    }));
    let largest = crate::alloc::largest();
    let mut violations = vec![];
    let panic = PANIC.with(|p| p.borrow_mut().take());
    let hist: Vec<Ev> = std::mem::take(&mut *world.hist.borrow_mut());
    let stuck = world.stuck.get();
    if r.is_err() || panic.is_some() {
        let msg = if stuck {
            format!("endless activity: no end after {} task polls", world.polls.get())
        } else {
            format!("panic: {}", panic.unwrap_or_default())
        };
        violations.push(Violation { prop: "*".into(), msg, seq: hist.len() });
    }
    if violations.is_empty() && !scen.observe {
        violations = if scen.family == "hostile" {
            hostile(&scen, &hist, largest)
        } else {
            oracle::check(&scen, &hist)
        };
    }
    let mut shape = 0u64;
    for e in &hist {
        let k: u64 = match &e.k {
            EvK::Wire { from, item, .. } => {
                let c = match &**item {
                    crate::wire::Item::Frame(f) => f.perf.as_ref().map_or(1, |p| p.code),
                    _ => 2,
                };
                100 + c * 2 + *from as u64
            }
            EvK::Read { from, .. } => 10 + *from as u64,
            EvK::Call { side, c, .. } => 1000 + 2 * disc(c) + *side as u64,
            EvK::Ret { side, r, .. } => 2000 + 2 * disc(r) + *side as u64,
            EvK::App { side, e, .. } => 3000 + 2 * disc(e) + *side as u64,
            EvK::Settled { .. } => 5,
            _ => 6,
        };
        shape = crate::rng::mix(shape ^ k);
    }
    let mut counters: BTreeMap<String, u64> =
        world.counters.borrow().iter().map(|(k, v)| ((*k).to_string(), *v)).collect();
    if scen.family == "hostile" && !scen.script.is_empty() {
        counters.insert("probe:hostile_script".into(), 1);
    }
    oracle::probes(&hist, &mut counters);
    crate::oracle5::probe(&scen, &hist, &mut |k| *counters.entry(k.to_string()).or_insert(0) += 1);
    counters.insert("probe:keep_alive".into(), crate::oracle4::pings(&scen, &hist));
    let o = Outcome {
        hash: world.hash(),
        violations,
        counters,
        polls: world.polls.get(),
        sim_ns: world.now() - SEC,
        events: hist.len(),
        shape,
        text: world.text.borrow_mut().take().unwrap_or_default(),
        tape: TAPE.with(|t| std::mem::take(&mut *t.borrow_mut())),
        seen: if scen.observe { crate::cuts::seen(&hist, usize::from(scen.eps[1].real)) } else { vec![] },
    };
    // do not run destructors of half-dead endpoints in a simulated world that is gone
    std::mem::forget(world.on_idle.take());
    World::uninstall();
    o
}

fn hostile(scen: &Scenario, hist: &[Ev], largest: u64) -> Vec<Violation> {
    let mut v = crate::oracle7::check(scen, hist, RECEIVED.with(Cell::get), largest);
    if let Some(b) = &scen.bystander {
        let h = crate::oracle7::only(hist, 1);
        let mut harmed = oracle::check(b, &h);
        if !harmed.is_empty() {
            // not if the same happens to it when it is alone
            let alone = run(b, false).violations;
            harmed.retain(|x| !alone.iter().any(|a| crate::check::kind(&a.msg) == crate::check::kind(&x.msg)));
        }
        v.extend(harmed.into_iter().map(|x| Violation {
            prop: "C14".into(),
            msg: format!("another connection suffers: {}", x.msg),
            seq: x.seq,
        }));
    }
    v
}

fn disc<T: std::fmt::Debug>(x: &T) -> u64 {
    let s = format!("{x:?}");
    s.bytes().take_while(|b| b.is_ascii_alphabetic()).fold(7, |h, b| (h * 31 + u64::from(b)) % 971)
}

async fn body(scen: Rc<Scenario>, world: Rc<World>) {
    world.heal_at.set(scen.heal_at);
    match scen.family.as_str() {
        "traffic" | "handshake" | "hostile" => traffic(scen, world).await,
        f => panic!("unknown family {f}"),
    }
}

async fn traffic(scen: Rc<Scenario>, world: Rc<World>) {
    let sh = Shared::new(&scen, &world);
    let conn = Conn::new(0, scen.net[0].clone(), scen.net[1].clone());
    let mut others = vec![];
    if let Some(b) = &scen.bystander {
        let b = Rc::new((**b).clone());
        let sh = Shared::new(&b, &world);
        let conn = Conn::new(1, b.net[0].clone(), b.net[1].clone());
        for side in [1, 0] {
            if b.eps[side].real {
                let n = Node::new(&sh, &conn, side, &b.eps[side]);
                n.start();
                others.push(n);
            } else {
                Model::new(&sh, &conn, side, &b.eps[side]).start();
            }
        }
        OTHER.with(|o| *o.borrow_mut() = Some(conn));
    }
    if scen.family == "hostile" {
        let x = usize::from(scen.eps[1].real);
        world.head_limit.set(crate::model::inbound_limit(&scen, x) as u64);
    }
    if scen.observe && scen.tape.is_none() {
        let m = usize::from(!scen.eps[1].real);
        *conn.pipes[m].record.borrow_mut() = Some(vec![]);
    }
    let mut nodes = vec![];
    for side in [1, 0] {
        if scen.eps[side].real {
            let n = Node::new(&sh, &conn, side, &scen.eps[side]);
            n.start();
            nodes.push(n);
        } else if let Some(t) = &scen.tape {
            crate::cuts::Tapist::start(&sh, &conn, side, t);
        } else if !scen.script.is_empty() || scen.family == "handshake" {
            crate::script::Player::new(&sh, &conn, side).start(crate::r#gen::T0);
        } else {
            Model::new(&sh, &conn, side, &scen.eps[side]).start();
        }
    }
    sleep_until(scen.heal_at).await;
    world.rec(EvK::Heal);
    OTHER.with(|o| {
        if let Some(c) = &*o.borrow() {
            for p in &c.pipes {
                p.nudge();
            }
        }
    });
    for p in &conn.pipes {
        p.nudge();
    }
    if scen.cut_at > 0 {
        sleep_until(scen.cut_at).await;
        world.rec(EvK::Note("cut".into()));
        let other = OTHER.with(|o| o.borrow_mut().take());
        for p in conn.pipes.iter().chain(other.iter().flat_map(|c| &c.pipes)) {
            p.cut("end");
        }
    }
    sleep_until(scen.end_at).await;
    for p in &conn.pipes {
        if let Some(t) = p.record.borrow_mut().take() {
            TAPE.with(|x| *x.borrow_mut() = t);
        }
    }
    RECEIVED.with(|r| r.set(conn.pipes[0].written().max(conn.pipes[1].written())));
    world.rec(EvK::End);
}
