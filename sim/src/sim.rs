//! The simulated world: virtual clock, event heap, scheduler, history, counters.
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

use ntex_rt::{Driver, Notify, PollResult, Runtime};

use crate::hist::{Ev, EvK};
use crate::rng::Rng;

thread_local! {
    static WORLD: RefCell<Option<Rc<World>>> = const { RefCell::new(None) };
    /// virtual now; u64::MAX = this thread is not simulated
    static NOW: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

/// Interposed libc clock: every clock read of a simulated thread is virtual.
///
/// # Safety
/// called with libc's contract
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let now = NOW.try_with(Cell::get).unwrap_or(u64::MAX);
    if now == u64::MAX || matches!(id, libc::CLOCK_THREAD_CPUTIME_ID | libc::CLOCK_PROCESS_CPUTIME_ID) {
        return unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int };
    }
    let base = if id == libc::CLOCK_REALTIME { 1_800_000_000 } else { 10_000 };
    unsafe {
        (*ts).tv_sec = base + (now / SEC) as i64;
        (*ts).tv_nsec = (now % SEC) as i64;
    }
    0
}

enum Kind {
    Wake(Waker),
    Call(Box<dyn FnOnce()>),
}

struct Item {
    at: u64,
    seq: u64,
    kind: Kind,
}
impl PartialEq for Item {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

pub struct World {
    now: Cell<u64>,
    seq: Cell<u64>,
    heap: RefCell<BinaryHeap<Reverse<Item>>>,
    pub sched: RefCell<Rng>,
    pub net: RefCell<Rng>,
    /// upper bound of the virtual cost of one task poll
    pub poll_cost: Cell<u64>,
    pub polls: Cell<u64>,
    pub max_polls: Cell<u64>,
    /// from here on the network is well behaved
    pub heal_at: Cell<u64>,
    pub stuck: Cell<bool>,
    done: Cell<bool>,
    pub hist: RefCell<Vec<Ev>>,
    hash: Cell<u64>,
    pub text: RefCell<Option<Vec<String>>>,
    pub counters: RefCell<BTreeMap<&'static str, u64>>,
    /// called whenever the runtime is idle, before time jumps
    pub on_idle: RefCell<Vec<Rc<dyn Fn()>>>,
    pub last_idle_t: Cell<u64>,
    /// record incomplete frames larger than this (0: no)
    pub head_limit: Cell<u64>,
}

pub fn w() -> Rc<World> {
    WORLD.with(|w| w.borrow().clone()).expect("no world on this thread")
}

impl World {
    pub fn install(seed: u64, text: bool) -> Rc<World> {
        let world = Rc::new(World {
            now: Cell::new(SEC),
            seq: Cell::new(0),
            heap: RefCell::default(),
            sched: RefCell::new(Rng::new(seed ^ 0x5c4e_d000)),
            net: RefCell::new(Rng::new(seed ^ 0x0e7_0000)),
            poll_cost: Cell::new(2 * US),
            polls: Cell::new(0),
            max_polls: Cell::new(400_000),
            heal_at: Cell::new(u64::MAX),
            stuck: Cell::new(false),
            done: Cell::new(false),
            hist: RefCell::default(),
            hash: Cell::new(0),
            text: RefCell::new(if text { Some(Vec::new()) } else { None }),
            counters: RefCell::default(),
            on_idle: RefCell::default(),
            last_idle_t: Cell::new(0),
            head_limit: Cell::new(0),
        });
        NOW.with(|n| n.set(SEC));
        WORLD.with(|w| *w.borrow_mut() = Some(world.clone()));
        foldhash::sim_set_seed(seed);
        futures_timer::sim_install(Some(world.clone()));
        world
    }
    pub fn uninstall() {
        futures_timer::sim_install(None);
        WORLD.with(|w| *w.borrow_mut() = None);
        NOW.with(|n| n.set(u64::MAX));
    }
    pub fn now(&self) -> u64 {
        self.now.get()
    }
    fn set_now(&self, t: u64) {
        self.now.set(t);
        NOW.with(|n| n.set(t));
    }
    fn push(&self, at: u64, kind: Kind) {
        let seq = self.seq.get();
        self.seq.set(seq + 1);
        self.heap.borrow_mut().push(Reverse(Item { at: at.max(self.now()), seq, kind }));
    }
    pub fn at(&self, at: u64, f: impl FnOnce() + 'static) {
        self.push(at, Kind::Call(Box::new(f)));
    }
    pub fn after(&self, d: u64, f: impl FnOnce() + 'static) {
        self.at(self.now() + d, f);
    }
    /// fire everything that is due; true if anything fired
    fn fire(&self) -> bool {
        let mut any = false;
        loop {
            let item = {
                let mut h = self.heap.borrow_mut();
                match h.peek() {
                    Some(Reverse(i)) if i.at <= self.now() => h.pop(),
                    _ => None,
                }
            };
            match item {
                None => return any,
                Some(Reverse(i)) => {
                    any = true;
                    match i.kind {
                        Kind::Wake(w) => w.wake(),
                        Kind::Call(f) => f(),
                    }
                }
            }
        }
    }
    pub fn healed(&self) -> bool {
        self.now() >= self.heal_at.get()
    }
    pub fn count(&self, k: &'static str) {
        *self.counters.borrow_mut().entry(k).or_insert(0) += 1;
    }
    pub fn note(&self, s: impl FnOnce() -> String) {
        let s = s();
        let mut h = self.hash.get() ^ 0xcbf2_9ce4_8422_2325;
        for b in s.as_bytes() {
            h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
        self.hash.set(h ^ self.now().rotate_left(17));
        if let Some(t) = self.text.borrow_mut().as_mut() {
            t.push(format!("{:>14} {s}", self.now()));
        }
    }
    pub fn rec(&self, k: EvK) -> usize {
        self.note(|| k.brief());
        let mut h = self.hist.borrow_mut();
        let seq = h.len();
        h.push(Ev { seq, t: self.now(), k });
        seq
    }
    pub fn hash(&self) -> u64 {
        self.hash.get()
    }
}

impl futures_timer::SimTimer for World {
    fn now(&self) -> u64 {
        self.now.get()
    }
    fn register(&self, at: u64, waker: Waker) {
        self.push(at, Kind::Wake(waker));
    }
}

#[derive(Debug)]
struct NoNotify;
impl Notify for NoNotify {
    fn notify(&self) -> std::io::Result<()> {
        Ok(())
    }
}

pub struct SimDriver(pub Rc<World>);

impl Driver for SimDriver {
    fn handle(&self) -> Box<dyn Notify> {
        Box::new(NoNotify)
    }
    fn run(&self, rt: &Runtime) -> std::io::Result<()> {
        let w = &self.0;
        loop {
            let r = rt.poll();
            w.polls.set(w.polls.get() + 1);
            if w.polls.get() > w.max_polls.get() || w.hist.borrow().len() > 150_000 {
                w.stuck.set(true);
                return Ok(());
            }
            match r {
                PollResult::Ready => return Ok(()),
                PollResult::PollAgain => {
                    let c = w.poll_cost.get();
                    let d = if c == 0 { 0 } else { w.sched.borrow_mut().below(c) };
                    w.set_now(w.now() + d);
                    w.fire();
                }
                PollResult::Pending => {
                    if w.done.get() {
                        continue;
                    }
                    if w.fire() {
                        continue;
                    }
                    if w.last_idle_t.get() != w.now() {
                        w.last_idle_t.set(w.now());
                    }
                    let hooks = w.on_idle.borrow().clone();
                    for h in hooks {
                        h();
                    }
                    let next = w.heap.borrow().peek().map(|Reverse(i)| i.at);
                    match next {
                        Some(t) => {
                            w.set_now(t.max(w.now()));
                            w.fire();
                        }
                        None => {
                            w.stuck.set(true);
                            return Ok(());
                        }
                    }
                }
            }
        }
    }
    fn clear(&self) {}
}

/// Run `fut` to completion in a simulated runtime. None: live-locked or nothing left to do.
pub fn run<F: Future + 'static>(world: &Rc<World>, fut: F) -> Option<F::Output>
where
    F::Output: 'static,
{
    let out = Rc::new(RefCell::new(None));
    let driver = SimDriver(world.clone());
    let rt = Runtime::builder().event_interval(1).build(driver.handle());
    let o = out.clone();
    let w2 = world.clone();
    rt.block_on(
        async move {
            let fut = async move {
                *o.borrow_mut() = Some(fut.await);
                w().done.set(true);
            };
            // the outer future also ends when the driver gives up
            let mut fut = Box::pin(fut);
            std::future::poll_fn(move |cx| {
                if w2.stuck.get() { Poll::Ready(()) } else { fut.as_mut().poll(cx) }
            })
            .await;
        },
        &Shim(driver),
    );
    let r = out.borrow_mut().take();
    // destroy the heap while the runtime still exists: events own wakers
    world.heap.borrow_mut().clear();
    r
}

/// `block_on` insists on a result, so a run that gave up is finished by polling on
/// until the outer future has noticed.
struct Shim(SimDriver);
impl Driver for Shim {
    fn handle(&self) -> Box<dyn Notify> {
        Box::new(NoNotify)
    }
    fn run(&self, rt: &Runtime) -> std::io::Result<()> {
        self.0.run(rt)?;
        if self.0.0.stuck.get() {
            panic!("SIM-STUCK: no progress ({} polls)", self.0.0.polls.get());
        }
        Ok(())
    }
    fn clear(&self) {}
}

pub struct Sleep {
    at: u64,
    armed: bool,
}
pub fn sleep(d: u64) -> Sleep {
    sleep_until(w().now() + d)
}
pub fn sleep_until(at: u64) -> Sleep {
    Sleep { at, armed: false }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let world = w();
        if world.now() >= self.at {
            return Poll::Ready(());
        }
        if !self.armed {
            self.armed = true;
            world.push(self.at, Kind::Wake(cx.waker().clone()));
        }
        Poll::Pending
    }
}

/// Resolves with Some(output), or None if `d` passes first (the future is dropped then).
pub async fn within<F: Future>(d: u64, f: F) -> Option<F::Output> {
    let mut s = sleep(d);
    let mut f = std::pin::pin!(f);
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(x) = f.as_mut().poll(cx) {
            return Poll::Ready(Some(x));
        }
        Pin::new(&mut s).poll(cx).map(|()| None)
    })
    .await
}
