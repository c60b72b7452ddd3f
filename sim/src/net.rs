//! Simulated byte streams.
use std::any::{Any, TypeId};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::poll_fn;
use std::io;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

use ntex_bytes::{BufMut, BytesMut};
use ntex_io::{Handle, IoContext, IoStream, IoTaskStatus, Readiness};
use serde::{Deserialize, Serialize};

use crate::hist::EvK;
use crate::sim::w;
use crate::wire::Parser;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DirCfg {
    pub cap: usize,
    pub lat: (u64, u64),
    /// arrival fragments: 0 = as written, else up to n bytes each
    pub frag: usize,
    /// largest single write accepted: 0 = unlimited
    pub short_write: usize,
    /// largest single read served: 0 = unlimited
    pub short_read: usize,
    /// (from, until) windows of virtual time in which nothing arrives
    pub stalls: Vec<(u64, u64)>,
    /// the stream breaks after this many bytes were written (0 = never)
    pub cut_after: u64,
    /// the stream breaks at this time (0 = never)
    pub cut_at: u64,
    /// break with an error (reset) instead of end-of-stream
    pub rst: bool,
    /// everything arrives at the instant it is written
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub exact: bool,
}

impl DirCfg {
    pub fn plain() -> DirCfg {
        DirCfg {
            cap: 1 << 20,
            lat: (10_000, 20_000),
            frag: 0,
            short_write: 0,
            short_read: 0,
            stalls: vec![],
            cut_after: 0,
            cut_at: 0,
            rst: false,
            exact: false,
        }
    }
}

type Cb = Rc<dyn Fn()>;

pub struct Pipe {
    pub conn: usize,
    /// which side writes
    pub from: usize,
    pub cfg: DirCfg,
    inflight: Cell<usize>,
    last_arrival: Cell<u64>,
    ready: RefCell<VecDeque<u8>>,
    eof_ready: Cell<bool>,
    rst: Cell<bool>,
    /// writer side closed
    wclosed: Cell<bool>,
    /// reader is gone
    rclosed: Cell<bool>,
    written: Cell<u64>,
    head_seen: Cell<bool>,
    arrived: Cell<u64>,
    consumed: Cell<u64>,
    rwaker: RefCell<Option<Waker>>,
    wwaker: RefCell<Option<Waker>>,
    on_data: RefCell<Option<Cb>>,
    tap: RefCell<Parser>,
    ends: RefCell<VecDeque<(usize, u64)>>,
    nframes: Cell<usize>,
    /// keep every byte ever written (for C08)
    pub record: RefCell<Option<crate::cuts::Tape>>,
    /// the writer could not hand over everything
    pub wblocked: Cell<bool>,
    /// faults injected so far: limits are relaxed step by step so that a run stays short
    chops: Cell<u32>,
}

impl Pipe {
    pub fn new(conn: usize, from: usize, cfg: DirCfg) -> Rc<Pipe> {
        let p = Rc::new(Pipe {
            conn,
            from,
            inflight: Cell::new(0),
            last_arrival: Cell::new(0),
            ready: RefCell::default(),
            eof_ready: Cell::new(false),
            rst: Cell::new(false),
            wclosed: Cell::new(false),
            rclosed: Cell::new(false),
            written: Cell::new(0),
            head_seen: Cell::new(false),
            arrived: Cell::new(0),
            consumed: Cell::new(0),
            rwaker: RefCell::default(),
            wwaker: RefCell::default(),
            on_data: RefCell::default(),
            tap: RefCell::default(),
            ends: RefCell::default(),
            nframes: Cell::new(0),
            record: RefCell::new(None),
            wblocked: Cell::new(false),
            chops: Cell::new(0),
            cfg,
        });
        if p.cfg.cut_at > 0 {
            let q = p.clone();
            w().at(p.cfg.cut_at, move || q.cut("cut_at"));
        }
        p
    }

    pub fn cut(&self, why: &'static str) {
        if !self.wclosed.get() || self.inflight.get() > 0 {
            w().count(if self.cfg.rst { "fault:reset" } else { "fault:eof" });
            let _ = why;
        }
        w().rec(EvK::Cut { conn: self.conn, from: self.from, rst: self.cfg.rst, own: false });
        if !self.wclosed.replace(true) {
            self.record_end();
        }
        if self.cfg.rst {
            self.rst.set(true);
            self.ready.borrow_mut().clear();
        }
        self.eof_ready.set(true);
        self.wake_reader();
        if let Some(w) = self.wwaker.borrow_mut().take() {
            w.wake();
        }
    }

    fn record_end(&self) {
        if let Some(r) = self.record.borrow_mut().as_mut() {
            r.push((w().now(), vec![]));
        }
    }

    fn wake_reader(&self) {
        if let Some(w) = self.rwaker.borrow_mut().take() {
            w.wake();
        }
        let cb = self.on_data.borrow().clone();
        if let Some(cb) = cb {
            cb();
        }
    }

    pub fn set_on_data(&self, cb: Cb) {
        *self.on_data.borrow_mut() = Some(cb);
    }

    fn arrival(&self) -> u64 {
        let world = w();
        if self.cfg.exact {
            return world.now();
        }
        let (a, b) = if world.healed() { (0, 10_000) } else { self.cfg.lat };
        let mut t = world.now() + world.net.borrow_mut().range(a, b);
        for (from, until) in &self.cfg.stalls {
            if t >= *from && t < *until {
                t = *until;
                world.count("fault:stall");
            }
        }
        t = t.max(self.last_arrival.get());
        self.last_arrival.set(t);
        t
    }

    /// room was made
    pub fn written(&self) -> u64 {
        self.written.get()
    }
    pub fn nudge(&self) {
        if let Some(w) = self.wwaker.borrow_mut().take() {
            w.wake();
        }
    }
    fn relaxed(&self, n: usize) -> u64 {
        if w().healed() { 1 << 24 } else { (n as u64) << (self.chops.get() / 1500).min(16) }
    }
    fn chop(&self, what: &'static str) {
        self.chops.set(self.chops.get() + 1);
        w().count(what);
    }

    /// Accept some bytes from the writer.
    pub fn write(self: &Rc<Self>, buf: &[u8], limited: bool) -> io::Result<usize> {
        if self.rclosed.get() || self.wclosed.get() {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "simulated: peer is gone"));
        }
        let world = w();
        let used = self.inflight.get() + self.ready.borrow().len();
        let mut n = if limited { buf.len().min((self.relaxed(self.cfg.cap) as usize).saturating_sub(used)) } else { buf.len() };
        if limited && self.cfg.short_write > 0 {
            let k = world.net.borrow_mut().range(1, self.relaxed(self.cfg.short_write)) as usize;
            if k < n {
                self.chop("fault:short_write");
                n = k;
            }
        }
        if limited && n == 0 && !buf.is_empty() {
            self.chop("fault:backpressure");
        }
        let mut cut = false;
        if self.cfg.cut_after > 0 && self.written.get() + n as u64 >= self.cfg.cut_after {
            n = (self.cfg.cut_after - self.written.get()) as usize;
            cut = true;
        }
        if n > 0 {
            let data = &buf[..n];
            self.written.set(self.written.get() + n as u64);
            if let Some(r) = self.record.borrow_mut().as_mut() {
                r.push((world.now(), data.to_vec()));
            }
            // tap
            {
                let mut tap = self.tap.borrow_mut();
                tap.feed(data);
                while let Some((item, end)) = tap.next() {
                    let fi = self.nframes.get();
                    self.nframes.set(fi + 1);
                    self.ends.borrow_mut().push_back((fi, end));
                    world.rec(EvK::Wire { conn: self.conn, from: self.from, fi, item: Rc::new(item) });
                }
                let lim = world.head_limit.get();
                if lim > 0
                    && self.conn == 0
                    && let Some(size) = tap.head()
                    && size > lim
                    && !self.head_seen.replace(true)
                {
                    world.rec(EvK::Head { conn: self.conn, from: self.from, size });
                }
            }
            let mut rest = data;
            while !rest.is_empty() {
                let k = if self.cfg.frag == 0 {
                    rest.len()
                } else {
                    (world.net.borrow_mut().range(1, self.relaxed(self.cfg.frag)) as usize).min(rest.len())
                };
                if k < rest.len() {
                    self.chop("fault:fragment");
                }
                let chunk = rest[..k].to_vec();
                rest = &rest[k..];
                self.inflight.set(self.inflight.get() + k);
                let t = self.arrival();
                let me = self.clone();
                world.at(t, move || {
                    me.inflight.set(me.inflight.get() - chunk.len());
                    if me.rst.get() {
                        return;
                    }
                    me.arrived.set(me.arrived.get() + chunk.len() as u64);
                    if me.rclosed.get() {
                        return;
                    }
                    me.ready.borrow_mut().extend(chunk);
                    me.wake_reader();
                });
            }
        }
        if cut {
            world.count(if self.cfg.rst { "fault:reset" } else { "fault:eof" });
            self.close_after_data(self.cfg.rst, false);
            if n == 0 {
                return Err(io::Error::new(io::ErrorKind::BrokenPipe, "simulated: cut"));
            }
        }
        Ok(n)
    }

    fn close_after_data(self: &Rc<Self>, rst: bool, own: bool) {
        if self.wclosed.replace(true) {
            return;
        }
        w().rec(EvK::Cut { conn: self.conn, from: self.from, rst, own });
        self.record_end();
        let t = self.arrival();
        let me = self.clone();
        w().at(t, move || {
            if rst {
                me.rst.set(true);
            }
            me.eof_ready.set(true);
            me.wake_reader();
        });
    }

    /// Writer is done.
    pub fn close_write(self: &Rc<Self>) {
        self.close_after_data(false, true);
    }

    pub fn is_write_closed(&self) -> bool {
        self.wclosed.get()
    }

    /// Reader is gone: whatever is unread is lost, writes fail.
    pub fn close_read(&self) {
        self.rclosed.set(true);
        self.ready.borrow_mut().clear();
        if let Some(w) = self.wwaker.borrow_mut().take() {
            w.wake();
        }
    }

    fn consumed_bytes(&self, n: usize) {
        let c = self.consumed.get() + n as u64;
        self.consumed.set(c);
        let mut ends = self.ends.borrow_mut();
        while ends.front().is_some_and(|e| e.1 <= c) {
            let (fi, _) = ends.pop_front().unwrap();
            w().rec(EvK::Read { conn: self.conn, from: self.from, fi });
        }
        if n > 0
            && let Some(w) = self.wwaker.borrow_mut().take()
        {
            w.wake();
        }
    }

    /// Everything that has arrived; for model peers. (data, end of stream)
    pub fn read_all(&self) -> (Vec<u8>, bool) {
        let v: Vec<u8> = self.ready.borrow_mut().drain(..).collect();
        self.consumed_bytes(v.len());
        (v, self.eof_ready.get() || self.rst.get())
    }

    fn poll_read(&self, cx: &mut Context<'_>, buf: &mut BytesMut) -> Poll<io::Result<usize>> {
        if self.rst.get() {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "simulated reset")));
        }
        let have = self.ready.borrow().len();
        if have > 0 {
            let mut n = have.min(buf.remaining_mut());
            if self.cfg.short_read > 0 {
                let k = w().net.borrow_mut().range(1, self.relaxed(self.cfg.short_read)) as usize;
                if k < n {
                    self.chop("fault:short_read");
                    n = k;
                }
            }
            let v: Vec<u8> = self.ready.borrow_mut().drain(..n).collect();
            buf.put_slice(&v);
            self.consumed_bytes(n);
            return Poll::Ready(Ok(n));
        }
        if self.eof_ready.get() {
            return Poll::Ready(Ok(0));
        }
        *self.rwaker.borrow_mut() = Some(cx.waker().clone());
        Poll::Pending
    }

    /// nothing that has arrived is unread
    pub fn drained(&self) -> bool {
        self.ready.borrow().is_empty() && !(self.eof_ready.get() && !self.rclosed.get())
    }
    pub fn unread(&self) -> usize {
        self.ready.borrow().len()
    }
    pub fn idle(&self) -> bool {
        self.inflight.get() == 0 && self.ready.borrow().is_empty()
    }
}

/// One end of a simulated connection, given to a real endpoint.
pub struct SimIo {
    pub rd: Rc<Pipe>,
    pub wr: Rc<Pipe>,
    pub st: Rc<EndSt>,
}

#[derive(Default)]
pub struct EndSt {
    pub closed: Cell<bool>,
}

struct Hnd;
impl Handle for Hnd {
    fn query(&self, _: TypeId) -> Option<Box<dyn Any>> {
        None
    }
}

impl IoStream for SimIo {
    fn start(self, ctx: IoContext) -> Option<Box<dyn Handle>> {
        let io = Rc::new(self);
        ntex_rt::spawn(async move { drive(io, ctx).await });
        Some(Box::new(Hnd))
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Status {
    Shutdown,
    Terminate,
}

async fn drive(io: Rc<SimIo>, ctx: IoContext) {
    let st = poll_fn(|cx| turn(&io, &ctx, cx)).await;
    if !ctx.is_stopped() {
        let flush = st == Status::Shutdown;
        poll_fn(|cx| {
            if write(&io, &ctx, cx) == Poll::Ready(Status::Terminate) {
                Poll::Ready(())
            } else {
                ctx.shutdown(flush, cx)
            }
        })
        .await;
    }
    io.wr.wblocked.set(false);
    io.wr.close_write();
    io.rd.close_read();
    io.st.closed.set(true);
    w().rec(EvK::IoClosed { conn: io.wr.conn, side: io.wr.from });
    if !ctx.is_stopped() {
        ctx.stop(None);
    }
}

fn turn(io: &Rc<SimIo>, ctx: &IoContext, cx: &mut Context<'_>) -> Poll<Status> {
    let rd = match ctx.poll_read_ready(cx) {
        Poll::Ready(Readiness::Ready) => read(io, ctx, cx),
        Poll::Ready(Readiness::Shutdown | Readiness::Terminate) => Poll::Ready(()),
        Poll::Pending => Poll::Pending,
    };
    let wr = match ctx.poll_write_ready(cx) {
        Poll::Ready(Readiness::Ready) => write(io, ctx, cx),
        Poll::Ready(Readiness::Shutdown) => Poll::Ready(Status::Shutdown),
        Poll::Ready(Readiness::Terminate) => Poll::Ready(Status::Terminate),
        Poll::Pending => Poll::Pending,
    };
    if rd.is_pending() && wr.is_pending() {
        Poll::Pending
    } else if wr.is_ready() {
        wr
    } else {
        Poll::Ready(Status::Terminate)
    }
}

fn write(io: &Rc<SimIo>, ctx: &IoContext, cx: &mut Context<'_>) -> Poll<Status> {
    if let Some(buf) = ctx.get_write_buf() {
        let mut done = 0;
        let res = loop {
            if done == buf.len() {
                break Poll::Ready(Ok(done));
            }
            match io.wr.write(&buf[done..], true) {
                Err(e) => break Poll::Ready(Err(e)),
                Ok(0) => {
                    *io.wr.wwaker.borrow_mut() = Some(cx.waker().clone());
                    break if done > 0 { Poll::Ready(Ok(done)) } else { Poll::Pending };
                }
                Ok(n) => done += n,
            }
        };
        io.wr.wblocked.set(done < buf.len());
        if ctx.release_write_buf(buf, res) == IoTaskStatus::Stop {
            Poll::Ready(Status::Terminate)
        } else {
            Poll::Pending
        }
    } else {
        io.wr.wblocked.set(false);
        Poll::Pending
    }
}

fn read(io: &Rc<SimIo>, ctx: &IoContext, cx: &mut Context<'_>) -> Poll<()> {
    let mut buf = ctx.get_read_buf();
    let mut n = 0;
    loop {
        ctx.resize_read_buf(&mut buf);
        let result = match io.rd.poll_read(cx, &mut buf) {
            Poll::Pending => {
                if n > 0 {
                    Poll::Ready(Ok(()))
                } else {
                    Poll::Pending
                }
            }
            Poll::Ready(Ok(size)) => {
                n += size;
                if size > 0 && buf.remaining_mut() > 0 && io.rd.cfg.short_read == 0 {
                    continue;
                }
                if size == 0 {
                    Poll::Ready(Err(None))
                } else {
                    // there may be more: come back
                    cx.waker().wake_by_ref();
                    Poll::Ready(Ok(()))
                }
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(Some(e))),
        };
        return if ctx.release_read_buf(n, buf, result) == IoTaskStatus::Stop {
            Poll::Ready(())
        } else {
            Poll::Pending
        };
    }
}

/// A connection between side 0 and side 1.
pub struct Conn {
    pub id: usize,
    /// pipes[s]: written by side s
    pub pipes: [Rc<Pipe>; 2],
    pub st: [Rc<EndSt>; 2],
}

impl Conn {
    pub fn new(id: usize, a: DirCfg, b: DirCfg) -> Rc<Conn> {
        Rc::new(Conn {
            id,
            pipes: [Pipe::new(id, 0, a), Pipe::new(id, 1, b)],
            st: [Rc::default(), Rc::default()],
        })
    }
    pub fn io(&self, side: usize) -> SimIo {
        SimIo {
            rd: self.pipes[1 - side].clone(),
            wr: self.pipes[side].clone(),
            st: self.st[side].clone(),
        }
    }
    /// a real endpoint on `side` has nothing left to read and nothing left to write
    pub fn settled(&self, side: usize) -> bool {
        self.pipes[1 - side].drained() && !self.pipes[side].wblocked.get()
    }
}
