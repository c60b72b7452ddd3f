//! A peer that plays a fixed script of bytes.
use std::cell::{Cell, RefCell};
use std::rc::Rc;

use serde::{Deserialize, Serialize};

use crate::net::Conn;
use crate::node::Shared;
use crate::wire::{Item, Parser};

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Step {
    /// for the reader only
    pub what: String,
    pub bytes: Vec<u8>,
    /// first wait until the other side has sent so many headers and frames
    pub wait: usize,
    /// then for this long
    pub pause: u64,
    /// send in pieces of this size (0: at once) with this pause between
    pub piece: usize,
    pub gap: u64,
    /// afterwards: 0 nothing, 1 end of stream, 2 the connection breaks
    pub end: u8,
}

pub struct Player {
    sh: Rc<Shared>,
    conn: Rc<Conn>,
    side: usize,
    parser: RefCell<Parser>,
    seen: Cell<usize>,
    /// next step
    at: Cell<usize>,
    /// bytes of it already sent
    pos: Cell<usize>,
    busy: Cell<bool>,
    over: Cell<bool>,
}

impl Player {
    pub fn new(sh: &Rc<Shared>, conn: &Rc<Conn>, side: usize) -> Rc<Player> {
        Rc::new(Player {
            sh: sh.clone(),
            conn: conn.clone(),
            side,
            parser: RefCell::default(),
            seen: Cell::new(0),
            at: Cell::new(0),
            pos: Cell::new(0),
            busy: Cell::new(false),
            over: Cell::new(false),
        })
    }

    pub fn start(self: &Rc<Self>, t0: u64) {
        let me = self.clone();
        self.conn.pipes[1 - self.side].set_on_data(Rc::new(move || me.on_data()));
        let me = self.clone();
        self.sh.world.at(t0, move || me.on_data());
    }

    fn on_data(self: &Rc<Self>) {
        let (b, eof) = self.conn.pipes[1 - self.side].read_all();
        {
            let mut p = self.parser.borrow_mut();
            p.feed(&b);
            while let Some((i, _)) = p.next() {
                if !matches!(&i, Item::Frame(f) if f.perf.is_none()) {
                    self.seen.set(self.seen.get() + 1);
                }
            }
        }
        if eof && !self.over.get() {
            self.over.set(true);
            self.conn.pipes[self.side].close_write();
        }
        self.next();
    }

    fn next(self: &Rc<Self>) {
        if self.busy.get() || self.over.get() {
            return;
        }
        let script = &self.sh.scen.script;
        let Some(s) = script.get(self.at.get()) else { return };
        if self.seen.get() < s.wait {
            return;
        }
        self.busy.set(true);
        let me = self.clone();
        self.sh.world.after(s.pause, move || me.piece());
    }

    fn piece(self: Rc<Self>) {
        if self.over.get() {
            return;
        }
        let s = &self.sh.scen.script[self.at.get()];
        let from = self.pos.get();
        let to = if s.piece == 0 { s.bytes.len() } else { s.bytes.len().min(from + s.piece) };
        if to > from {
            let _ = self.conn.pipes[self.side].write(&s.bytes[from..to], false);
        }
        self.pos.set(to);
        if to < s.bytes.len() {
            let me = self.clone();
            self.sh.world.after(s.gap, move || me.piece());
            return;
        }
        match s.end {
            1 => {
                self.over.set(true);
                self.sh.world.count("fault:script_eof");
                self.conn.pipes[self.side].close_write();
            }
            2 => {
                self.over.set(true);
                self.sh.world.count("fault:script_break");
                for p in &self.conn.pipes {
                    p.cut("script");
                }
            }
            _ => {}
        }
        self.pos.set(0);
        self.at.set(self.at.get() + 1);
        self.busy.set(false);
        self.next();
    }
}
