//! A server application built on the library's router.
use std::cell::Cell;
use std::rc::Rc;

use ntex_amqp::codec::protocol::{Error as AError, ErrorCondition};
use ntex_amqp::error::LinkError;
use ntex_amqp::{State, server, types};
use ntex_service::{Service, ServiceCtx, ServiceFactory, fn_factory_with_config};

use crate::hist::AppEv;
use crate::node::{L, Node, custom_error};
use crate::rng::{Rng, mix};
use crate::sim::sleep;

pub const ROUTES: &[&str] = &["q/a", "q/b", "t/{id}", "w/{id}/x", "bad"];

/// index of the route an address belongs to and the variable part
pub fn route_of(addr: &str) -> Option<(usize, &str)> {
    let p: Vec<&str> = addr.split('/').collect();
    match p[..] {
        ["q", "a"] => Some((0, "")),
        ["q", "b"] => Some((1, "")),
        ["t", x] if !x.is_empty() => Some((2, x)),
        ["w", x, "x"] if !x.is_empty() => Some((3, x)),
        ["bad"] => Some((4, "")),
        _ => None,
    }
}

struct H {
    node: Rc<Node>,
    hid: usize,
    lnk: usize,
    route: usize,
    path: String,
    n: Cell<u64>,
    checks: Cell<u64>,
}

impl H {
    fn ev(&self, kind: &'static str, detail: String, t: Option<&types::Transfer>) {
        self.node.app(self.make(kind, detail, t));
    }
    fn make(&self, kind: &'static str, detail: String, t: Option<&types::Transfer>) -> AppEv {
        AppEv::Handler {
            hid: self.hid,
            lnk: self.lnk,
            kind,
            route: self.route,
            path: self.path.clone(),
            detail,
            id: t.and_then(|t| t.delivery_id()).unwrap_or(0),
            tag: t.and_then(|t| t.delivery_tag()).map(|t| t.to_vec()).unwrap_or_default(),
            settled: t.and_then(|t| t.settled()).unwrap_or(false),
            format: t.and_then(|t| t.message_format()),
            body: t.and_then(|t| t.get_body()).map(|b| b.to_vec()).unwrap_or_default(),
        }
    }
    fn rng(&self, salt: u64) -> Rng {
        Rng::new(mix(self.node.sh.scen.seed ^ mix(salt) ^ (self.hid as u64) << 40))
    }
}

/// What a handler fails with: some errors become outcomes, others do not
#[derive(Debug)]
enum HErr {
    NotReady,
    Link(String),
    Accept,
    Kept(String),
}

impl std::fmt::Display for HErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}

impl From<HErr> for AError {
    fn from(e: HErr) -> AError {
        match e {
            HErr::Link(s) | HErr::Kept(s) => LinkError::new(ErrorCondition::Custom(s.into())).into(),
            e => LinkError::force_detach().description(format!("{e}")).into(),
        }
    }
}

impl TryFrom<HErr> for types::Outcome {
    type Error = AError;

    fn try_from(e: HErr) -> Result<Self, AError> {
        match e {
            HErr::Accept => Ok(types::Outcome::Accept),
            HErr::Link(s) => LinkError::new(ErrorCondition::Custom(s.into())).try_into(),
            e => Err(e.into()),
        }
    }
}

impl Service<types::Transfer> for H {
    type Response = types::Outcome;
    type Error = HErr;

    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), HErr> {
        let n = self.checks.get();
        self.checks.set(n + 1);
        let mut rng = self.rng(n ^ 0x4ead_0000);
        if self.node.sh.scen.flag("slow-ready") && rng.pct(50) {
            sleep(rng.range(0, 60_000_000)).await;
        }
        if self.node.sh.scen.flag("ready-fail") && rng.pct(15) {
            self.ev("not-ready", String::new(), None);
            return Err(HErr::NotReady);
        }
        Ok(())
    }

    async fn shutdown(&self) {
        // the router shuts handlers down in the order of a map keyed by addresses: the history
        // must not depend on it, the events are written by one task in the order of numbers
        let first = self.node.shut.borrow().is_empty();
        let ev = self.make("shutdown", String::new(), None);
        self.node.shut.borrow_mut().push((self.hid, ev));
        if first {
            let node = self.node.clone();
            ntex_rt::spawn(async move {
                let mut v = std::mem::take(&mut *node.shut.borrow_mut());
                v.sort_by_key(|x| x.0);
                for (_, e) in v {
                    node.app(e);
                }
            });
        }
        if self.node.sh.scen.flag("slow-shutdown") {
            sleep(self.rng(3).range(0, 300_000_000)).await;
        }
    }

    async fn call(
        &self,
        t: types::Transfer,
        _: ServiceCtx<'_, Self>,
    ) -> Result<types::Outcome, HErr> {
        let n = self.n.get();
        self.n.set(n + 1);
        let mut rng = self.rng(n);
        self.ev("call", String::new(), Some(&t));
        self.node.decoded(&t);
        let d = self.node.cfg.pub_delay;
        let d = rng.range(d.0, d.1);
        if d > 0 {
            sleep(d).await;
        }
        let mixw = self.node.cfg.rcv.mix;
        let tot: u32 = mixw[..4].iter().map(|x| u32::from(*x)).sum();
        let mut x = rng.below(u64::from(tot.max(1))) as u32;
        let mut k = 0;
        for (i, w) in mixw[..4].iter().enumerate() {
            if x < u32::from(*w) {
                k = i;
                break;
            }
            x -= u32::from(*w);
        }
        let x = rng.below(1000);
        match k {
            0 => {
                self.ev("done", "accept".into(), Some(&t));
                if x % 5 == 4 {
                    return Err(HErr::Accept);
                }
                Ok(types::Outcome::Accept)
            }
            1 => {
                self.ev("done", "reject".into(), Some(&t));
                Ok(types::Outcome::Reject)
            }
            2 => {
                self.ev("done", format!("out-{x}"), Some(&t));
                Ok(types::Outcome::Error(custom_error(&format!("out-{x}"))))
            }
            _ => {
                self.ev("done", format!("err-{x}"), Some(&t));
                Err(if x % 2 == 0 { HErr::Link(format!("err-{x}")) } else { HErr::Kept(format!("err-{x}")) })
            }
        }
    }
}

pub fn router(
    node: &Rc<Node>,
) -> impl ServiceFactory<
    types::Message,
    State<()>,
    Response = (),
    Error = AError,
    InitError = std::convert::Infallible,
> + use<> {
    let mut r = server::Router::<()>::builder();
    for (ri, route) in ROUTES.iter().enumerate() {
        let node = node.clone();
        r = r.service(
            (*route).to_string(),
            fn_factory_with_config(move |link: types::Link<()>| {
                let node = node.clone();
                async move {
                    let h = H {
                        hid: node.sh.id("handler"),
                        lnk: node.lnk(&L::R(link.receiver().clone())),
                        route: ri,
                        path: link.path().get_ref().to_string(),
                        n: Cell::new(0),
                        checks: Cell::new(0),
                        node,
                    };
                    let vars = link.path().get("id").unwrap_or("").to_string();
                    h.ev("create", vars, None);
                    let d = h.node.cfg.pub_delay;
                    let d = h.node.rng.borrow_mut().range(d.0, d.1);
                    if d > 0 {
                        sleep(d).await;
                    }
                    if ri == 4 {
                        h.ev("create-failed", String::new(), None);
                        return Err(LinkError::force_detach().description("cannot create"));
                    }
                    h.ev("created", String::new(), None);
                    Ok::<_, LinkError>(h)
                }
            }),
        );
    }
    r.build()
}
