//! Hostile peers (C14), next to a connection that must not notice.
use crate::r#gen::traffic;
use crate::hostile::{self, Ctx, Kind, Mut};
use crate::rng::Rng;
use crate::scen::Scenario;
use crate::script::Step;
use crate::sim::{MS, SEC, US};
use crate::wire::{Dec, Enc, V};

fn calm(s: &mut Scenario) {
    for n in &mut s.net {
        n.stalls.clear();
        n.cut_at = 0;
        n.cut_after = 0;
        n.cap = n.cap.max(1 << 18);
    }
}

pub fn generate(prop: &str, seed: u64, r: &mut Rng) -> Scenario {
    let mut s = if r.pct(75) { model(prop, seed, r) } else { script(prop, seed, r) };
    s.family = "hostile".into();
    s.ops.retain(|o| o.at < s.heal_at);
    if r.pct(75) {
        let mut b = traffic(if r.pct(50) { "C01" } else { "C12" }, r.next(), r);
        if r.pct(40) {
            b = crate::r#gen::values(b, r);
            b.flags.retain(|f| f != "desc-filter");
        }
        b.ops.retain(|o| o.at < b.heal_at);
        b.ops.truncate(30);
        calm(&mut b);
        for e in &mut b.eps {
            e.idle_ms = 0;
        }
        s.heal_at = s.heal_at.max(b.heal_at);
        s.cut_at = (s.heal_at + 12 * SEC).max(s.cut_at);
        s.end_at = s.cut_at + 8 * SEC;
        b.heal_at = s.heal_at;
        b.cut_at = s.cut_at;
        b.end_at = s.end_at;
        s.bystander = Some(Box::new(b));
    }
    s
}

fn model(prop: &str, seed: u64, r: &mut Rng) -> Scenario {
    let mut s = loop {
        let s = traffic(*r.pick(&["C01", "C02", "C06", "C13", "C17", "C18", "C14"]), seed, r);
        if s.eps[0].real != s.eps[1].real {
            break s;
        }
    };
    s.prop = prop.into();
    if r.pct(50) {
        s = crate::r#gen::values(s, r);
    }
    if r.pct(60) {
        calm(&mut s);
    }
    if r.pct(50) {
        s.eps[1].max_size = *r.pick(&[512usize, 600, 4096, 65_536]);
    }
    for e in &mut s.eps {
        if r.pct(80) {
            e.idle_ms = 0;
        }
    }
    if r.pct(30) {
        for e in &mut s.eps {
            e.max_frame = 1 << 21;
        }
    }
    s.muts = hostile::plan(r);
    s
}

fn script(prop: &str, seed: u64, r: &mut Rng) -> Scenario {
    let mut s = loop {
        let s = crate::gen_hs::generate(prop, seed, r);
        if s.eps[0].real != s.eps[1].real {
            break s;
        }
    };
    if r.pct(50) {
        s.eps[1].max_size = *r.pick(&[512usize, 600, 4096]);
    }
    let x = usize::from(s.eps[1].real);
    let c = Ctx { limit: crate::model::inbound_limit(&s, x), ..Ctx::default() };
    let mut enc = Enc { rng: Rng::new(r.next()), vary: 0, sym_desc: false };
    let n = r.range(1, 3);
    for _ in 0..n {
        let i = r.below(s.script.len() as u64) as usize;
        let b = s.script[i].bytes.clone();
        let k = hostile::KINDS[r.below(hostile::KINDS.len() as u64) as usize].0;
        if matches!(k, Kind::Hold | Kind::Drop) {
            continue;
        }
        let m = Mut { at: 0, k, x: r.next() };
        // a performative, if it is one
        let p = if b.len() > 8 && &b[..4] != b"AMQP" { perf(&b) } else { None };
        let raw = if b.len() < 8 { b"AMQP\0\x01\0\0".to_vec() } else { b.clone() };
        if let hostile::Out::Now(b) = hostile::apply(&m, &mut enc, 0, p.as_ref(), &raw, &c) {
            s.script[i].what = format!("{} {k:?}", s.script[i].what);
            s.script[i].bytes = b;
        }
        let st = &mut s.script[i];
        if st.bytes.len() > 2000 {
            st.piece = 0;
        }
    }
    if r.pct(40) {
        // then anything
        let n = r.logu(1, 3000) as usize;
        let bytes = r.bytes(n);
        s.script.push(Step {
            what: "noise".into(),
            bytes,
            wait: 0,
            pause: *r.pick(&[0, 10 * US, 30 * MS]),
            piece: 0,
            gap: 0,
            end: r.below(3) as u8,
        });
    }
    s
}

fn perf(b: &[u8]) -> Option<crate::wire::Perf> {
    let off = usize::from(b[4]) * 4;
    let V::Desc(d, v) = Dec::new(b.get(off..)?).value().ok()? else { return None };
    let V::List(f) = *v else { return None };
    Some(crate::wire::Perf::new(d.as_u64()?, f))
}
