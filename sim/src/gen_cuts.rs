//! Streams to be cut in different ways (C08).
use crate::cuts::Cuts;
use crate::r#gen::traffic;
use crate::rng::Rng;
use crate::scen::Scenario;
use crate::sim::US;

pub fn generate(prop: &str, seed: u64, r: &mut Rng) -> Scenario {
    let k = r.below(100);
    let mut s = loop {
        let mut s = match k {
            0..=54 => traffic(*r.pick(&["C01", "C02", "C05", "C06", "C11", "C13", "C16", "C17", "C18"]), seed, r),
            55..=74 => {
                let mut s = crate::gen_c14::generate("C14", seed, r);
                s.bystander = None;
                s
            }
            _ => crate::gen_hs::generate("C09", seed, r),
        };
        if s.eps[0].real != s.eps[1].real {
            s.prop = prop.into();
            break s;
        }
    };
    if s.family == "traffic" && r.pct(30) {
        s = crate::r#gen::values(s, r);
    }
    s.poll_cost = 0;
    // what a forced close leaves unwritten is a matter of chance
    s.ops.retain(|o| !matches!(o.k, crate::scen::OpK::ForceClose));
    for n in &mut s.net {
        n.stalls.clear();
        n.cut_at = 0;
        n.cut_after = 0;
        n.short_read = 0;
        n.short_write = 0;
        n.frag = 0;
        n.cap = n.cap.max(1 << 20);
    }
    s.cuts = Some(Cuts {
        base: s.family.clone(),
        seed: r.next(),
        pct: *r.pick(&[1u32, 5, 20, 50, 100, 100]),
        only: vec![],
        not: vec![],
        span: *r.pick(&[0u32, 30, 80]),
        join: if r.pct(25) { *r.pick(&[US, 10 * US]) } else { 0 },
        short_read: if r.pct(30) { *r.pick(&[1usize, 3, 7, 60]) } else { 0 },
        short_write: if r.pct(50) { *r.pick(&[1usize, 3, 7, 60, 700]) } else { 0 },
    });
    s.family = "cuts".into();
    s
}
