#![allow(dead_code)]
mod alloc;
mod check;
mod r#gen;
mod cuts;
mod gen_cuts;
mod hostile;
mod hist;
mod model;
mod net;
mod node;
mod oracle;
mod oracle2;
mod oracle3;
mod oracle4;
mod oracle5;
mod oracle6;
mod oracle7;
mod script;
mod gen_c14;
mod gen_hs;
mod rng;
mod rout;
mod runner;
mod scen;
mod sim;
mod tracker;
mod vals;
mod wire;

use std::collections::BTreeMap;

#[global_allocator]
static GLOBAL: alloc::Noting = alloc::Noting;

fn main() {
    runner::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("one") => {
            let seed = r#gen::seed_of(&a[2], 1, a[3].parse().unwrap());
            let s = r#gen::generate(&a[2], seed);
            let o = runner::run(&s, true);
            if a.len() > 4 {
                println!("{}", serde_json::to_string(&s).unwrap());
            }
            for l in &o.text {
                println!("{l}");
            }
            for v in &o.violations {
                println!("!! {} @{} {}", v.prop, v.seq, v.msg);
            }
            println!("hash {:x} polls {} sim {:.3}s ev {}", o.hash, o.polls, o.sim_ns as f64 / 1e9, o.events);
        }
        Some("many") => {
            let n: u64 = a[3].parse().unwrap();
            let from: u64 = a.get(4).map_or(0, |x| x.parse().unwrap());
            let mut c: BTreeMap<String, u64> = BTreeMap::new();
            let mut byp: BTreeMap<String, (u64, Vec<u64>, String)> = BTreeMap::new();
            let t = std::time::Instant::now();
            let next = std::sync::atomic::AtomicU64::new(from);
            let res = std::sync::Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for _ in 0..8 {
                    sc.spawn(|| {
                        loop {
                            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            if i >= from + n {
                                break;
                            }
                            let seed = r#gen::seed_of(&a[2], 1, i);
                            let s = r#gen::generate(&a[2], seed);
                            let t = std::time::Instant::now();
                            let o = runner::run(&s, false);
                            if t.elapsed().as_millis() > 1500 {
                                println!("slow {i}: {:?} polls {} ev {}", t.elapsed(), o.polls, o.events);
                            }
                            res.lock().unwrap().push((i, o));
                        }
                    });
                }
            });
            let mut res = res.into_inner().unwrap();
            res.sort_by_key(|r| r.0);
            for (i, o) in res {
                for (k, v) in o.counters {
                    *c.entry(k).or_default() += v;
                }
                let mut seen = std::collections::BTreeSet::new();
                for v in o.violations {
                    let key: String = format!(
                        "{} {}",
                        v.prop,
                        v.msg.chars().filter(|c| !c.is_ascii_digit()).take(36).collect::<String>()
                    );
                    if seen.insert(key.clone()) {
                        let e = byp.entry(key).or_insert((0, vec![], v.msg.clone()));
                        e.0 += 1;
                        if e.1.len() < 5 {
                            e.1.push(i);
                        }
                    }
                }
            }
            for (k, v) in &c {
                if std::env::var("COUNTERS").is_ok() { println!("  {k} = {v}"); }
            }
            for (k, (n, ex, m)) in &byp {
                println!("{n:6} {k}\n         {ex:?} {m:.170}");
            }
            println!("{:?} for {n}", t.elapsed());
        }
        Some("check") => {
            let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let mut base = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut runs = None;
            let mut i = 3;
            while i + 1 < a.len() {
                match a[i].as_str() {
                    "--tier" => tier = a[i + 1].clone(),
                    "--seed" => base = a[i + 1].parse().unwrap(),
                    "--runs" => runs = a[i + 1].parse().ok(),
                    x => panic!("unknown option {x}"),
                }
                i += 2;
            }
            std::process::exit(check::check(&a[2], &tier, base, runs));
        }
        Some("worker") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            check::worker(&a[2], n(3), n(4), n(5), n(6), n(7), a[8].as_ref());
        }
        Some("det") => check::det(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].as_ref()),
        Some("minimise") => check::minimise_cmd(a[2].as_ref(), a[3].as_ref()),
        Some("replay") => std::process::exit(check::replay(a[2].as_ref(), a.len() > 3)),
        _ => {
            eprintln!("amqpsim check PROP [--tier quick|thorough] [--seed N] [--runs N] | replay FILE");
            std::process::exit(2);
        }
    }
}
