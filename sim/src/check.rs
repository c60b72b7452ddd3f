//! The check command: seeded search in worker processes, minimisation, replay files, evidence.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};

use crate::oracle::Violation;
use crate::runner::{self, Outcome};
use crate::scen::Scenario;
use crate::r#gen;

pub const WORKERS: u64 = 8;
/// wall time after which a single run counts as hanging
const RUN_LIMIT: Duration = Duration::from_secs(60);

#[derive(Serialize, Deserialize, Default)]
pub struct Summary {
    pub runs: u64,
    pub nontrivial: u64,
    pub sim_ns: u64,
    pub polls: u64,
    pub events: u64,
    pub counters: BTreeMap<String, u64>,
    /// number of runs in which the counter was non-zero
    pub runs_with: BTreeMap<String, u64>,
    pub shapes: Vec<u64>,
    /// (n, hash) of the first runs
    pub hashes: Vec<(u64, u64)>,
    pub found: Vec<Found>,
    /// violations of other properties in runs that use several links
    pub foreign: Vec<Found>,
    /// other properties' violations and self test messages
    pub other: BTreeMap<String, u64>,
    pub done: bool,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Found {
    pub n: u64,
    pub prop: String,
    pub msg: String,
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub violation: String,
    pub tag: String,
    /// hash over the complete event history of the run
    pub hash: String,
    pub seed: u64,
    pub base_seed: u64,
    pub run: u64,
    pub scenario: Scenario,
    pub minimised_from_ops: usize,
    pub trace: Vec<String>,
}

/// Does a violation tagged `tag` (a comma separated list) count for `prop`?
pub fn counts(tag: &str, prop: &str) -> bool {
    tag == "*" || tag.split(',').any(|t| t == prop)
}

/// the kind of a violation: its text without anything specific
pub fn kind(msg: &str) -> String {
    msg.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(40).collect()
}

pub fn runs_of(prop: &str, tier: &str) -> (u64, u64) {
    // (number of runs, wall time limit in seconds)
    let n = match prop {
        "C14" | "C19" => 60_000,
        "C09" => 250_000,
        "C08" => 16_000,
        "C10" => 12_000,
        _ => 24_000,
    };
    if tier == "thorough" { (n * 25, 3000) } else { (n, 240) }
}

fn nontrivial(prop: &str, c: &BTreeMap<String, u64>) -> bool {
    let g = |k: &str| c.get(k).copied().unwrap_or(0) > 0;
    match prop {
        "C01" | "C03" | "C04" | "C16" => g("frame:transfer"),
        "C11" => g("probe:two_links_transfer"),
        "C18" => g("ctl:Flow") && (g("ctl:AttachSender") || g("ctl:AttachReceiver") || g("ctl:LocalDetachSender") || g("ctl:RemoteDetachSender")),
        "C02" => g("ret:outcome"),
        "C05" => g("probe:blocked_send"),
        "C06" => g("ret:err"),
        "C07" | "C12" => g("app:deliver") || g("handler:call"),
        "C15" => g("frame:begin"),
        "C08" => g("cuts:compared"),
        "C09" => g("negotiation:complete") || g("negotiation:refused") || g("negotiation:wrong") || g("negotiation:incomplete"),
        "C10" => g("probe:keep_alive"),
        "C14" => c.keys().any(|k| k.starts_with("hostile:")) || g("probe:hostile_script"),
        "C19" => g("values:seen") && (g("values:terms") || g("values:decoded")),
        "C17" => g("handler:call") && g("handler:shutdown"),
        _ => c.values().any(|v| *v > 0),
    }
}

pub fn worker(prop: &str, base: u64, start: u64, step: u64, count: u64, secs: u64, out: &Path) {
    let now = Instant::now();
    static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
    static SINCE: AtomicU64 = AtomicU64::new(0);
    let epoch = Instant::now();
    let progress = out.with_extension("progress");
    let prog2 = progress.clone();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let cur = CUR.load(Ordering::SeqCst);
            let since = SINCE.load(Ordering::SeqCst);
            if cur != u64::MAX
                && epoch.elapsed().as_millis() as u64 > since + RUN_LIMIT.as_millis() as u64
                && CUR.load(Ordering::SeqCst) == cur
            {
                let _ = std::fs::write(&prog2, format!("hang {cur}"));
                std::process::exit(3);
            }
        }
    });
    let known = Known::load(&repo_dir());
    let mut s = Summary::default();
    let mut shapes = HashSet::new();
    let mut n = start;
    let pf = std::fs::File::create(&progress).unwrap();
    while n < count {
        if now.elapsed().as_secs() > secs {
            break;
        }
        use std::os::unix::fs::FileExt;
        let _ = pf.write_all_at(format!("run {n:20}").as_bytes(), 0);
        SINCE.store(epoch.elapsed().as_millis() as u64, Ordering::SeqCst);
        CUR.store(n, Ordering::SeqCst);
        let scen = r#gen::generate(prop, r#gen::seed_of(prop, base, n));
        let o = runner::run(&scen, false);
        CUR.store(u64::MAX, Ordering::SeqCst);
        s.runs += 1;
        s.sim_ns += o.sim_ns;
        s.polls += o.polls;
        s.events += o.events as u64;
        if n < 64 || n % 997 == 0 {
            s.hashes.push((n, o.hash));
        }
        for (k, v) in &o.counters {
            *s.counters.entry(k.clone()).or_default() += v;
            *s.runs_with.entry(k.clone()).or_default() += 1;
        }
        if nontrivial(prop, &o.counters) {
            s.nontrivial += 1;
            shapes.insert(o.shape);
        }
        let mut kinds = BTreeSet::new();
        let known_at = o.violations.iter().filter(|v| known.suppresses(prop, &v.msg)).map(|v| v.seq).min();
        for v in &o.violations {
            let k = kind(&v.msg);
            // a known finding, or what follows from one
            if known_at.is_some_and(|k| v.seq >= k) {
                *s.counters.entry("known_finding".into()).or_default() += 1;
            } else if counts(&v.prop, prop) {
                if kinds.insert(k) {
                    s.found.push(Found { n, prop: v.prop.clone(), msg: v.msg.clone() });
                }
            } else {
                *s.other.entry(v.prop.clone()).or_default() += 1;
                // is it about how links and sessions act on each other?
                let asks = match prop {
                    "C11" => "probe:two_links_transfer",
                    // do keep-alives have another effect?
                    "C10" => "probe:keep_alive",
                    _ => "",
                };
                if o.counters.get(asks).is_some_and(|n| *n > 0)
                    && s.foreign.len() < 8
                    && !s.foreign.iter().any(|f| kind(&f.msg) == k)
                {
                    s.foreign.push(Found { n, prop: v.prop.clone(), msg: v.msg.clone() });
                }
            }
        }
        if s.found.len() >= 6 {
            break;
        }
        n += step;
    }
    drop(pf);
    s.shapes = shapes.into_iter().collect();
    s.done = true;
    let f = std::fs::File::create(out).unwrap();
    serde_json::to_writer(std::io::BufWriter::new(f), &s).unwrap();
    let _ = std::fs::remove_file(&progress);
}

fn spawn(exe: &Path, args: &[String]) -> Child {
    // address space limit: memory without bound is an error of the run, not of the machine
    let mut c = Command::new("sh");
    c.arg("-c").arg("ulimit -v 8000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(exe);
    c.args(args);
    c.stdout(std::process::Stdio::null());
    c.stderr(std::process::Stdio::null());
    c.spawn().expect("spawn worker")
}

pub fn repo_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from)
}

/// Results of one search.
pub struct Search {
    pub s: Summary,
    pub died: Vec<(u64, String)>,
    pub det_checked: u64,
    pub det_bad: Vec<u64>,
}

pub fn search(prop: &str, base: u64, count: u64, secs: u64) -> Search {
    let exe = std::env::current_exe().unwrap();
    let dir = repo_dir().join("out").join(format!("w-{prop}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    struct W {
        child: Child,
        start: u64,
        out: PathBuf,
    }
    let mk = |k: u64, start: u64, gen_: u64| -> W {
        let out = dir.join(format!("{k}-{gen_}.json"));
        let a: Vec<String> = [
            "worker",
            prop,
            &base.to_string(),
            &start.to_string(),
            &WORKERS.to_string(),
            &count.to_string(),
            &secs.to_string(),
            out.to_str().unwrap(),
        ]
        .iter()
        .map(|x| (*x).to_string())
        .collect();
        W { child: spawn(&exe, &a), start, out }
    };
    // a second process executes the first runs again: same seeds, same histories?
    let det_out = dir.join("det.json");
    let det_n = 64.min(count);
    let mut det = spawn(
        &exe,
        &["det".into(), prop.into(), base.to_string(), det_n.to_string(), det_out.to_str().unwrap().into()],
    );
    let mut ws: Vec<W> = (0..WORKERS).map(|k| mk(k, k, 0)).collect();
    let mut died = vec![];
    let mut outs = vec![];
    let mut gen_ = 0;
    let t = Instant::now();
    while !ws.is_empty() {
        let mut next = vec![];
        for mut w in ws {
            match w.child.try_wait().unwrap() {
                None => next.push(w),
                Some(st) => {
                    if st.success() && w.out.exists() {
                        outs.push(w.out);
                    } else {
                        let p = std::fs::read_to_string(w.out.with_extension("progress")).unwrap_or_default();
                        let n: u64 = p
                            .split_whitespace()
                            .nth(1)
                            .and_then(|x| x.parse().ok())
                            .unwrap_or(w.start);
                        let why = if p.starts_with("hang") {
                            "the process hangs: one step of the endpoint does not end".to_string()
                        } else {
                            format!("the process dies ({st}): crash or memory without bound")
                        };
                        died.push((n, why));
                        gen_ += 1;
                        if died.len() < 3 && t.elapsed().as_secs() < secs {
                            next.push(mk(n % WORKERS, n + WORKERS, gen_));
                        }
                    }
                }
            }
        }
        ws = next;
        std::thread::sleep(Duration::from_millis(20));
    }
    let _ = det.wait();
    let mut s = Summary::default();
    let mut shapes = HashSet::new();
    let mut hashes = BTreeMap::new();
    for o in outs {
        let x: Summary = serde_json::from_slice(&std::fs::read(&o).unwrap()).unwrap();
        s.runs += x.runs;
        s.nontrivial += x.nontrivial;
        s.sim_ns += x.sim_ns;
        s.polls += x.polls;
        s.events += x.events;
        for (k, v) in x.counters {
            *s.counters.entry(k).or_default() += v;
        }
        for (k, v) in x.runs_with {
            *s.runs_with.entry(k).or_default() += v;
        }
        for (k, v) in x.other {
            *s.other.entry(k).or_default() += v;
        }
        shapes.extend(x.shapes);
        hashes.extend(x.hashes);
        s.found.extend(x.found);
        s.foreign.extend(x.foreign);
    }
    s.shapes = shapes.into_iter().collect();
    s.found.sort_by_key(|f| f.n);
    s.foreign.sort_by_key(|f| f.n);
    let mut det_bad = vec![];
    let mut det_checked = 0;
    if let Ok(b) = std::fs::read(&det_out)
        && let Ok(v) = serde_json::from_slice::<Vec<(u64, u64)>>(&b)
    {
        for (n, h) in v {
            if let Some(x) = hashes.get(&n) {
                det_checked += 1;
                if *x != h {
                    det_bad.push(n);
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Search { s, died, det_checked, det_bad }
}

/// Executes the first runs in descending order in one process.
pub fn det(prop: &str, base: u64, n: u64, out: &Path) {
    let mut v = vec![];
    for i in (0..n).rev() {
        let scen = r#gen::generate(prop, r#gen::seed_of(prop, base, i));
        v.push((i, runner::run(&scen, false).hash));
    }
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
}

/// first violation that counts for the property (of the given kind)
fn hit<'a>(o: &'a Outcome, prop: &str, tag: &str, k: Option<&str>) -> Option<&'a Violation> {
    o.violations.iter().find(|v| (counts(&v.prop, prop) || v.prop == tag) && k.is_none_or(|k| kind(&v.msg) == k))
}

/// the (minimal) scenario does without what the property is about
fn alone(prop: &str, s: &Scenario) -> bool {
    use crate::scen::OpK;
    if prop == "C10" {
        return !(0..2).any(|y| s.eps[y].idle_ms > 0 && s.eps[1 - y].real)
            && !s.ops.iter().any(|o| matches!(o.k, OpK::Empty));
    }
    // only one link on one session
    let n = |f: fn(&OpK) -> bool| s.ops.iter().filter(|o| f(&o.k)).count();
    n(|k| matches!(k, OpK::Attach { .. })) < 2 && n(|k| matches!(k, OpK::Begin { .. })) < 2
}

/// Reduces operations, network disturbances and configuration as long as the violation stays.
pub fn minimise(scen: &Scenario, prop: &str, tag: &str, k: &str, secs: u64) -> Scenario {
    let t = Instant::now();
    let mut best = scen.clone();
    let bad = |s: &Scenario| hit(&runner::run(s, false), prop, tag, Some(k)).is_some();
    let late = |t: &Instant| t.elapsed().as_secs() >= secs;
    loop {
        let before = serde_json::to_string(&best).unwrap();
        // operations
        let mut chunk = best.ops.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() && !late(&t) {
                let mut c = best.clone();
                let e = (i + chunk).min(c.ops.len());
                c.ops.drain(i..e);
                if bad(&c) {
                    best = c;
                } else {
                    i = e;
                }
            }
            if chunk == 1 || late(&t) {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        // everything else
        for f in simplifications(&best) {
            if late(&t) {
                break;
            }
            let mut c = best.clone();
            f(&mut c);
            if serde_json::to_string(&c).unwrap() != serde_json::to_string(&best).unwrap() && bad(&c) {
                best = c;
            }
        }
        if late(&t) || serde_json::to_string(&best).unwrap() == before {
            return best;
        }
    }
}

type Simp = Box<dyn Fn(&mut Scenario)>;

fn simplifications(s: &Scenario) -> Vec<Simp> {
    let mut v: Vec<Simp> = vec![];
    for d in 0..2 {
        v.push(Box::new(move |s| s.net[d].stalls.clear()));
        v.push(Box::new(move |s| s.net[d].frag = 0));
        v.push(Box::new(move |s| s.net[d].short_write = 0));
        v.push(Box::new(move |s| s.net[d].short_read = 0));
        v.push(Box::new(move |s| s.net[d].cap = 1 << 20));
        v.push(Box::new(move |s| s.net[d].lat = (10_000, 10_000)));
        v.push(Box::new(move |s| {
            s.net[d].cut_after = 0;
            s.net[d].cut_at = 0;
        }));
        v.push(Box::new(move |s| s.eps[d].idle_ms = 0));
        v.push(Box::new(move |s| s.eps[d].ctl_delay = (0, 0)));
        v.push(Box::new(move |s| s.eps[d].pub_delay = (0, 0)));
        v.push(Box::new(move |s| s.eps[d].model.vary = 0));
        v.push(Box::new(move |s| s.eps[d].model.sym_desc = false));
        v.push(Box::new(move |s| s.eps[d].model.scatter = false));
        v.push(Box::new(move |s| s.eps[d].model.delay = (0, 0)));
        v.push(Box::new(move |s| s.eps[d].model.echo_pct = 0));
        v.push(Box::new(move |s| s.eps[d].model.flow_noise = 0));
        v.push(Box::new(move |s| s.eps[d].model.repeat_pct = 0));
        v.push(Box::new(move |s| s.eps[d].model.split = 0));
        v.push(Box::new(move |s| s.eps[d].model.next_out_id = 0));
        v.push(Box::new(move |s| s.eps[d].model.first_delivery_id = 0));
        v.push(Box::new(move |s| s.eps[d].model.init_dc = 0));
        v.push(Box::new(move |s| s.eps[d].model.in_window = 65535));
        v.push(Box::new(move |s| s.eps[d].model.begin_window = None));
        v.push(Box::new(move |s| s.eps[d].max_frame = 65535));
        v.push(Box::new(move |s| s.eps[d].rcv.delay = (0, 0)));
        v.push(Box::new(move |s| s.eps[d].rcv.take_delay = (0, 0)));
        v.push(Box::new(move |s| s.eps[d].rcv.mix = [1, 0, 0, 0, 0, 0]));
        v.push(Box::new(move |s| s.eps[d].rcv.update_pct = 0));
        v.push(Box::new(move |s| s.eps[d].rcv.batch = 1));
        v.push(Box::new(move |s| s.eps[d].rcv.two_step_pct = 0));
    }
    v.push(Box::new(|s| s.poll_cost = 0));
    v.push(Box::new(|s| s.bystander = None));
    if let Some(c) = &s.cuts {
        let f = |g: fn(&mut crate::cuts::Cuts)| -> Simp {
            Box::new(move |s| {
                if let Some(c) = &mut s.cuts {
                    g(c);
                }
            })
        };
        v.push(f(|c| c.span = 0));
        v.push(f(|c| c.short_read = 0));
        v.push(f(|c| c.short_write = 0));
        if c.join == 0 {
            if c.only.is_empty() {
                // a single unit, or two next to each other
                for i in 0..60 {
                    for only in [vec![i], vec![i, i + 1]] {
                        v.push(Box::new(move |s| {
                            if let Some(c) = &mut s.cuts {
                                c.only.clone_from(&only);
                            }
                        }));
                    }
                }
            } else {
                for pct in [0, 1, 5] {
                    v.push(Box::new(move |s| {
                        if let Some(c) = &mut s.cuts {
                            c.pct = pct;
                        }
                    }));
                }
            }
        }
    }
    for i in (0..s.muts.len()).rev() {
        v.push(Box::new(move |s| {
            if i < s.muts.len() {
                s.muts.remove(i);
            }
        }));
    }
    if let Some(b) = &s.bystander {
        for i in (0..b.ops.len()).rev() {
            v.push(Box::new(move |s| {
                if let Some(b) = &mut s.bystander
                    && i < b.ops.len()
                {
                    b.ops.remove(i);
                }
            }));
        }
        for f in 0..b.flags.len() {
            v.push(Box::new(move |s| {
                if let Some(b) = &mut s.bystander
                    && f < b.flags.len()
                {
                    b.flags.remove(f);
                }
            }));
        }
    }
    for i in 0..s.flags.len() {
        v.push(Box::new(move |s| {
            if i < s.flags.len() {
                s.flags.remove(i);
            }
        }));
    }
    for i in (0..s.script.len()).rev() {
        v.push(Box::new(move |s| {
            if i < s.script.len() {
                s.script.remove(i);
            }
        }));
        v.push(Box::new(move |s| {
            if let Some(x) = s.script.get_mut(i) {
                x.piece = 0;
            }
        }));
        v.push(Box::new(move |s| {
            if let Some(x) = s.script.get_mut(i) {
                x.pause = 0;
            }
        }));
    }
    for i in 0..s.ops.len().min(40) {
        use crate::scen::OpK;
        v.push(Box::new(move |s| {
            if let OpK::Send { spec, .. } = &mut s.ops[i].k {
                spec.len = spec.len.min(10);
            }
        }));
        v.push(Box::new(move |s| {
            if let OpK::Send { spec, .. } = &mut s.ops[i].k {
                spec.tag = None;
                spec.format = None;
                spec.msg = false;
            }
        }));
    }
    v
}

/// `minimise` as a process of its own: the runs may crash.
pub fn minimise_cmd(inp: &Path, out: &Path) {
    let r: Replay = serde_json::from_slice(&std::fs::read(inp).unwrap()).unwrap();
    let k = kind(&r.violation);
    let s = minimise(&r.scenario, &r.property, &r.tag, &k, 40);
    let o = runner::run(&s, true);
    if let Some(v) = hit(&o, &r.property, &r.tag, Some(&k)) {
        let mut trace = o.text.clone();
        if trace.len() > 4000 {
            trace.drain(2000..trace.len() - 2000);
        }
        let n = Replay {
            violation: v.msg.clone(),
            tag: v.prop.clone(),
            hash: format!("{:016x}", o.hash),
            scenario: s,
            trace,
            ..r
        };
        std::fs::write(out, serde_json::to_vec_pretty(&n).unwrap()).unwrap();
    }
}

/// exit code 1: reproduced
pub fn replay(f: &Path, quiet: bool) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(f).unwrap()).unwrap();
    let o = runner::run(&r.scenario, !quiet);
    if !quiet {
        for l in &o.text {
            println!("{l}");
        }
    }
    let h = format!("{:016x}", o.hash);
    match hit(&o, &r.property, &r.tag, Some(&kind(&r.violation))) {
        Some(v) => {
            println!("reproduced: {} [{}]", v.msg, v.prop);
            if r.hash.is_empty() || h == r.hash {
                println!("history hash {h} as recorded");
            } else {
                println!("history hash {h}, recorded {}", r.hash);
            }
            1
        }
        None => {
            println!("not reproduced (history hash {h}, recorded {})", r.hash);
            0
        }
    }
}

fn wait(mut c: Child, secs: u64) -> Option<i32> {
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return s.code().or(Some(-1));
        }
        if t.elapsed().as_secs() > secs {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn check(prop: &str, tier: &str, base: u64, runs: Option<u64>) -> i32 {
    let t = Instant::now();
    let dir = repo_dir();
    let (mut count, secs) = runs_of(prop, tier);
    if let Some(n) = runs {
        count = n;
    }
    let exe = std::env::current_exe().unwrap();
    std::fs::create_dir_all(dir.join("out")).unwrap();
    let mut code = 0;
    let known = Known::load(&dir);
    let mut violations = vec![];

    // known findings are shown every time
    for k in known.open.iter().filter(|k| k.property == prop) {
        let c = spawn(&exe, &["replay".into(), dir.join(&k.file).to_str().unwrap().into(), "quiet".into()]);
        if wait(c, 120) == Some(1) {
            println!("KNOWN-FINDING: property={prop} {}", k.what);
        }
    }

    let r = search(prop, base, count, secs);
    let search_s = t.elapsed().as_secs_f64();
    let mut done = BTreeSet::new();
    let mut cands: Vec<(u64, String, String, bool)> =
        r.s.found.iter().map(|f| (f.n, f.prop.clone(), f.msg.clone(), false)).collect();
    // violations of other properties: do they need a second link or session?
    let mut attributed = BTreeSet::new();
    if cands.is_empty() {
        for f in &r.s.foreign {
            attributed.insert(kind(&f.msg));
            cands.push((f.n, f.prop.clone(), f.msg.clone(), false));
        }
    }
    let mut tried = 0;
    cands.extend(r.died.iter().map(|d| (d.0, "*".to_string(), d.1.clone(), true)));
    for (n, tag, msg, fatal) in cands {
        let k = kind(&msg);
        let foreign = !fatal && attributed.contains(&k);
        if !done.insert(k) || violations.len() >= 3 {
            continue;
        }
        if foreign {
            tried += 1;
            if tried > 5 || !violations.is_empty() {
                continue;
            }
        }
        if known.suppresses(prop, &msg) {
            continue;
        }
        let seed = r#gen::seed_of(prop, base, n);
        let scen = r#gen::generate(prop, seed);
        let rep = Replay {
            property: prop.into(),
            violation: msg.clone(),
            tag,
            hash: String::new(),
            seed,
            base_seed: base,
            run: n,
            minimised_from_ops: scen.ops.len(),
            scenario: scen,
            trace: vec![],
        };
        let raw = dir.join("out").join(format!("{prop}-{base}-{n}.raw.json"));
        let min = dir.join("out").join(format!("{prop}-{base}-{n}.json"));
        let _ = std::fs::remove_file(&min);
        std::fs::write(&raw, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
        let mut path = raw.clone();
        if !fatal {
            let c = spawn(
                &exe,
                &["minimise".into(), raw.to_str().unwrap().into(), min.to_str().unwrap().into()],
            );
            wait(c, 150);
            if min.exists() {
                // it must happen again in a process of its own
                let c = spawn(&exe, &["replay".into(), min.to_str().unwrap().into(), "quiet".into()]);
                if wait(c, 120) == Some(1) {
                    path = min.clone();
                    let _ = std::fs::remove_file(&raw);
                }
            }
        }
        if foreign {
            // the minimal scenario must have more than one link or session
            let alone = std::fs::read(&path)
                .ok()
                .filter(|_| path == min)
                .and_then(|b| serde_json::from_slice::<Replay>(&b).ok())
                .is_none_or(|m| alone(prop, &m.scenario));
            if alone {
                let _ = std::fs::remove_file(&path);
                continue;
            }
            let what = if prop == "C10" { "keep-alives" } else { "more than one link or session" };
            println!("{prop}: needs {what}: {msg}");
        } else {
            println!("{prop}: {msg}");
        }
        println!("VIOLATION property={prop} replay={}", path.display());
        violations.push(serde_json::json!({"what": msg, "run": n, "seed": seed, "replay": path}));
        code = 1;
    }
    let wall = t.elapsed().as_secs_f64();
    evidence(prop, tier, base, count, &r, search_s, wall, &violations, &known);
    println!(
        "{prop} {tier}: {} runs, {} distinct, {:.0} s simulated, {:.1} s wall{}",
        r.s.runs,
        r.s.shapes.len(),
        r.s.sim_ns as f64 / 1e9,
        wall,
        if r.det_bad.is_empty() { String::new() } else { format!(", NOT REPRODUCIBLE: {:?}", r.det_bad) }
    );
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    tier: &str,
    base: u64,
    count: u64,
    r: &Search,
    search_s: f64,
    wall: f64,
    violations: &[serde_json::Value],
    known: &Known,
) {
    let dir = repo_dir().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    let pick = |p: &str| -> BTreeMap<String, serde_json::Value> {
        r.s.counters
            .iter()
            .filter(|(k, _)| k.starts_with(p))
            .map(|(k, v)| {
                (
                    k[p.len()..].to_string(),
                    serde_json::json!({"times": v, "in_runs": r.s.runs_with.get(k)}),
                )
            })
            .collect()
    };
    let mut fam: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    for n in 0..count.min(200) {
        let s = r#gen::generate(prop, r#gen::seed_of(prop, base, n));
        *fam.entry(s.family.clone()).or_default() += 1;
        if samples.len() < 3 {
            let mut ops: Vec<String> = s.ops.iter().map(|o| format!("{:?}", o)).collect();
            ops.truncate(12);
            samples.push(serde_json::json!({
                "run": n, "seed": s.seed, "family": s.family,
                "real_endpoints": [s.eps[0].real, s.eps[1].real],
                "network": s.net, "operations": s.ops.len(), "first_operations": ops,
            }));
        }
    }
    let per_h = |n: f64| (n / search_s.max(0.001) * 3600.0).round();
    let v = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": violations,
        "assumptions": [
            "an endpoint is driven by the simulator's executor, clock, timer wheel and byte pipes; ntex-io's buffers, filters and dispatcher are the real ones",
            "the byte stream between the endpoints is reliable and ordered (TCP); it is delayed, fragmented, stalled, throttled, closed and reset, never corrupted, except where the peer's bytes themselves are the subject (C14)",
            "the history of a run is judged from the frames on the wire (decoded by an independent decoder), the calls and results of the public API and the calls of the services",
        ],
        "coverage": {
            "evaluations": r.s.runs,
            "distinct_nontrivial": r.s.shapes.len(),
            "nontrivial_runs": r.s.nontrivial,
            "rule": "one evaluation is one simulated execution of a scenario generated from (property, VERIF_SEED, run number); non-trivial if it reached what the property is about (see nontrivial() in sim/src/check.rs); distinct by the hash of the order and kinds of all frames, reads, calls, results and application events",
            "samples": samples,
            "families_in_first_200_runs": fam,
            "runs_per_hour": per_h(r.s.runs as f64),
            "seeds_per_hour": per_h(r.s.runs as f64),
            "simulated_seconds": (r.s.sim_ns as f64 / 1e9).round(),
            "task_polls": r.s.polls,
            "history_events": r.s.events,
            "faults_injected": pick("fault:"),
            "probes": pick("probe:"),
            "frames_on_the_wire": pick("frame:"),
            "results": pick("ret:"),
            "application_events": pick("app:"),
            "reproducibility": {"runs_executed_again_in_another_process_and_order": r.det_checked, "different": r.det_bad},
            "worker_processes": WORKERS,
            "violations_of_other_properties_seen": r.s.other,
            "components": {
                "real": ["ntex-amqp (client, server, handshake, dispatcher, session, links, router)", "ntex-amqp-codec", "ntex-io (buffers, dispatcher, filters)", "ntex-service", "ntex-util"],
                "stub": ["transport (simulated byte pipes behind ntex-io's IoStream)", "executor and task scheduling (behind ntex-rt spawn)", "clock and timers (futures-timer replaced, ntex-util time on virtual clock)", "peer (independent AMQP model) in the runs with one real endpoint", "application services and operations (scenario)"],
            },
            "known_findings_open": known.open.iter().filter(|k| k.property == prop).count(),
        },
    });
    let f = dir.join(format!("{prop}.json"));
    let mut o = std::fs::File::create(f).unwrap();
    o.write_all(&serde_json::to_vec_pretty(&v).unwrap()).unwrap();
}

pub struct KnownOpen {
    pub property: String,
    /// replay file under /verif that shows it
    pub file: String,
    /// start of the violation's text
    pub text: String,
    pub what: String,
}
#[derive(Default)]
pub struct Known {
    pub open: Vec<KnownOpen>,
}

impl Known {
    /// lines `open: property=<id> file=<replay> text=<exact violation text> :: <what fails>`
    pub fn load(dir: &Path) -> Known {
        let mut k = Known::default();
        let Ok(s) = std::fs::read_to_string(dir.join("known-findings.txt")) else { return k };
        for l in s.lines() {
            let Some(l) = l.strip_prefix("open: property=") else { continue };
            let Some((p, l)) = l.split_once(" file=") else { continue };
            let Some((f, l)) = l.split_once(" text=") else { continue };
            let Some((t, w)) = l.split_once(" :: ") else { continue };
            k.open.push(KnownOpen {
                property: p.into(),
                file: f.into(),
                text: t.into(),
                what: w.into(),
            });
        }
        k
    }
    pub fn suppresses(&self, prop: &str, msg: &str) -> bool {
        self.open.iter().any(|k| k.property == prop && k.text == msg)
    }
}
