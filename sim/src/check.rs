//! The search over seeds, the report and the evidence file.
use crate::exec::{child, parse_tape, prop, run_seed, warm_seed};
use crate::json;
use crate::minimise::Min;
use crate::replay::Replay;
use drive::Prop;
use rt::Tapes;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Default)]
struct Agg {
    stats: BTreeMap<String, u64>,
    sigs: BTreeSet<u64>,
    states: BTreeSet<u64>,
    cov: Vec<u8>,
    guards: u64,
    samples: Vec<String>,
    known: BTreeSet<String>,
    digests: BTreeMap<u64, String>,
}

struct Found {
    idx: u64,
    class: String,
    detail: String,
    tapes: Option<Tapes>,
    worker: u64,
    /// happened in the fixed warm-up runs, not in a counted one
    warm: bool,
}

fn root() -> std::path::PathBuf {
    std::env::var("CGAR_SIM_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn spawn(p: &Prop, base: u64, k: u64, n: u64, end: u64, cap: Duration, digests: bool) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg("worker").arg(p.id);
    for v in [base, k, n, end] {
        c.arg(v.to_string());
    }
    c.arg(if digests { "digests" } else { "-" }).arg(cap.as_secs().to_string());
    match c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => rt::harness_error(&format!("cannot start worker: {e}")),
    }
}

enum Msg {
    Start(u64, u64),
    Line(u64, String),
    Eof(u64),
}

/// Run indices 0..end over `n` workers. Returns the failing run with the lowest
/// index, which does not depend on `n` or on timing.
fn search(p: &Prop, base: u64, end: u64, n: u64, cap: Duration, digests: bool) -> (Agg, Option<Found>, bool) {
    let t0 = Instant::now();
    let (tx, rx) = mpsc::channel();
    let mut kids: Vec<Option<Child>> = vec![];
    for k in 0..n {
        let mut c = spawn(p, base, k, n, end, cap, digests);
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::with_capacity(1 << 16, out).lines() {
                let Ok(l) = l else { break };
                let m = match l.strip_prefix("S ") {
                    Some(i) => Msg::Start(k, i.parse().unwrap_or(0)),
                    None => Msg::Line(k, l),
                };
                if tx.send(m).is_err() {
                    break;
                }
            }
            let _ = tx.send(Msg::Eof(k));
        });
        kids.push(Some(c));
    }
    let mut agg = Agg::default();
    let mut at = vec![u64::MAX; n as usize];
    let mut ended = vec![false; n as usize];
    let mut warm = vec![false; n as usize];
    let mut best: Option<Found> = None;
    let mut last_tapes: Vec<Option<Found>> = (0..n).map(|_| None).collect();
    let mut live = n;
    let mut capped = false;
    while live > 0 {
        // workers stop by themselves at `cap`; this is for one that is stuck
        if t0.elapsed() > cap + Duration::from_secs(45) && !capped {
            capped = true;
            for c in kids.iter_mut().flatten() {
                let _ = c.kill();
            }
        }
        let Ok(m) = rx.recv_timeout(Duration::from_millis(200)) else { continue };
        match m {
            Msg::Start(k, i) => {
                at[k as usize] = i;
                if best.as_ref().is_some_and(|b| i > b.idx) {
                    if let Some(c) = kids[k as usize].as_mut() {
                        let _ = c.kill();
                    }
                }
            }
            Msg::Line(k, l) => {
                let ku = k as usize;
                if let Some(v) = l.strip_prefix("V ") {
                    let mut it = v.splitn(3, ' ');
                    let idx = it.next().unwrap().parse().unwrap();
                    let class = it.next().unwrap_or("").to_string();
                    let detail = it.next().unwrap_or("").to_string();
                    last_tapes[ku] = Some(Found { idx, class, detail, tapes: Some(Tapes::default()), worker: k, warm: warm[ku] });
                } else if l == "END" {
                    ended[ku] = true;
                    if let Some(f) = last_tapes[ku].take() {
                        if best.as_ref().is_none_or(|b| (!f.warm, f.idx) < (!b.warm, b.idx)) {
                            best = Some(f);
                        }
                    }
                } else if l.starts_with("W ") {
                    warm[ku] = true;
                } else if let Some(f) = last_tapes[ku].as_mut() {
                    parse_tape(&l, f.tapes.as_mut().unwrap());
                } else {
                    absorb(&mut agg, &l);
                }
            }
            Msg::Eof(k) => {
                live -= 1;
                let ku = k as usize;
                let mut c = kids[ku].take().unwrap();
                let st = c.wait();
                if !ended[ku] && !capped {
                    use std::os::unix::process::ExitStatusExt;
                    match st.as_ref().ok().and_then(|s| s.signal()) {
                        Some(9) if best.is_some() => {}
                        Some(s) if at[ku] != u64::MAX => {
                            if best.as_ref().is_none_or(|b| at[ku] < b.idx) {
                                best = Some(Found { idx: at[ku], class: "signal".into(), detail: format!("worker died by signal {s}"), tapes: None, worker: k, warm: false });
                            }
                        }
                        _ => {
                            let mut e = String::new();
                            if let Some(mut x) = c.stderr.take() {
                                use std::io::Read;
                                let _ = x.read_to_string(&mut e);
                            }
                            rt::harness_error(&format!("worker {k} failed ({st:?}): {e}"));
                        }
                    }
                }
            }
        }
    }
    capped |= agg.stats.contains_key("total.capped");
    (agg, best, capped)
}

fn absorb(a: &mut Agg, l: &str) {
    let (t, r) = l.split_once(' ').unwrap_or((l, ""));
    match t {
        "K" => {
            if let Some((k, v)) = r.rsplit_once(' ') {
                *a.stats.entry(k.into()).or_default() += v.parse::<u64>().unwrap_or(0);
            }
        }
        "G" => {
            a.sigs.insert(u64::from_str_radix(r, 16).unwrap_or(0));
        }
        "T" => {
            a.states.insert(u64::from_str_radix(r, 16).unwrap_or(0));
        }
        "N" => {
            a.known.insert(r.into());
        }
        "X" => a.samples.push(r.into()),
        "D" => {
            if let Some((i, d)) = r.split_once(' ') {
                a.digests.insert(i.parse().unwrap_or(0), d.into());
            }
        }
        "C" => {
            let (g, h) = r.split_once(' ').unwrap_or((r, ""));
            a.guards = g.parse().unwrap_or(0);
            let h = h.as_bytes();
            a.cov.resize(h.len().max(a.cov.len()), 0);
            for (x, c) in a.cov.iter_mut().zip(h) {
                *x |= (*c as char).to_digit(16).unwrap_or(0) as u8;
            }
        }
        _ => {}
    }
}

pub fn check(id: &str) -> i32 {
    let p = prop(id);
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let mut end = if tier == "thorough" { p.thorough } else { p.quick };
    if let Ok(r) = std::env::var("CGAR_SIM_RUNS") {
        end = r.parse().unwrap_or(end);
    }
    let cap = Duration::from_secs(if tier == "thorough" { 780 } else { 420 });
    let t0 = Instant::now();
    let (agg, found, capped) = search(p, base, end, 8, cap, false);
    let wall = t0.elapsed().as_secs_f64();
    for k in &agg.known {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    let viol = found.is_some() as u64;
    evidence(p, tier, base, &agg, wall, viol, capped);
    let Some(f) = found else {
        let runs = agg.stats.get("total.runs").copied().unwrap_or(0);
        println!("{id}: {runs} simulated runs ({tier}, seed {}), no violation, {wall:.1} s{}", base as i64, if capped { ", stopped by the time cap" } else { "" });
        return 0;
    };
    println!("{id}: {} failed: {} {}", name(p, base, &f), f.class, f.detail);
    report(p, base, f)
}

fn name(p: &Prop, base: u64, f: &Found) -> String {
    if f.warm {
        return format!("warm-up run {} seed {:#x}", f.idx, warm_seed(f.idx));
    }
    format!("VERIF_SEED={} run {} seed {:#x}", base as i64, f.idx, run_seed(p, base, f.idx))
}

fn report(p: &Prop, base: u64, f: Found) -> i32 {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}{}.replay", p.id, base, if f.warm { "w" } else { "" }, f.idx));
    let found_by = name(p, base, &f);
    if f.warm {
        // every candidate would stop in the warm-up otherwise
        unsafe { std::env::set_var("CGAR_SIM_WARM", "0") };
    }
    let save = |r: Replay| {
        if std::fs::write(&path, r.text()).is_err() {
            rt::harness_error("cannot write the replay file");
        }
    };
    if let Some(t) = &f.tapes {
        let mut m = Min::new(p.id, &f.class, &dir, 60, 600);
        if m.attempt(t).is_some() {
            let t = m.run(t.clone());
            let file = path.to_string_lossy().into_owned();
            save(Replay { prop: p.id.into(), seed: found_by.clone(), tapes: Some(t.clone()), seeds: vec![], cold: f.warm, o: Default::default() });
            let args = [p.id.to_string(), file.clone(), "trace".to_string()];
            let a = child(&args);
            save(Replay { prop: p.id.into(), seed: found_by, tapes: Some(t), seeds: vec![], cold: f.warm, o: a.clone() });
            let b = child(&args);
            if a.class == f.class && b.class == a.class && a.digest == b.digest {
                println!("minimised with {} candidate runs: {} {}", m.tried, a.class, a.detail);
                for l in a.trace.iter().take(60) {
                    println!("  {l}");
                }
                println!("VIOLATION property={} replay={}", p.id, file);
                return 1;
            }
            rt::harness_error("the minimised run does not repeat");
        }
    }
    unsafe { std::env::remove_var("CGAR_SIM_WARM") };
    // Not reproducible on its own: process-wide state left by earlier runs of
    // the same worker matters. Replay the shortest tail of that worker's runs.
    let all: Vec<u64> = (0..=f.idx).filter(|i| i % 8 == f.worker).map(|i| run_seed(p, base, i)).collect();
    let mut k = 1;
    loop {
        let tail = all[all.len().saturating_sub(k)..].to_vec();
        let mut args = vec![p.id.to_string(), "-".to_string()];
        args.extend(tail.iter().map(|s| s.to_string()));
        args.push("trace".into());
        let a = child(&args);
        if a.class == f.class {
            let b = child(&args);
            if b.class == a.class && b.digest == a.digest {
                save(Replay { prop: p.id.into(), seed: found_by, tapes: None, seeds: tail, cold: false, o: a.clone() });
                println!("repeats as a sequence of {} runs: {} {}", k, a.class, a.detail);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                return 1;
            }
        }
        if k >= all.len() || k > 2000 {
            rt::harness_error(&format!("run {} failed ({} {}) but does not repeat", f.idx, f.class, f.detail));
        }
        k = (k * 4).min(all.len());
    }
}

fn evidence(p: &Prop, tier: &str, base: u64, a: &Agg, wall: f64, viol: u64, capped: bool) {
    let g = |k: &str| a.stats.get(k).copied().unwrap_or(0);
    let edges: u32 = a.cov.iter().map(|b| b.count_ones()).sum();
    let map = |pre: &str| {
        let v: Vec<String> = a.stats.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| format!("{}: {}", json::s(k.strip_prefix(pre).unwrap()), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let list = |v: &[String]| format!("[{}]", v.iter().map(|s| json::s(s)).collect::<Vec<_>>().join(", "));
    let strs = |v: &[&str]| format!("[{}]", v.iter().map(|s| json::s(s)).collect::<Vec<_>>().join(", "));
    let runs = g("total.runs");
    let t = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"nontrivial_runs\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_seconds\": {:.6},\n  \"executed_edges\": {},\n  \"thread_switches\": {},\n  \"faults_fired\": {},\n  \"fault_kinds\": {},\n  \"operations\": {},\n  \"checks\": {},\n  \"scheduler\": {},\n  \"distinct_states\": {},\n  \"covered_edges\": {},\n  \"instrumented_edges\": {},\n  \"real_components\": {},\n  \"stubbed_components\": {},\n  \"stopped_by_time_cap\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json::s(p.id),
        json::s(tier),
        base as i64,
        runs,
        a.sigs.len(),
        json::s(p.rule),
        list(&a.samples),
        g("total.nontrivial"),
        (runs as f64 / wall.max(0.001) * 3600.0) as u64,
        g("total.sim_ns") as f64 / 1e9,
        g("total.edges"),
        g("total.switches"),
        g("total.faults"),
        map("fault."),
        map("op."),
        map("check."),
        map("sched."),
        a.states.len(),
        edges,
        a.guards,
        strs(p.real),
        strs(p.stub),
        capped,
        strs(p.assume),
        wall,
        viol
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{}.json", p.id)), t).is_err() {
        rt::harness_error("cannot write evidence");
    }
}

/// Every property: the same seeds with 8 workers, 3 workers and one by one in
/// fresh processes must give the same event-log digests, and two different
/// seeds must not.
pub fn selftest(runs: u64) -> i32 {
    let mut bad = 0;
    let only = std::env::args().nth(3);
    for p in drive::all() {
        if only.as_ref().is_some_and(|o| o != p.id) {
            continue;
        }
        let cap = Duration::from_secs(600);
        let a = search(p, 7, runs, 8, cap, true);
        let b = search(p, 7, runs, 3, cap, true);
        let c = search(p, 8, runs, 8, cap, true);
        let diff: Vec<u64> = a.0.digests.iter().filter(|(i, d)| b.0.digests.get(i) != Some(d)).map(|(i, _)| *i).collect();
        let same = a.0.digests.iter().filter(|(i, d)| c.0.digests.get(i) == Some(d)).count();
        let mut fresh = 0;
        for (i, d) in a.0.digests.iter().take(12) {
            let o = child(&[p.id.to_string(), "-".into(), run_seed(p, 7, *i).to_string()]);
            fresh += (&o.digest != d) as u32;
        }
        let distinct: BTreeSet<&String> = a.0.digests.values().collect();
        let ok = diff.is_empty() && fresh == 0 && distinct.len() as u64 * 10 >= runs && (same as u64) * 10 < runs;
        println!("{}: {} runs, {} differ between worker counts {:?}, {} differ in fresh processes, {} distinct digests, {} equal under another seed: {}", p.id, a.0.digests.len(), diff.len(), diff.iter().take(5).collect::<Vec<_>>(), fresh, distinct.len(), same, if ok { "ok" } else { "FAIL" });
        bad += !ok as i32;
    }
    (bad > 0) as i32
}
