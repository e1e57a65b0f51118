//! Runs simulations inside this process.
use drive::Prop;
use rt::tape::{NAMES, STREAMS};
use rt::{Limits, RunResult, Source, Tapes};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;

pub const WALL_MS: u64 = 30_000;

pub fn prop(id: &str) -> &'static Prop {
    match drive::all().iter().find(|p| p.id == id) {
        Some(p) => p,
        None => rt::harness_error(&format!("unknown property {id}")),
    }
}

pub fn run_seed(p: &Prop, base: u64, idx: u64) -> u64 {
    rt::tape::mix(rt::tape::mix(base, rt::fnv(p.id.as_bytes())), idx)
}

pub fn run(p: &Prop, src: Source, trace: bool) -> RunResult {
    let f = p.run;
    let body = move || {
        f();
        // std keeps an unfinished line buffered across runs
        rt::sim().fs.no_faults();
        let _ = std::io::stdout().flush();
    };
    rt::sched::run(src, Limits { steps: p.steps, trace }, WALL_MS, Box::new(body))
}

/// Fixed runs that fill lazily initialised statics, so that the first counted
/// run sees the same process state as every later one.
pub fn prepare(p: &Prop) {
    rt::init();
    let n = std::env::var("CGAR_SIM_WARM").ok().and_then(|v| v.parse().ok()).unwrap_or(p.warm);
    for seed in 0..n {
        let r = run(p, Source::seeded(warm_seed(seed)), false);
        if let Some(v) = &r.verdict {
            // reported as it is; its replay runs without warm-up
            out(&format!("W {seed}\nV {seed} {} {}\n{}END\n", v.class, v.detail.replace('\n', " "), tapes_text(&r.tapes)));
            unsafe { rt::sys::sys3(231, 0, 0, 0) };
        }
    }
}

pub fn warm_seed(i: u64) -> u64 {
    rt::tape::mix(0xA11CE, i)
}

fn out(s: &str) {
    rt::sys::write_all(1, s.as_bytes());
}

pub fn tapes_text(t: &Tapes) -> String {
    let mut o = String::new();
    for s in 0..STREAMS {
        o.push_str("tape ");
        o.push_str(NAMES[s]);
        for v in &t.0[s] {
            o.push(' ');
            o.push_str(&v.to_string());
        }
        o.push('\n');
    }
    o
}

pub fn parse_tape(l: &str, t: &mut Tapes) -> bool {
    let Some(r) = l.strip_prefix("tape ") else { return false };
    let mut it = r.split_whitespace();
    let n = it.next().unwrap_or("");
    if let Some(s) = NAMES.iter().position(|x| *x == n) {
        t.0[s] = it.filter_map(|v| v.parse().ok()).collect();
    }
    true
}

/// worker <prop> <seed> <first> <step> <end>
pub fn worker(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let n: Vec<u64> = a[1..5].iter().map(|x| x.parse().unwrap()).collect();
    let (base, first, step, end) = (n[0], n[1], n[2], n[3]);
    let digests = a.get(5).is_some_and(|x| x == "digests");
    let deadline: u64 = a.get(6).and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    let t0 = std::time::Instant::now();
    rt::sys::pin(first as usize % 8);
    prepare(p);
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs = BTreeSet::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut tot = [0u64; 6];
    let mut known = BTreeSet::new();
    let mut samples = vec![];
    let mut i = first;
    let mut viol = None;
    let mut capped = false;
    while i < end {
        if t0.elapsed().as_secs() >= deadline {
            capped = true;
            break;
        }
        out(&format!("S {i}\n"));
        let seed = run_seed(p, base, i);
        let sample = samples.is_empty() && i >= end / 2 && first < 3;
        let r = run(p, Source::seeded(seed), sample);
        for (k, v) in &r.stats {
            *stats.entry(k.clone()).or_default() += v;
        }
        if digests {
            out(&format!("D {i} {:x}\n", r.digest));
        }
        if r.nontrivial {
            sigs.insert(r.sig);
            tot[5] += 1;
        }
        if states.len() < 200_000 {
            states.extend(r.states.iter());
        }
        tot[0] += 1;
        tot[1] += r.steps;
        tot[2] += r.switches;
        tot[3] += r.faults;
        tot[4] += r.clock_ns;
        for k in &r.known {
            known.insert(k.clone());
        }
        if sample {
            let mut t = r.trace.clone();
            t.truncate(12);
            samples.push(format!("run {i} seed {seed:#x}: {}", t.join(" | ")));
        }
        if let Some(v) = &r.verdict {
            viol = Some(format!("V {i} {} {}\n{}", v.class, v.detail.replace('\n', " "), tapes_text(&r.tapes)));
            break;
        }
        if r.poisoned {
            rt::harness_error("run ended with live threads but no verdict");
        }
        i += step;
    }
    let mut o = String::new();
    for (k, v) in &stats {
        o.push_str(&format!("K {k} {v}\n"));
    }
    for (k, v) in ["runs", "edges", "switches", "faults", "sim_ns", "nontrivial"].iter().zip(tot) {
        o.push_str(&format!("K total.{k} {v}\n"));
    }
    if capped {
        o.push_str("K total.capped 1\n");
    }
    for s in &sigs {
        o.push_str(&format!("G {s:x}\n"));
    }
    for s in &states {
        o.push_str(&format!("T {s:x}\n"));
    }
    for k in &known {
        o.push_str(&format!("N {k}\n"));
    }
    for s in &samples {
        o.push_str(&format!("X {}\n", s.replace('\n', " ")));
    }
    #[allow(static_mut_refs)]
    let (cov, guards) = unsafe { (&rt::sched::COV, rt::sched::GUARDS) };
    let mut hex = String::new();
    for c in cov[..=(guards as usize)].chunks(4) {
        let mut v = 0u8;
        for (j, b) in c.iter().enumerate() {
            v |= (*b != 0) as u8 * (1 << j);
        }
        hex.push(char::from_digit(v as u32, 16).unwrap());
    }
    o.push_str(&format!("C {guards} {hex}\n"));
    if let Some(v) = viol {
        o.push_str(&v);
    }
    o.push_str("END\n");
    out(&o);
    let _ = std::io::stdout().flush();
    unsafe { rt::sys::sys3(231, 0, 0, 0) };
    0
}

/// one <prop> <tapefile|-> [seed ...]: replay tapes (or seeds, in order) and
/// print the outcome of the last run.
pub fn one(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let trace = a.iter().any(|x| x == "trace");
    prepare(p);
    let mut last = None;
    if a[1] == "-" {
        for s in a[2..].iter().filter(|x| *x != "trace") {
            let r = run(p, Source::seeded(s.parse().unwrap()), trace);
            let stop = r.poisoned;
            last = Some(r);
            if stop {
                break;
            }
        }
    } else {
        let text = match std::fs::read_to_string(&a[1]) {
            Ok(t) => t,
            Err(e) => rt::harness_error(&format!("{}: {e}", a[1])),
        };
        let mut t = Tapes::default();
        for l in text.lines() {
            parse_tape(l, &mut t);
        }
        last = Some(run(p, Source::replay(t), trace));
    }
    let r = last.unwrap();
    let mut o = String::new();
    match &r.verdict {
        Some(v) => o.push_str(&format!("V {} {}\n", v.class, v.detail.replace('\n', " "))),
        None => o.push_str("OK\n"),
    }
    o.push_str(&format!("digest {:x}\nedges {}\nswitches {}\nfaults {}\n", r.digest, r.steps, r.switches, r.faults));
    o.push_str(&tapes_text(&r.tapes));
    if trace {
        for t in &r.trace {
            o.push_str(&format!("# {}\n", t.replace('\n', " ")));
        }
    }
    o.push_str("END\n");
    out(&o);
    unsafe { rt::sys::sys3(231, 0, 0, 0) };
    0
}

/// What a child `one` reported.
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub class: String,
    pub detail: String,
    pub digest: String,
    pub tapes: Tapes,
    pub trace: Vec<String>,
}

pub fn child(args: &[String]) -> Outcome {
    let exe = std::env::current_exe().unwrap();
    let o = std::process::Command::new(exe).arg("one").args(args).stdin(std::process::Stdio::null()).output();
    let o = match o {
        Ok(o) => o,
        Err(e) => rt::harness_error(&format!("cannot start child: {e}")),
    };
    let text = String::from_utf8_lossy(&o.stdout);
    let mut r = Outcome::default();
    if let Some(v) = text.lines().any(|l| l.starts_with("W ")).then(|| text.lines().find_map(|l| l.strip_prefix("V "))).flatten() {
        let mut it = v.splitn(3, ' ').skip(1);
        r.class = it.next().unwrap_or("").into();
        r.detail = it.next().unwrap_or("").into();
        return r;
    }
    if !text.contains("END\n") {
        use std::os::unix::process::ExitStatusExt;
        match o.status.signal() {
            Some(s) => {
                r.class = "signal".into();
                r.detail = format!("process died by signal {s}");
            }
            None => rt::harness_error(&format!("child failed: {}", String::from_utf8_lossy(&o.stderr))),
        }
        return r;
    }
    for l in text.lines() {
        if let Some(v) = l.strip_prefix("V ") {
            let (c, d) = v.split_once(' ').unwrap_or((v, ""));
            r.class = c.into();
            r.detail = d.into();
        } else if let Some(d) = l.strip_prefix("digest ") {
            r.digest = d.into();
        } else if let Some(d) = l.strip_prefix("# ") {
            r.trace.push(d.into());
        } else {
            parse_tape(l, &mut r.tapes);
        }
    }
    r
}
