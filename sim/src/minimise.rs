//! Shrinks the tapes of a failing run. Every candidate runs in a fresh process
//! and is kept only if the same property fails in the same class.
use crate::exec::{Outcome, child, tapes_text};
use rt::Tapes;
use rt::tape::{FAULT, HASH, SCHED, STREAMS, WORK};
use std::path::Path;
use std::time::{Duration, Instant};

pub struct Min<'a> {
    prop: &'a str,
    class: &'a str,
    file: std::path::PathBuf,
    pub tried: usize,
    deadline: Instant,
    max: usize,
}

fn size(t: &Tapes) -> (usize, u128) {
    let nz = t.0.iter().flatten().filter(|v| **v != 0).count() + t.0.iter().map(|v| v.len()).sum::<usize>();
    (nz, t.0.iter().flatten().map(|v| *v as u128).sum())
}

impl<'a> Min<'a> {
    pub fn new(prop: &'a str, class: &'a str, dir: &Path, secs: u64, max: usize) -> Self {
        Min { prop, class, file: dir.join(format!("cand-{}.tape", std::process::id())), tried: 0, deadline: Instant::now() + Duration::from_secs(secs), max }
    }
    fn spent(&self) -> bool {
        self.tried >= self.max || Instant::now() > self.deadline
    }
    pub fn attempt(&mut self, t: &Tapes) -> Option<Outcome> {
        self.tried += 1;
        if std::fs::write(&self.file, tapes_text(t)).is_err() {
            rt::harness_error("cannot write candidate tape");
        }
        let o = child(&[self.prop.to_string(), self.file.to_string_lossy().into_owned()]);
        (o.class == self.class).then_some(o)
    }
    fn better(&mut self, best: &mut Tapes, cand: Tapes) -> bool {
        if self.spent() || cand == *best {
            return false;
        }
        if let Some(o) = self.attempt(&cand) {
            // a child that died reports no tapes
            let t = if o.tapes == Tapes::default() && o.class == "signal" { cand } else { o.tapes };
            if size(&t) < size(best) {
                *best = t;
                return true;
            }
        }
        false
    }
    pub fn run(&mut self, start: Tapes) -> Tapes {
        let mut best = start;
        for s in [HASH, SCHED, FAULT] {
            let mut c = best.clone();
            c.0[s].clear();
            self.better(&mut best, c);
        }
        for _round in 0..4 {
            let before = size(&best);
            for s in [SCHED, HASH, FAULT, WORK] {
                // shorter
                let mut cut = best.0[s].len() / 2;
                while cut > 0 && !self.spent() {
                    let mut c = best.clone();
                    let n = c.0[s].len();
                    c.0[s].truncate(n.saturating_sub(cut));
                    if !self.better(&mut best, c) {
                        cut /= 2;
                    }
                }
                // drop or zero chunks
                for zero in [true, false] {
                    if !zero && s == HASH {
                        continue;
                    }
                    let mut len = (best.0[s].len() / 2).max(1);
                    loop {
                        let mut at = 0;
                        while at < best.0[s].len() && !self.spent() {
                            let mut c = best.clone();
                            let e = (at + len).min(c.0[s].len());
                            if zero {
                                if c.0[s][at..e].iter().all(|v| *v == 0) {
                                    at = e;
                                    continue;
                                }
                                c.0[s][at..e].fill(0);
                                self.better(&mut best, c);
                                at = e;
                            } else {
                                c.0[s].drain(at..e);
                                if !self.better(&mut best, c) {
                                    at = e;
                                }
                            }
                        }
                        if len == 1 || self.spent() {
                            break;
                        }
                        len /= 2;
                    }
                }
            }
            // lower values
            for s in 0..STREAMS {
                if s == HASH {
                    continue;
                }
                let mut i = 0;
                while i < best.0[s].len() && !self.spent() {
                    let v = best.0[s][i];
                    for w in [v / 2, v.saturating_sub(1)] {
                        if w < v && i < best.0[s].len() && best.0[s][i] == v {
                            let mut c = best.clone();
                            c.0[s][i] = w;
                            self.better(&mut best, c);
                        }
                    }
                    i += 1;
                }
            }
            if self.spent() || size(&best) == before {
                break;
            }
        }
        let _ = std::fs::remove_file(&self.file);
        best
    }
}
