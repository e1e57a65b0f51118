//! Triangulating points, with and without prescribed edges (C14).
use crate::num::*;
use crate::readers::{make, Form};
use crate::with_num;
use rt::{chance, count, guarded, mark, nontrivial, note, sim, spawn, violated, work, yield_now};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type Pt = [i64; 2];

/// Points on a small integer grid, so that every test is exact.
#[derive(Clone, Debug)]
pub struct Job {
    p: Vec<Pt>,
    seg: Vec<[usize; 2]>,
}

fn orient(a: Pt, b: Pt, c: Pt) -> i64 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}

/// Positive if d is strictly inside the circle through the counterclockwise a, b, c.
fn circle(a: Pt, b: Pt, c: Pt, d: Pt) -> i64 {
    let r = |p: Pt| {
        let (x, y) = (p[0] - d[0], p[1] - d[1]);
        [x, y, x * x + y * y]
    };
    let (a, b, c) = (r(a), r(b), r(c));
    a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
}

/// c strictly between a and b.
fn between(a: Pt, b: Pt, c: Pt) -> bool {
    orient(a, b, c) == 0 && c != a && c != b && (a[0].min(b[0])..=a[0].max(b[0])).contains(&c[0]) && (a[1].min(b[1])..=a[1].max(b[1])).contains(&c[1])
}

/// A segment as the pieces between the points lying on it.
fn pieces(p: &[Pt], a: usize, b: usize) -> Vec<[usize; 2]> {
    let mut on: Vec<usize> = (0..p.len()).filter(|&k| between(p[a], p[b], p[k])).collect();
    let far = |k: usize| (p[k][0] - p[a][0]).pow(2) + (p[k][1] - p[a][1]).pow(2);
    on.sort_by_key(|&k| far(k));
    on.insert(0, a);
    on.push(b);
    on.windows(2).map(|w| [w[0].min(w[1]), w[0].max(w[1])]).collect()
}

fn crossing(p: &[Pt], s: [usize; 2], t: [usize; 2]) -> bool {
    let (a, b, c, d) = (p[s[0]], p[s[1]], p[t[0]], p[t[1]]);
    orient(a, b, c).signum() * orient(a, b, d).signum() < 0 && orient(c, d, a).signum() * orient(c, d, b).signum() < 0
}

/// Twice the area of the convex hull, and its directed edges.
fn hull(p: &[Pt]) -> i64 {
    let mut s: Vec<Pt> = p.to_vec();
    s.sort();
    s.dedup();
    if s.len() < 3 {
        return 0;
    }
    let half = |it: &mut dyn Iterator<Item = &Pt>| {
        let mut h: Vec<Pt> = vec![];
        for &q in it {
            while h.len() >= 2 && orient(h[h.len() - 2], h[h.len() - 1], q) <= 0 {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
        h
    };
    let mut h = half(&mut s.iter());
    h.extend(half(&mut s.iter().rev()));
    (0..h.len()).map(|i| { let (a, b) = (h[i], h[(i + 1) % h.len()]); a[0] * b[1] - a[1] * b[0] }).sum()
}

fn job(g: usize, large: bool) -> Job {
    let mut p: Vec<Pt> = vec![];
    let tri = chance(2);
    if tri {
        // like a face with points on and in it
        let c = g as i64;
        p = [[[0, 0], [c, 0], [0, c]], [[0, 0], [c, 0], [c / 2, c]], [[0, 0], [c, c], [0, c]]][work(3)].to_vec();
    }
    let n = match (large, tri) {
        (true, _) => 10 + work(70),
        (_, true) => work(11),
        _ => [0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 14][work(11)],
    };
    for _ in 0..n {
        let q = [work(g + 1) as i64, work(g + 1) as i64];
        let ok = !tri || (0..3).all(|k| orient(p[k], p[(k + 1) % 3], q) >= 0);
        if ok && !p.contains(&q) {
            p.push(q);
        }
    }
    let mut seg: Vec<[usize; 2]> = vec![];
    let mut laid: Vec<[usize; 2]> = vec![];
    if p.len() > 1 {
        if tri {
            seg.extend([[0, 1], [1, 2], [2, 0]]);
            laid = seg.iter().flat_map(|s| pieces(&p, s[0], s[1])).collect();
        }
        for _ in 0..work(if large { 40 } else { 8 }) {
            let (a, b) = (work(p.len()), work(p.len()));
            if a == b {
                continue;
            }
            let pc = pieces(&p, a, b);
            if pc.iter().all(|s| laid.iter().all(|t| !crossing(&p, *s, *t))) {
                laid.extend(pc);
                seg.push([a, b]);
            }
        }
    }
    Job { p, seg }
}

/// What is wrong with this triangulation, if anything.
fn wrong(j: &Job, t: &[[usize; 3]], constrained: bool) -> Option<(&'static str, String)> {
    let p = &j.p;
    let full = hull(p);
    let mut area = 0;
    let mut dir: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut used = vec![false; p.len()];
    for x in t {
        if x.iter().any(|&v| v >= p.len()) {
            return Some(("foreign", format!("triangle {x:?} uses a point that was not given ({} points)", p.len())));
        }
        let o = orient(p[x[0]], p[x[1]], p[x[2]]);
        if o <= 0 {
            return Some(("orientation", format!("triangle {x:?} has twice the area {o}")));
        }
        area += o;
        for k in 0..3 {
            used[x[k]] = true;
            if !dir.insert((x[k], x[(k + 1) % 3])) {
                return Some(("overlap", format!("edge {}->{} in two triangles", x[k], x[(k + 1) % 3])));
            }
        }
    }
    if area != full {
        return Some(("cover", format!("triangles cover {area}, the convex hull {full} (twice the area), {} points, {} triangles", p.len(), t.len())));
    }
    if full > 0 {
        if let Some(v) = used.iter().position(|u| !u) {
            return Some(("cover", format!("point {v} is in no triangle")));
        }
    }
    // an edge without partner must have no point on its outer side
    for &(a, b) in &dir {
        if !dir.contains(&(b, a)) {
            if let Some(v) = (0..p.len()).find(|&v| orient(p[a], p[b], p[v]) < 0) {
                return Some(("overlap", format!("open edge {a}->{b} inside the hull (point {v} beyond)")));
            }
        }
    }
    if constrained {
        for s in &j.seg {
            for e in pieces(p, s[0], s[1]) {
                if full > 0 && !dir.contains(&(e[0], e[1])) && !dir.contains(&(e[1], e[0])) {
                    return Some(("constraint", format!("prescribed edge {}-{} (part of {s:?}) is missing", e[0], e[1])));
                }
            }
        }
    } else {
        for x in t {
            for v in 0..p.len() {
                if !x.contains(&v) && circle(p[x[0]], p[x[1]], p[x[2]], p[v]) > 0 {
                    return Some(("circle", format!("point {v} inside the circle of {x:?}")));
                }
            }
        }
    }
    None
}

struct Plan<T> {
    jobs: Vec<Job>,
    place: Vec<(f64, [f64; 2])>,
    forms: BTreeMap<u64, Form>,
    pool: BTreeMap<u64, T>,
}

impl<T: Num> Plan<T> {
    fn at(&self, j: usize, p: Pt) -> [f64; 2] {
        let (s, o) = self.place[j];
        [0, 1].map(|k| s * (p[k] as f64 + o[k]))
    }
    fn points(&self, j: usize) -> Vec<[T; 2]> {
        self.jobs[j].p.iter().map(|p| self.at(j, *p).map(|x| self.pool.get(&x.to_bits()).cloned().unwrap_or_else(|| make(self.forms[&x.to_bits()])))).collect()
    }
    fn check(&self, j: usize, what: &str, t: Vec<[usize; 3]>, constrained: bool) {
        mark(j as u64, t.len() as u64);
        if let Some((class, e)) = wrong(&self.jobs[j], &t, constrained) {
            violated(class, format!("{} {what}, job {j}: {e}; {:?}", T::NAME, self.jobs[j]));
        }
        if t.len() > 1 {
            nontrivial();
        }
    }
    fn go(&self, kind: usize) {
        let n = self.jobs.len();
        match kind {
            0 => {
                for j in 0..n {
                    count("build.plain", 1);
                    let p = self.points(j);
                    match guarded(|| T::delaunay(&p)) {
                        Ok(t) => self.check(j, "triangulation", t, false),
                        Err(e) => violated("panic", format!("triangulating {:?}: {e}", self.jobs[j])),
                    }
                    yield_now();
                }
            }
            1 => {
                for j in 0..n {
                    count("build.constrained", 1);
                    let p = self.points(j);
                    match guarded(|| T::cdt(&p, &self.jobs[j].seg)) {
                        Ok(t) => self.check(j, "constrained triangulation", t, true),
                        Err(e) => violated("panic", format!("constrained triangulation of {:?}: {e}", self.jobs[j])),
                    }
                    yield_now();
                }
            }
            _ => {
                count("build.batch", 1);
                let p: Vec<_> = (0..n).map(|j| self.points(j)).collect();
                let s: Vec<_> = self.jobs.iter().map(|j| j.seg.clone()).collect();
                match guarded(|| T::cdt_batch(&p, &s)) {
                    Ok(r) => {
                        if r.len() != n {
                            violated("batch", format!("{n} jobs, {} results", r.len()));
                        }
                        for (j, t) in r.into_iter().enumerate() {
                            self.check(j, "batch", t, true);
                        }
                    }
                    Err(e) => violated("panic", format!("batch of {n}: {e}")),
                }
            }
        }
    }
}

fn go<T: Num>() {
    // now and then many points, or many jobs in one batch
    let large = T::NAME == "f64" && chance(40);
    let n = 1 + work(if !large && chance(24) { 16 } else { 4 });
    let jobs: Vec<Job> = (0..n).map(|_| if large { job([8, 16, 24][work(3)], true) } else { job([4, 8, 2, 6][work(4)], false) }).collect();
    let place = (0..n).map(|_| ([1.0, 0.5, 4.0, 0.25][work(4)], [0, 1].map(|_| [0.0, -4.0, 3.0, -20.0, 100.0][work(5)]))).collect();
    let mut plan = Plan::<T> { jobs, place, forms: BTreeMap::new(), pool: BTreeMap::new() };
    let plain = T::NAME == "f64" || chance(2);
    for j in 0..n {
        note(|| format!("job {j}: {} points {:?}, edges {:?}, placed {:?}", plan.jobs[j].p.len(), plan.jobs[j].p, plan.jobs[j].seg, plan.place[j]));
        for p in plan.jobs[j].p.clone() {
            for x in plan.at(j, p) {
                plan.forms.entry(x.to_bits()).or_insert_with(|| Form { bits: x.to_bits(), kind: if plain { 0 } else { work(5) }, k: work(6) });
            }
        }
    }
    if chance(2) {
        plan.pool = plan.forms.iter().map(|(k, f)| (*k, make::<T>(*f))).collect();
    }
    let threads = if chance(4) { 2 } else { 1 };
    let kinds: Vec<usize> = (0..threads + work(2)).map(|_| work(3)).collect();
    note(|| format!("{} on {threads} threads, {kinds:?}", T::NAME));
    if threads == 1 {
        for k in kinds {
            plan.go(k);
        }
        return;
    }
    sim().max_slice = [64, 4096, 65536][work(3)];
    let plan = Arc::new(plan);
    for k in kinds {
        let p = plan.clone();
        spawn(move || p.go(k));
    }
    rt::join_all();
}

pub fn c14() {
    let k = [0, 0, 0, 1, 2, 2][work(6)];
    with_num!(k, go());
}
