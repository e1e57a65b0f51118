//! Edit histories against a face list with exact positions (C10, C11) and
//! remeshing (C09).
use crate::gen_mesh::*;
use crate::inv::*;
use crate::num::*;
use crate::with_num;
use cgar::mesh::basic_types::SplitResultKind;
use cgar::mesh::edge_collapse::CollapsePlan;
use rt::{chance, count, fnv, guarded, mark, nontrivial, note, sim, spawn, violated, work};
use rug::Rational;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub type Q3 = [Rational; 3];

pub fn q3(p: [f64; 3]) -> Q3 {
    p.map(|x| Rational::from_f64(x).unwrap_or_default())
}
pub fn sub(a: &Q3, b: &Q3) -> Q3 {
    [0, 1, 2].map(|k| Rational::from(&a[k] - &b[k]))
}
pub fn dot(a: &Q3, b: &Q3) -> Rational {
    Rational::from(&a[0] * &b[0]) + Rational::from(&a[1] * &b[1]) + Rational::from(&a[2] * &b[2])
}
pub fn cross(a: &Q3, b: &Q3) -> Q3 {
    [(1, 2), (2, 0), (0, 1)].map(|(i, j)| Rational::from(&a[i] * &b[j]) - Rational::from(&a[j] * &b[i]))
}
pub fn lerp(a: &Q3, b: &Q3, num: u32, den: u32) -> Q3 {
    let t = Rational::from((num, den));
    [0, 1, 2].map(|k| Rational::from(&a[k] + Rational::from(&b[k] - &a[k]) * &t))
}

/// The reference: faces as canonical triples, positions of every vertex ever
/// made, which vertices are gone.
#[derive(Clone)]
pub struct Ref {
    pub f: BTreeSet<Tri>,
    pub p: Vec<Q3>,
    pub gone: Vec<bool>,
}

impl Ref {
    pub fn of(d: &Model) -> Ref {
        Ref { f: d.f.iter().map(|t| canon(*t)).collect(), p: d.v.iter().map(|p| q3(*p)).collect(), gone: vec![false; d.v.len()] }
    }
    pub fn faces(&self) -> Vec<Tri> {
        self.f.iter().copied().collect()
    }
    pub fn closed(&self) -> bool {
        let o = self.opp();
        o.keys().all(|(a, b)| o.contains_key(&(*b, *a)))
    }
    /// directed edge -> opposite vertex
    pub fn opp(&self) -> BTreeMap<(usize, usize), usize> {
        let mut o = BTreeMap::new();
        for t in &self.f {
            for k in 0..3 {
                o.insert((t[k], t[(k + 1) % 3]), t[(k + 2) % 3]);
            }
        }
        o
    }
    pub fn tri_area2(&self, t: &Tri) -> Rational {
        let n = cross(&sub(&self.p[t[1]], &self.p[t[0]]), &sub(&self.p[t[2]], &self.p[t[0]]));
        dot(&n, &n)
    }
    /// Clearly not a sliver, so that rounding cannot matter.
    pub fn fat(&self, t: &Tri) -> bool {
        let l = (0..3).map(|k| { let d = sub(&self.p[t[(k + 1) % 3]], &self.p[t[k]]); dot(&d, &d).to_f64() }).fold(0.0, f64::max);
        { let a = self.tri_area2(t).to_f64(); a > 1e-6 * l * l && a > 1e-6 }
    }
    /// Coordinates so short that the cross product of two edges is exact in
    /// floating point.
    pub fn short(&self, v: usize) -> bool {
        self.p[v].iter().all(|x| *x.denom() <= 1 << 12 && x.to_f64().abs() < 1024.0)
    }
    pub fn near(&self, p: &Q3) -> bool {
        self.p.iter().zip(&self.gone).any(|(q, gone)| !gone && (0..3).all(|k| Rational::from(&q[k] - &p[k]).to_f64().abs() < 3e-6))
    }
    pub fn swap(&mut self, old: &[Tri], new: &[Tri]) -> Result<(), String> {
        for t in old {
            if !self.f.remove(&canon(*t)) {
                return Err(format!("face {t:?} is not in the model"));
            }
        }
        for t in new {
            if !self.f.insert(canon(*t)) {
                return Err(format!("face {t:?} would exist twice"));
            }
        }
        Ok(())
    }
    fn collapse(&mut self, keep: usize, gone: usize, p: Q3) {
        let old: Vec<Tri> = self.f.iter().copied().filter(|t| t.contains(&gone)).collect();
        for t in old {
            self.f.remove(&t);
            if !t.contains(&keep) {
                self.f.insert(canon(t.map(|x| if x == gone { keep } else { x })));
            }
        }
        self.p[keep] = p;
        self.gone[gone] = true;
    }
    /// Tangential smoothing as documented: half the tangential part of the
    /// mean neighbour offset, border vertices fixed, a move that would make an
    /// edge longer than `max` not taken. Err if a decision is too close to call.
    fn smooth(&mut self, sweeps: usize, max: f64, exact: bool) -> Result<(), ()> {
        let opp = self.opp();
        let mut nb: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        let mut border: BTreeSet<usize> = BTreeSet::new();
        for &(a, b) in opp.keys() {
            nb.entry(a).or_default().push(b);
            if !opp.contains_key(&(b, a)) {
                border.insert(a);
                border.insert(b);
            }
        }
        let mut star: BTreeMap<usize, Vec<Tri>> = BTreeMap::new();
        for t in &self.f {
            for &v in t {
                star.entry(v).or_default().push(*t);
            }
        }
        let max2 = Rational::from_f64(max).unwrap().square();
        for _ in 0..sweeps {
            for (&v, ns) in &nb {
                if border.contains(&v) {
                    continue;
                }
                let mut d: Q3 = q3([0.0; 3]);
                for &b in ns {
                    let e = sub(&self.p[b], &self.p[v]);
                    for k in 0..3 {
                        d[k] += &e[k];
                    }
                }
                let w = Rational::from((1, ns.len() as u32));
                for k in 0..3 {
                    d[k] *= &w;
                }
                let mut n: Q3 = q3([0.0; 3]);
                let mut all = 0.0;
                for t in &star[&v] {
                    let c = cross(&sub(&self.p[t[1]], &self.p[t[0]]), &sub(&self.p[t[2]], &self.p[t[0]]));
                    for k in 0..3 {
                        n[k] += &c[k];
                    }
                    all += dot(&c, &c).to_f64().sqrt();
                }
                let nn = dot(&n, &n);
                // a normal within the tolerance counts as none, and one that nearly
                // cancels leaves the tangent plane to rounding
                if !exact && (nn.to_f64() < 1e-8 || nn.to_f64().sqrt() < 1e-4 * all) {
                    return Err(());
                }
                if nn != 0 {
                    let s = dot(&d, &n) / &nn;
                    for k in 0..3 {
                        d[k] -= Rational::from(&n[k] * &s);
                    }
                }
                let mut np: Q3 = [0, 1, 2].map(|k| Rational::from(&self.p[v][k] + Rational::from(&d[k] / 2)));
                if !exact {
                    np = q3([0, 1, 2].map(|k| np[k].to_f64()));
                }
                let mut ok = true;
                for &b in ns {
                    let e = sub(&self.p[b], &np);
                    let l = dot(&e, &e);
                    if !exact {
                        let r = Rational::from(&l / &max2).to_f64();
                        if (r - 1.0).abs() < 1e-9 {
                            return Err(());
                        }
                    }
                    if l > max2 {
                        ok = false;
                    }
                }
                if ok {
                    self.p[v] = np;
                }
            }
        }
        Ok(())
    }
}

pub struct World<T: Num> {
    pub m: M<T>,
    pub r: Ref,
    pub tree: Option<Tree<T>>,
    /// compare after every edit (otherwise only at the end, so that looking at
    /// lazy numbers does not change what is evaluated when)
    pub eager: bool,
    pub sweeps: usize,
    /// positions are still short dyadic numbers
    pub dyadic: bool,
    pub ops: u32,
}

const EXACT: fn(&'static str) -> bool = |n| n != "f64";

impl<T: Num> World<T> {
    pub fn new(d: &Model, eager: bool) -> Self {
        let m = build::<T>(d);
        World { m, r: Ref::of(d), tree: None, eager, sweeps: 0, dyadic: true, ops: 0 }
    }
    pub fn exact(&self) -> bool {
        EXACT(T::NAME)
    }
    pub fn live(&self) -> Vec<usize> {
        (0..self.m.faces.len()).filter(|&f| !self.m.faces[f].removed).collect()
    }
    pub fn live_he(&self) -> Vec<usize> {
        (0..self.m.half_edges.len()).filter(|&h| !self.m.half_edges[h].removed && self.m.half_edges[h].face.is_some()).collect()
    }
    pub fn ends(&self, h: usize) -> (usize, usize) {
        (self.m.half_edges[self.m.half_edges[h].twin].vertex, self.m.half_edges[h].vertex)
    }
    pub fn pt(&self, p: &Q3) -> P<T> {
        T::pt_of([0, 1, 2].map(|k| T::from_rat(p[k].clone())))
    }

    /// Mesh and model must agree; `what` names the edit just made.
    pub fn compare(&mut self, what: &str, deep: bool) {
        count("check.structure", 1);
        let s = match guarded(|| check(&self.m)) {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => violated("structure", format!("after {what}: {e}")),
            Err(e) => violated("structure", format!("after {what}: mesh cannot be walked: {e}")),
        };
        let got = face_set(&self.m).unwrap_or_default();
        let want = self.r.faces();
        if got != want {
            let g: BTreeSet<_> = got.iter().collect();
            let w: BTreeSet<_> = want.iter().collect();
            let extra: Vec<_> = g.difference(&w).take(4).collect();
            let lost: Vec<_> = w.difference(&g).take(4).collect();
            violated("faces", format!("after {what}: {} faces, model has {}; extra {extra:?}, missing {lost:?}", got.len(), want.len()));
        }
        if s.0 != want.len() {
            violated("faces", format!("after {what}: a face is stored twice"));
        }
        if self.m.vertices.len() != self.r.p.len() {
            violated("vertices", format!("after {what}: {} vertices, model has {}", self.m.vertices.len(), self.r.p.len()));
        }
        for v in 0..self.r.p.len() {
            if self.m.vertices[v].removed && !self.r.gone[v] {
                violated("vertices", format!("after {what}: vertex {v} is marked removed"));
            }
        }
        if !deep {
            return;
        }
        for v in 0..self.r.p.len() {
            if self.r.gone[v] {
                continue;
            }
            let c = self.m.vertices[v].position.clone();
            for k in 0..3 {
                let g = T::coord(&c, k).rat();
                let w = &self.r.p[v][k];
                let ok = if self.exact() { g == *w } else { let (a, b) = (g.to_f64(), w.to_f64()); (a - b).abs() <= 1e-9 * (1.0 + b.abs()) };
                if !ok {
                    violated("position", format!("after {what}: vertex {v} coordinate {k} is {}, model {}", g.to_f64(), w.to_f64()));
                }
                if !self.exact() {
                    self.r.p[v][k] = g;
                }
            }
        }
    }

    pub fn after(&mut self, what: &str, touched: &[usize]) {
        self.ops += 1;
        mark(fnv(what.as_bytes()), touched.iter().fold(self.r.f.len() as u64, |h, x| h * 31 + *x as u64));
        note(|| format!("{what} {touched:?} -> {} faces", self.r.f.len()));
        // f64 positions are adopted after the comparison, so compare each time
        let deep = self.eager || !self.exact();
        self.compare(what, deep);
        if self.r.f.len() < 20_000 {
            let h = self.r.f.iter().fold(7u64, |h, t| (h ^ ((t[0] as u64) << 40 | (t[1] as u64) << 20 | t[2] as u64)).wrapping_mul(0x100000001b3));
            rt::state(h);
        }
    }

    /// A refused edit must leave everything as it was.
    pub fn refused(&mut self, what: &str) {
        count("op.refused", 1);
        self.after(&format!("refused {what}"), &[]);
    }

    pub fn call<R>(&mut self, what: &str, f: impl FnOnce(&mut Self) -> R) -> R {
        match guarded(|| f(self)) {
            Ok(r) => r,
            Err(e) => violated("panic", format!("{what}: {e}")),
        }
    }

    pub fn step(&mut self) {
        let k = work(14);
        self.step_kind(k)
    }

    pub fn step_kind(&mut self, k: usize) {
        match k {
            0 | 1 => self.flip(),
            2 | 3 => self.collapse(),
            4 | 5 => self.split_edge(),
            6 | 7 => self.split_face(),
            8 => self.remove(false),
            9 => self.remove(true),
            10 => self.add(),
            11 => self.smooth(),
            12 => self.cleanup(),
            _ => self.bad(),
        }
    }

    pub fn flip(&mut self) {
        let h = self.live_he();
        if h.is_empty() {
            return;
        }
        let h = h[work(h.len())];
        let (a, b) = self.ends(h);
        let opp = self.r.opp();
        let r = self.call("flip_edge", |w| T::flip(&mut w.m, h));
        count("op.flip", 1);
        match r {
            Ok(()) => {
                let (Some(&c), Some(&d)) = (opp.get(&(a, b)), opp.get(&(b, a))) else { violated("border-flip", format!("flip of border edge {a}-{b} succeeded")) };
                if (self.exact() || self.dyadic && [a, b, c, d].iter().all(|&v| self.r.short(v))) && [[a, d, c], [b, c, d]].iter().any(|t| self.r.tri_area2(t) == 0) {
                    violated("flat-flip", format!("flip of edge {a}-{b} made a face without area"));
                }
                if let Err(e) = self.r.swap(&[[a, b, c], [b, a, d]], &[[a, d, c], [b, c, d]]) {
                    violated("faces", format!("flip {a}-{b}: {e}"));
                }
                self.after("flip", &[a, b]);
            }
            Err(e) => {
                if let (Some(&c), Some(&d)) = (opp.get(&(a, b)), opp.get(&(b, a))) {
                    let free = c != d && !opp.contains_key(&(c, d)) && !opp.contains_key(&(d, c));
                    if free && self.r.fat(&[a, d, c]) && self.r.fat(&[b, c, d]) {
                        violated("needless", format!("flip of edge {a}-{b} refused: {e}"));
                    }
                }
                self.refused("flip")
            }
        }
    }

    pub fn collapse(&mut self) {
        let h = self.live_he();
        if h.is_empty() {
            return;
        }
        let h = h[work(h.len())];
        let (mut u, mut v) = self.ends(h);
        if work(2) == 1 {
            (u, v) = (v, u);
        }
        count("op.collapse", 1);
        match self.call("collapse_edge", |w| T::collapse(&mut w.m, u, v)) {
            Ok(()) => {
                let p = lerp(&self.r.p[u], &self.r.p[v], 1, 2);
                self.r.collapse(u, v, p);
                self.after("collapse", &[u, v]);
            }
            Err(_) => self.refused("collapse"),
        }
    }

    /// Trees are optional for the caller: a throwaway one unless kept.
    pub fn with_tree<R>(&mut self, f: impl FnOnce(&mut M<T>, &mut Tree<T>, bool) -> R) -> R {
        match self.tree.take() {
            Some(mut t) => {
                let r = f(&mut self.m, &mut t, true);
                self.tree = Some(t);
                r
            }
            None => {
                let mut t = T::tree(&self.m);
                f(&mut self.m, &mut t, false)
            }
        }
    }

    pub fn edge_split_model(&mut self, a: usize, b: usize, w: usize) {
        let opp = self.r.opp();
        let (mut old, mut new) = (vec![], vec![]);
        for (x, y) in [(a, b), (b, a)] {
            if let Some(&c) = opp.get(&(x, y)) {
                old.push([x, y, c]);
                new.extend([[x, w, c], [w, y, c]]);
            }
        }
        if let Err(e) = self.r.swap(&old, &new) {
            violated("faces", format!("split of edge {a}-{b} at vertex {w}: {e}"));
        }
    }

    pub fn new_vertex(&mut self, w: usize, p: &Q3) {
        if w != self.r.p.len() {
            violated("vertices", format!("split made vertex {w}, expected {}", self.r.p.len()));
        }
        self.r.p.push(p.clone());
        self.r.gone.push(false);
    }

    pub fn split_edge(&mut self) {
        let h = self.live_he();
        if h.is_empty() || self.r.f.len() > 400 {
            return;
        }
        let h = h[work(h.len())];
        let (a, b) = self.ends(h);
        let (n, d) = [(1, 2), (1, 4), (3, 4), (3, 8)][work(4)];
        let mut p = lerp(&self.r.p[a], &self.r.p[b], n, d);
        if !self.exact() {
            p = q3([0, 1, 2].map(|k| p[k].to_f64()));
        }
        let l = sub(&self.r.p[a], &self.r.p[b]);
        if dot(&l, &l).to_f64() < 1e-6 {
            return;
        }
        count("op.split_edge", 1);
        let pos = self.pt(&p);
        let near = self.r.near(&p);
        match self.call("split_edge", |w| w.with_tree(|m, t, u| T::split_edge(m, t, h, &pos, u))) {
            Ok(r) => {
                if r.kind == SplitResultKind::NoSplit {
                    if !near {
                        violated("split", format!("split of edge {a}-{b} found an existing vertex where there is none"));
                    }
                    return self.refused("split_edge");
                }
                self.new_vertex(r.vertex, &p);
                self.edge_split_model(a, b, r.vertex);
                self.after("split_edge", &[a, b]);
            }
            Err(e) => {
                let opp = self.r.opp();
                if !near && [(a, b), (b, a)].iter().all(|x| opp.get(x).is_none_or(|&c| self.r.fat(&[a, b, c]))) {
                    violated("needless", format!("split of edge {a}-{b} refused: {e}"));
                }
                self.refused("split_edge")
            }
        }
    }

    pub fn split_face(&mut self) {
        let fs = self.live();
        if fs.is_empty() || self.r.f.len() > 400 {
            return;
        }
        let f = fs[work(fs.len())];
        let Ok(t) = face_tri(&self.m, f) else { violated("structure", format!("face {f} is not a triangle")) };
        if !self.r.fat(&t) {
            return;
        }
        // barycentric weights out of 8; a zero puts the point on an edge
        let w = [[2, 3, 3], [1, 1, 6], [4, 2, 2], [3, 1, 4], [4, 4, 0], [0, 2, 6], [6, 0, 2]][work(7)];
        let mut p: Q3 = [0, 1, 2].map(|k| (0..3).map(|i| Rational::from(&self.r.p[t[i]][k] * Rational::from((w[i], 8)))).sum());
        let on_edge = (0..3).find(|&i| w[i] == 0);
        if !self.exact() {
            let r = q3([0, 1, 2].map(|k| p[k].to_f64()));
            if r != p && on_edge.is_some() {
                return;
            }
            p = r;
        }
        if on_edge.is_some() && !self.exact() && !self.dyadic {
            return;
        }
        count("op.split_face", 1);
        let pos = self.pt(&p);
        let near = self.r.near(&p);
        match self.call("split_face", |w| w.with_tree(|m, t, u| T::split_face(m, t, f, &pos, u))) {
            Ok(r) => match r.kind {
                SplitResultKind::NoSplit => {
                    if !near {
                        violated("split", format!("split of face {t:?} found an existing vertex where there is none"));
                    }
                    self.refused("split_face")
                }
                SplitResultKind::SplitFace => {
                    if on_edge.is_some() {
                        violated("split", format!("face {t:?} split in three at a point on its edge"));
                    }
                    self.new_vertex(r.vertex, &p);
                    let w = r.vertex;
                    if let Err(e) = self.r.swap(&[t], &[[t[0], t[1], w], [t[1], t[2], w], [t[2], t[0], w]]) {
                        violated("faces", format!("split of face {t:?}: {e}"));
                    }
                    self.after("split_face", &[t[0], t[1], t[2]]);
                }
                SplitResultKind::SplitEdge => {
                    let Some(i) = on_edge else { violated("split", format!("inner point of face {t:?} split an edge instead")) };
                    self.new_vertex(r.vertex, &p);
                    let (a, b) = (t[(i + 1) % 3], t[(i + 2) % 3]);
                    self.edge_split_model(a, b, r.vertex);
                    self.after("split_face at edge", &[a, b]);
                }
            },
            Err(e) => {
                if !near && on_edge.is_none() {
                    violated("needless", format!("split of face {t:?} refused: {e}"));
                }
                self.refused("split_face")
            }
        }
    }

    pub fn remove(&mut self, batch: bool) {
        let fs = self.live();
        if fs.is_empty() {
            return;
        }
        let n = if batch { 1 + work(5) } else { 1 };
        let mut pick: Vec<usize> = vec![];
        let mut rest = self.r.f.clone();
        let mut at = work(fs.len());
        for _ in 0..n {
            let f = fs[at];
            if !pick.contains(&f) {
                let t = canon(face_tri(&self.m, f).unwrap_or_default());
                let mut r2 = rest.clone();
                r2.remove(&t);
                if manifold(&r2.iter().copied().collect::<Vec<_>>()) {
                    rest = r2;
                    pick.push(f);
                }
            }
            // a neighbour in storage order or anywhere
            at = if chance(3) { work(fs.len()) } else { (at + 1) % fs.len() };
        }
        if pick.is_empty() {
            return;
        }
        if batch {
            if chance(3) {
                pick.push(pick[0]);
            }
            count("op.remove_batch", 1);
            self.call("remove_triangles_deferred", |w| T::remove_tris(&mut w.m, &pick));
        } else {
            count("op.remove", 1);
            self.call("remove_triangle", |w| T::remove_tri(&mut w.m, pick[0]));
        }
        self.r.f = rest;
        self.after(if batch { "batch removal" } else { "removal" }, &pick);
    }

    /// New triangles on existing borders or free-standing, singly or as batch.
    pub fn add(&mut self) {
        let opp = self.r.opp();
        let border: Vec<(usize, usize)> = opp.keys().filter(|(a, b)| !opp.contains_key(&(*b, *a))).map(|&(a, b)| (b, a)).collect();
        let batch = work(3) == 2;
        let mut rest = self.r.f.clone();
        let mut new: Vec<Tri> = vec![];
        let mut nv: Vec<Q3> = vec![];
        for _ in 0..1 + work(if batch { 4 } else { 1 }) {
            let base = self.r.p.len();
            let fresh = |nv: &mut Vec<Q3>, p: Q3| {
                nv.push(p);
                base + nv.len() - 1
            };
            let t: Tri = match work(3) {
                // close a wedge between two consecutive border edges
                0 if !border.is_empty() => {
                    let (a, b) = border[work(border.len())];
                    let Some(&(_, c)) = border.iter().find(|e| e.0 == b) else { continue };
                    [a, b, c]
                }
                // a new tip on a border edge
                1 if !border.is_empty() => {
                    let (a, b) = border[work(border.len())];
                    let mid = lerp(&self.r.p[a], &self.r.p[b], 1, 2);
                    let up = q3([0.25 * (1 + work(3)) as f64, 0.5, 1.25 - 0.5 * work(2) as f64]);
                    let mut p: Q3 = [0, 1, 2].map(|k| Rational::from(&mid[k] + &up[k]));
                    if !self.exact() {
                        p = q3([0, 1, 2].map(|k| p[k].to_f64()));
                    }
                    [a, b, fresh(&mut nv, p)]
                }
                _ => {
                    let o = 100.0 + 2.0 * (self.ops as f64) + work(8) as f64 * 0.125 + nv.len() as f64 * 16.0;
                    let a = fresh(&mut nv, q3([o, 0.0, 0.0]));
                    let b = fresh(&mut nv, q3([o + 1.0, 0.0, 0.5]));
                    let c = fresh(&mut nv, q3([o, 1.0, 0.0]));
                    [a, b, c]
                }
            };
            if t[0] == t[1] || t[1] == t[2] || t[2] == t[0] {
                continue;
            }
            let pos = |i: usize| if i < base { self.r.p[i].clone() } else { nv[i - base].clone() };
            let n = cross(&sub(&pos(t[1]), &pos(t[0])), &sub(&pos(t[2]), &pos(t[0])));
            if dot(&n, &n).to_f64() < 1e-4 {
                continue;
            }
            let mut r2 = rest.clone();
            if !r2.insert(canon(t)) || !manifold(&r2.iter().copied().collect::<Vec<_>>()) {
                continue;
            }
            rest = r2;
            new.push(t);
        }
        if new.is_empty() && nv.is_empty() {
            return;
        }
        for p in &nv {
            let pos = self.pt(p);
            let i = self.call("add_vertex", |w| T::add_vertex_pt(&mut w.m, pos));
            if i != self.r.p.len() {
                violated("vertices", format!("add_vertex returned {i}, expected {}", self.r.p.len()));
            }
            self.r.p.push(p.clone());
            self.r.gone.push(false);
        }
        if batch {
            let l: Vec<_> = new.iter().map(|t| (t[0], t[1], t[2])).collect();
            count("op.add_batch", 1);
            self.call("add_triangles_deferred", |w| T::add_tris(&mut w.m, &l));
        } else {
            for t in &new {
                count("op.add", 1);
                let f = self.call("add_triangle", |w| T::add_tri(&mut w.m, *t));
                if f >= self.m.faces.len() || face_tri(&self.m, f).map(canon) != Ok(canon(*t)) {
                    violated("faces", format!("add_triangle {t:?} returned face {f}, which is something else"));
                }
            }
        }
        self.r.f = rest;
        let t: Vec<usize> = new.iter().flatten().copied().collect();
        self.after(if batch { "batch add" } else { "add" }, &t);
    }

    pub fn smooth(&mut self) {
        // exact coordinates multiply in length with every smoothed vertex
        let opp = self.r.opp();
        let rim: BTreeSet<usize> = opp.keys().filter(|(a, b)| !opp.contains_key(&(*b, *a))).flat_map(|&(a, b)| [a, b]).collect();
        let inner = self.r.f.iter().flatten().filter(|v| !rim.contains(v)).collect::<BTreeSet<_>>().len();
        let n = 1 + work(2);
        if self.exact() && (n + self.sweeps) * inner > 3 {
            return;
        }
        let max = [0.7, 1.1, 1.6, 100.0][work(4)];
        let mut r2 = self.r.clone();
        if r2.smooth(n, max, self.exact()).is_err() {
            return;
        }
        self.sweeps += n;
        self.dyadic = false;
        count("op.smooth", 1);
        self.call("smooth_vertices", |w| T::smooth(&mut w.m, n, max));
        self.r = r2;
        self.after("smooth", &[n]);
    }

    pub fn cleanup(&mut self) {
        if self.tree.is_some() {
            return;
        }
        if work(2) == 0 {
            count("op.cleanup_faces", 1);
            self.call("remove_invalidated_faces", |w| T::cleanup_faces(&mut w.m));
            if self.m.faces.len() != self.r.f.len() {
                violated("faces", format!("remove_invalidated_faces left {} slots for {} faces", self.m.faces.len(), self.r.f.len()));
            }
            self.after("remove_invalidated_faces", &[]);
            return;
        }
        count("op.cleanup_verts", 1);
        self.call("remove_unused_vertices", |w| T::cleanup_verts(&mut w.m));
        // the vertices are renumbered, in order
        let used: BTreeSet<usize> = self.r.f.iter().flatten().copied().collect();
        let map: BTreeMap<usize, usize> = used.iter().enumerate().map(|(i, &v)| (v, i)).collect();
        self.r.p = used.iter().map(|&v| self.r.p[v].clone()).collect();
        self.r.gone = vec![false; self.r.p.len()];
        self.r.f = self.r.f.iter().map(|t| canon(t.map(|v| map[&v]))).collect();
        self.after("remove_unused_vertices", &[]);
    }

    /// Requests that must be refused.
    pub fn bad(&mut self) {
        let opp = self.r.opp();
        let nv = self.r.p.len();
        count("op.bad", 1);
        match work(5) {
            0 => {
                // vertices that are not joined by an edge
                if nv == 0 {
                    return;
                }
                let (a, b) = (work(nv), work(nv));
                if opp.contains_key(&(a, b)) || opp.contains_key(&(b, a)) {
                    return;
                }
                if self.call("collapse_edge", |w| T::collapse(&mut w.m, a, b)).is_ok() {
                    violated("bad-edit", format!("collapse of {a} and {b}, which share no edge, succeeded"));
                }
                self.refused("collapse of strangers");
            }
            1 => {
                // border half-edge, either side
                let b: Vec<(usize, usize)> = opp.keys().filter(|(a, b)| !opp.contains_key(&(*b, *a))).copied().collect();
                if b.is_empty() {
                    return;
                }
                let (x, y) = b[work(b.len())];
                let k = if work(2) == 0 { (x, y) } else { (y, x) };
                let Some(&h) = self.m.edge_map.get(&k) else { violated("structure", format!("edge {k:?} has no half-edge")) };
                if self.call("flip_edge", |w| T::flip(&mut w.m, h)).is_ok() {
                    violated("border-flip", format!("flip of border edge {x}-{y} succeeded"));
                }
                self.refused("flip of border");
            }
            2 => {
                // a half-edge that was removed earlier
                let gone: Vec<usize> = (0..self.m.half_edges.len()).filter(|&h| self.m.half_edges[h].removed).collect();
                if gone.is_empty() {
                    return;
                }
                let h = gone[work(gone.len())];
                if self.call("flip_edge", |w| T::flip(&mut w.m, h)).is_ok() {
                    violated("bad-edit", format!("flip of removed half-edge {h} succeeded"));
                }
                self.refused("flip of removed");
            }
            3 => {
                // both directions of every edge are taken
                let full: Vec<Tri> = self.r.f.iter().copied().filter(|t| (0..3).all(|k| opp.contains_key(&(t[(k + 1) % 3], t[k])))).collect();
                if full.is_empty() {
                    return;
                }
                let mut t = full[work(full.len())];
                if work(2) == 1 {
                    t.swap(1, 2);
                }
                self.call("add_triangle", |w| T::add_tri(&mut w.m, t));
                self.refused("add of a taken triangle");
            }
            _ => {
                // a vertex that was collapsed away
                let gone: Vec<usize> = (0..nv).filter(|&v| self.r.gone[v]).collect();
                if gone.is_empty() {
                    return;
                }
                let g = gone[work(gone.len())];
                let o = work(nv);
                let (a, b) = if work(2) == 0 { (g, o) } else { (o, g) };
                if self.call("collapse_edge", |w| T::collapse(&mut w.m, a, b)).is_ok() {
                    violated("bad-edit", format!("collapse with removed vertex {g} succeeded"));
                }
                self.refused("collapse of removed");
            }
        }
    }
}

pub fn start(big: bool) -> Model {
    let mut d = any(big);
    let n = work(3);
    punch(&mut d, n);
    d
}

fn hist<T: Num>() {
    let exact = T::NAME != "f64";
    let d = start(!exact && chance(6));
    let mut w = World::<T>::new(&d, work(2) == 0);
    w.compare("construction", true);
    let n = 1 + work(if exact { 20 } else if chance(30) { 160 } else { 48 });
    if chance(4) {
        // one kind of edit dominates
        let k = work(14);
        for _ in 0..n {
            if work(4) < 3 { w.step_kind(k) } else { w.step() }
        }
    } else {
        for _ in 0..n {
            w.step();
        }
    }
    w.compare("the history", true);
    if w.ops >= 2 {
        nontrivial();
    }
    mark(0xC10, w.ops as u64);
}

pub fn c10() {
    let k = [0, 0, 0, 1, 2][work(5)];
    with_num!(k, hist());
}

// ---- C11 ----

struct Held<T: Num> {
    plan: CollapsePlan<T, 3>,
    keep: usize,
    gone: usize,
    p: Q3,
    age: u32,
}

const BOOM: &str = "placement callback failed";

fn editor<T: Num>(w: &Mutex<World<T>>, steps: usize) {
    let lock = || w.lock().unwrap_or_else(|e| e.into_inner());
    let mut held: Vec<Held<T>> = vec![];
    for _ in 0..steps {
        let mut g = lock();
        match work(5) {
            0 | 1 => {
                // plan a collapse; half of the time of a currently valid edge
                let h = g.live_he();
                if h.is_empty() {
                    continue;
                }
                let (a, b) = g.ends(h[work(h.len())]);
                let (n, den) = [(1, 2), (0, 2), (2, 2), (1, 4)][work(4)];
                let boom = chance(6);
                let pl = move |x: [f64; 3], y: [f64; 3]| {
                    if boom {
                        panic!("{BOOM}");
                    }
                    [0, 1, 2].map(|k| x[k] + (y[k] - x[k]) * (n as f64 / den as f64))
                };
                count("op.plan", 1);
                match guarded(|| T::plan(&g.m, a, b, &pl)) {
                    Ok(Ok(plan)) => {
                        if plan.v_keep != a || plan.v_gone != b {
                            violated("plan", format!("plan for {a}<-{b} names {}<-{}", plan.v_keep, plan.v_gone));
                        }
                        let p = q3(T::xyz(&plan.p_star));
                        note(|| format!("plan {a}<-{b}"));
                        mark(0x711, (a as u64) << 32 | b as u64);
                        held.push(Held { plan, keep: a, gone: b, p, age: g.ops });
                        g.compare("planning", false);
                    }
                    Ok(Err(_)) => g.refused("plan"),
                    Err(e) if e.contains(BOOM) => {
                        count("fault.callback_panic", 1);
                        g.refused("failed plan");
                    }
                    Err(e) => violated("panic", format!("planning a collapse: {e}")),
                }
                if chance(3) {
                    // carry on holding the lock: commit at once
                    commit(&mut g, &mut held);
                }
            }
            2 | 3 => commit(&mut g, &mut held),
            _ => {
                // renumbering would make every held plan meaningless by design
                let k = work(12);
                g.step_kind(k);
            }
        }
        drop(g);
        if chance(2) {
            rt::yield_now();
        }
    }
}

fn commit<T: Num>(g: &mut World<T>, held: &mut Vec<Held<T>>) {
    if held.is_empty() {
        return;
    }
    let Held { plan, keep, gone, p, age } = held.swap_remove(work(held.len()));
    let late = g.ops - age;
    if late > 0 {
        count("op.commit_late", 1);
        nontrivial();
    } else {
        count("op.commit", 1);
    }
    let adj = g.r.f.iter().any(|t| t.contains(&keep) && t.contains(&gone));
    match g.call("collapse_edge_commit", |w| T::commit(&mut w.m, plan)) {
        Ok(()) => {
            if !adj {
                violated("stale-commit", format!("plan {keep}<-{gone} committed though the edge is gone"));
            }
            g.r.collapse(keep, gone, p);
            g.after("commit", &[keep, gone]);
        }
        Err(_) => {
            count("op.commit_refused", 1);
            g.refused("commit");
        }
    }
}

fn plans<T: Num>() {
    let d = start(T::NAME == "f64" && chance(12));
    let mut w = World::<T>::new(&d, true);
    w.compare("construction", true);
    let w = Arc::new(Mutex::new(w));
    let ed = 1 + work(3);
    let n = 4 + work(if T::NAME == "f64" { 24 } else { 10 });
    if ed == 1 {
        editor(&w, n);
    } else {
        sim().max_slice = [1 << 10, 1 << 13, 1 << 18][work(3)];
        for _ in 0..ed {
            let w = w.clone();
            spawn(move || editor(&w, n));
        }
        rt::join_all();
    }
    w.lock().unwrap_or_else(|e| e.into_inner()).compare("the history", true);
}

pub fn c11() {
    let k = [0, 0, 0, 1, 2][work(5)];
    with_num!(k, plans());
}

// ---- C09 ----

/// What remeshing must keep: components with their Euler number and border loops.
fn shape<T: Num>(m: &M<T>, what: &str) -> Vec<(i64, usize)> {
    if let Err(e) = check(m) {
        violated("structure", format!("{what}: {e}"));
    }
    let fs = face_set(m).unwrap_or_default();
    if !manifold(&fs) {
        violated("structure", format!("{what}: faces are not a manifold"));
    }
    topo(&fs)
}

/// (Euler number, border loops) of each component, sorted.
pub fn topo(fs: &[Tri]) -> Vec<(i64, usize)> {
    let mut id: BTreeMap<usize, usize> = BTreeMap::new();
    fn find(id: &mut BTreeMap<usize, usize>, x: usize) -> usize {
        let mut r = x;
        while let Some(&p) = id.get(&r) {
            if p == r {
                break;
            }
            r = p;
        }
        id.insert(x, r);
        r
    }
    let mut dir = BTreeSet::new();
    for t in fs {
        for k in 0..3 {
            for x in [t[k], t[(k + 1) % 3]] {
                id.entry(x).or_insert(x);
            }
            let (a, b) = (find(&mut id, t[k]), find(&mut id, t[(k + 1) % 3]));
            id.insert(a, b);
            dir.insert((t[k], t[(k + 1) % 3]));
        }
    }
    let mut chi: BTreeMap<usize, (i64, usize)> = BTreeMap::new();
    let vs: Vec<usize> = id.keys().copied().collect();
    for v in vs {
        let r = find(&mut id, v);
        chi.entry(r).or_default().0 += 1;
    }
    for t in fs {
        let r = find(&mut id, t[0]);
        chi.entry(r).or_default().0 += 1;
    }
    let mut next: BTreeMap<usize, usize> = BTreeMap::new();
    for &(a, b) in &dir {
        let r = find(&mut id, a);
        let rev = dir.contains(&(b, a));
        if !rev || a < b {
            chi.entry(r).or_default().0 -= 1;
        }
        if !rev {
            next.insert(b, a);
        }
    }
    while let Some((&s, _)) = next.iter().next() {
        let r = find(&mut id, s);
        let mut c = s;
        while let Some(n) = next.remove(&c) {
            c = n;
        }
        chi.entry(r).or_default().1 += 1;
    }
    let mut o: Vec<_> = chi.into_values().collect();
    o.sort();
    o
}

fn remesh_one<T: Num>() {
    let exact = T::NAME != "f64";
    let mut d = match work(if exact { 4 } else { 7 }) {
        0 => sphere(work(2)),
        1 => grid(2 + work(3), 2 + work(3)),
        2 => cuboid([0.0; 3], [1.0 + work(2) as f64, 1.0, 1.0 + work(2) as f64]),
        3 => torus(3 + work(3), 3 + work(3)),
        4 => tube(4 + work(4), 2 + work(3)),
        5 => spindle(5 + work(20)),
        _ => sphere(2),
    };
    if chance(3) {
        punch(&mut d, 2);
    }
    let mut m = build::<T>(&d);
    let want = shape(&m, "start");
    let avg = T::avg_edge(&m);
    let rounds = 1 + work(if exact { 1 } else { 4 });
    for r in 0..rounds {
        let s = [1.0, 0.7, 1.5, 0.5, 2.0, 1.2][work(if exact { 3 } else { 6 })];
        let it = 1 + work(if exact { 1 } else { 3 });
        count("op.remesh", 1);
        note(|| format!("remesh target {} x average, {it} iterations, {} faces", s, m.faces.iter().filter(|f| !f.removed).count()));
        match guarded(|| T::remesh(&mut m, avg * s, it)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                count("op.remesh_err", 1);
                note(|| format!("refused: {e}"));
            }
            Err(e) => violated("panic", format!("remesh round {r}: {e}")),
        }
        let got = shape(&m, &format!("after remesh round {r}"));
        if got != want {
            violated("topology", format!("remesh round {r}: (Euler number, borders) per component {got:?}, before {want:?}"));
        }
        let live: Vec<Tri> = face_set(&m).unwrap_or_default();
        for t in &live {
            let p = t.map(|v| T::xyz(&m.vertices[v].position));
            if p.iter().flatten().any(|x| !x.is_finite()) {
                violated("degenerate", format!("remesh round {r}: face {t:?} has a non-finite coordinate"));
            }
        }
        mark(live.len() as u64, r as u64);
        rt::state(fnv(format!("{live:?}").as_bytes()));
        nontrivial();
        if live.len() > 1500 {
            break;
        }
    }
}

pub fn c09() {
    // exact coordinates grow without bound under smoothing: f64 only
    remesh_one::<cgar::numeric::cgar_f64::CgarF64>();
}
