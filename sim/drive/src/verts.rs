//! Vertex lookup by position and merging of coincident vertices (C15).
use crate::edit::{q3, Q3};
use crate::gen_mesh::*;
use crate::inv::*;
use crate::num::*;
use crate::readers::{make, Form};
use crate::with_num;
use rt::{chance, count, guarded, mark, nontrivial, note, violated, work};
use rug::Rational;
use std::collections::{BTreeMap, BTreeSet};

const CELL: f64 = 0.9e-6;

/// Where the coordinates of a model lie: as they are, on a coarse grid far
/// from the origin, or on multiples of a tiny step where grid cells meet.
fn place(v: [f64; 3], kind: usize, off: f64) -> [f64; 3] {
    v.map(|x| {
        let y = x * 2.0 + off;
        match kind {
            0 => y,
            1 => (y / CELL).round() * CELL,
            2 => y / 3.0,
            _ => (y * 1e6).round() * 1e-6,
        }
    })
}

fn point<T: Num>(p: [f64; 3]) -> P<T> {
    T::pt_of(p.map(|x| make::<T>(Form { bits: x.to_bits(), kind: work(5), k: work(8) })))
}

fn where_is<T: Num>(m: &M<T>, v: usize) -> Q3 {
    [0, 1, 2].map(|k| T::coord(&m.vertices[v].position, k).rat())
}

/// Faces as corner positions, rotation-normalised.
fn corners<T: Num>(m: &M<T>) -> Result<Vec<[Q3; 3]>, String> {
    let mut out = vec![];
    for f in 0..m.faces.len() {
        if m.faces[f].removed {
            continue;
        }
        let t = face_tri(m, f)?;
        out.push(spin(t.map(|v| where_is(m, v))));
    }
    out.sort();
    Ok(out)
}

fn spin(t: [Q3; 3]) -> [Q3; 3] {
    let [a, b, c] = t;
    if a <= b && a <= c {
        [a, b, c]
    } else if b <= a && b <= c {
        [b, c, a]
    } else {
        [c, a, b]
    }
}

/// Too close to tell apart safely.
fn close(a: &Q3, b: &Q3) -> bool {
    (0..3).all(|k| Rational::from(&a[k] - &b[k]).to_f64().abs() < 3.5e-6)
}

struct Soup<T: Num> {
    m: M<T>,
    /// position of every vertex of the mesh, dead ones marked by None
    at: Vec<Option<Q3>>,
    faces: Vec<[Q3; 3]>,
    /// positions that vertices have left
    left: Vec<Q3>,
}

impl<T: Num> Soup<T> {
    fn lookup(&mut self, p: [f64; 3]) {
        let q = q3(p);
        let pt = point::<T>(p);
        let n = self.m.vertices.len();
        let known = self.at.iter().any(|x| x.as_ref() == Some(&q));
        note(|| format!("look up {p:?}, present: {known}"));
        let r = guarded(|| T::get_or_insert(&mut self.m, &pt));
        let (v, old) = match r {
            Ok(r) => r,
            Err(e) => violated("panic", format!("looking up {p:?}: {e}")),
        };
        count(if known { "lookup.present" } else { "lookup.absent" }, 1);
        mark(known as u64, v as u64);
        if known {
            if !old || v >= n || self.at[v].as_ref() != Some(&q) || self.m.vertices.len() != n {
                violated("lookup", format!("{}: looking up {p:?}, which is there, gave vertex {v} (existing: {old}) of {n}", T::NAME));
            }
        } else {
            if old || v != n || self.m.vertices.len() != n + 1 || where_is(&self.m, v) != q {
                violated("lookup", format!("{}: looking up {p:?}, which is not there, gave vertex {v} (existing: {old}) of {n}", T::NAME));
            }
            self.at.push(Some(q));
        }
    }

    fn some_known(&self) -> Option<[f64; 3]> {
        let live: Vec<&Q3> = if !self.left.is_empty() && chance(2) { self.left.iter().collect() } else { self.at.iter().flatten().collect() };
        if live.is_empty() {
            return None;
        }
        Some(live[work(live.len())].clone().map(|x| x.to_f64()))
    }

    fn lookups(&mut self, n: usize) {
        for _ in 0..n {
            let Some(mut p) = self.some_known() else { return };
            if chance(2) {
                // off by a little more than the merge distance, or by a lot
                p[work(3)] += [3.814697265625e-6, -3.814697265625e-6, 6.103515625e-5, 0.0078125, -0.5][work(5)];
            }
            let q = q3(p);
            if self.at.iter().flatten().any(|a| *a != q && close(a, &q)) {
                continue;
            }
            self.lookup(p);
        }
    }

    /// Loose vertices, mostly where others already are.
    fn copies(&mut self, n: usize) {
        for _ in 0..n {
            if let Some(p) = self.some_known() {
                let q = q3(p);
                if self.at.iter().flatten().any(|a| *a != q && close(a, &q)) {
                    continue;
                }
                T::add_vertex_pt(&mut self.m, point::<T>(p));
                self.at.push(Some(q3(p)));
            }
        }
    }

    /// One more surface, torn into pieces that do not share vertices.
    fn tear(&mut self, d: &Model, kind: usize, off: f64) {
        let parts = [1, 2, 3, 7, d.f.len().max(1)][work(5)];
        let mut part: Vec<usize> = d.f.iter().map(|_| work(parts)).collect();
        if parts == d.f.len() {
            part = (0..d.f.len()).collect();
        }
        let split = |part: &[usize]| {
            let mut ids: BTreeMap<(usize, usize), usize> = BTreeMap::new();
            let mut from = vec![];
            let f: Vec<Tri> = d.f.iter().zip(part).map(|(t, &g)| {
                t.map(|v| {
                    let n = ids.len();
                    *ids.entry((g, v)).or_insert_with(|| {
                        from.push(v);
                        n
                    })
                })
            }).collect();
            (f, from)
        };
        let (mut f, mut from) = split(&part);
        if !manifold(&f) {
            (f, from) = split(&(0..d.f.len()).collect::<Vec<_>>());
        }
        let weld = chance(8);
        let mut id = vec![];
        for &v in &from {
            let p = place(d.v[v], kind, off);
            if weld {
                self.lookup(p);
                let q = q3(p);
                id.push(self.at.iter().position(|x| x.as_ref() == Some(&q)).unwrap_or(0));
            } else {
                id.push(T::add_vertex_pt(&mut self.m, point::<T>(p)));
                self.at.push(Some(q3(p)));
            }
        }
        let f: Vec<Tri> = f.iter().map(|t| t.map(|v| id[v])).collect();
        for t in &f {
            self.faces.push(spin(t.map(|v| self.at[v].clone().unwrap())));
            T::add_tri(&mut self.m, *t);
        }
        self.faces.sort();
        count(if weld { "soup.welded" } else { "soup.torn" }, 1);
        note(|| format!("{} faces on {} vertices, placement {kind}, offset {off}", f.len(), from.len()));
    }

    fn faces_ok(&self, when: &str) {
        match corners(&self.m) {
            Err(e) => violated("faces", format!("{} {when}: {e}", T::NAME)),
            Ok(c) if c != self.faces => violated("faces", format!("{} {when}: {} faces with other corners than the {} put in", T::NAME, c.len(), self.faces.len())),
            _ => {}
        }
    }

    fn dedup(&mut self) {
        let distinct: BTreeSet<&Q3> = self.at.iter().flatten().collect();
        let dead = self.at.iter().filter(|x| x.is_none()).count();
        let (n, keep) = (self.m.vertices.len() - dead, distinct.len());
        let r = match guarded(|| T::dedup(&mut self.m)) {
            Ok(r) => r,
            Err(e) => violated("panic", format!("removing duplicates: {e}")),
        };
        count(if n > keep { "dedup.merging" } else { "dedup.idle" }, 1);
        note(|| format!("removing duplicates: {n} vertices, {keep} distinct, {r} removed"));
        mark(r as u64, (keep as u64) << 20 | n as u64);
        let left: Vec<Option<Q3>> = (0..self.m.vertices.len()).map(|v| if self.m.vertices[v].removed { None } else { Some(where_is(&self.m, v)) }).collect();
        let got: BTreeSet<&Q3> = left.iter().flatten().collect();
        let live = left.iter().flatten().count();
        if r != n - keep || live != keep || got != distinct {
            violated("merge", format!("{}: {n} vertices at {keep} positions; reported {r} removed, {live} left at {} positions", T::NAME, got.len()));
        }
        if n > keep {
            nontrivial();
        }
        self.at = left;
        self.faces_ok("after merging");
        // every side of every face can be found by its end points
        for f in 0..self.m.faces.len() {
            if self.m.faces[f].removed {
                continue;
            }
            let Ok(t) = face_tri(&self.m, f) else { continue };
            for k in 0..3 {
                let (a, b) = (t[k], t[(k + 1) % 3]);
                let ok = self.m.edge_map.get(&(a, b)).is_some_and(|&h| {
                    let e = &self.m.half_edges[h];
                    !e.removed && e.vertex == b && e.face == Some(f)
                });
                if !ok {
                    violated("edges", format!("{}: after merging, side {a}->{b} of face {f} is not found by its end points", T::NAME));
                }
            }
        }
    }

    /// Vertices that move and vanish.
    fn edit(&mut self, n: usize) {
        for _ in 0..n {
            let live: Vec<usize> = (0..self.m.faces.len()).filter(|&f| !self.m.faces[f].removed).collect();
            if live.is_empty() {
                return;
            }
            let f = live[work(live.len())];
            let Ok(t) = face_tri(&self.m, f) else { violated("faces", format!("face {f} is not a triangle")) };
            let k = work(3);
            let r = if T::NAME == "f64" && chance(4) {
                guarded(|| T::smooth(&mut self.m, 1, 1e6) > 0)
            } else {
                guarded(|| T::collapse(&mut self.m, t[k], t[(k + 1) % 3]).is_ok())
            };
            match r {
                Ok(true) => count("edit", 1),
                Ok(false) => continue,
                Err(e) => violated("panic", format!("edit: {e}")),
            }
            for v in 0..self.m.vertices.len() {
                let now = if self.m.vertices[v].removed { None } else { Some(where_is(&self.m, v)) };
                if now != self.at[v] {
                    let old = std::mem::replace(&mut self.at[v], now);
                    self.left.extend(old);
                }
            }
        }
        self.faces = match corners(&self.m) {
            Ok(c) => c,
            Err(e) => violated("faces", e),
        };
        note(|| format!("{n} edits, {} positions left behind", self.left.len()));
    }

    /// All live positions are equal or clearly apart.
    fn clear(&self) -> bool {
        let mut v: Vec<[f64; 3]> = self.at.iter().flatten().map(|q| [0, 1, 2].map(|k| q[k].to_f64())).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        (0..v.len()).all(|i| (i + 1..v.len()).take_while(|&j| v[j][0] - v[i][0] < 4e-6).all(|j| (0..3).any(|k| (v[i][k] - v[j][k]).abs() > 4e-6)))
    }

    fn clean(&mut self) {
        if let Err(e) = guarded(|| T::cleanup_verts(&mut self.m)) {
            violated("panic", format!("dropping unused vertices: {e}"));
        }
        count("clean", 1);
        self.at = (0..self.m.vertices.len()).map(|v| Some(where_is(&self.m, v))).collect();
        let used: BTreeSet<&Q3> = self.faces.iter().flatten().collect();
        let got: BTreeSet<&Q3> = self.at.iter().flatten().collect();
        if used != got || got.len() != self.at.len() {
            violated("unused", format!("{}: {} positions in use, {} vertices left at {} positions", T::NAME, used.len(), self.at.len(), got.len()));
        }
        self.faces_ok("after dropping unused vertices");
        match check(&self.m) {
            Ok(s) => mark(s.0 as u64, s.3 as u64),
            Err(e) => violated("connectivity", format!("{} after merging and dropping unused vertices: {e}", T::NAME)),
        }
    }
}

fn go<T: Num>() {
    let mut s = Soup::<T> { m: T::new_mesh(), at: vec![], faces: vec![], left: vec![] };
    let kind = work(4);
    for round in 0..1 + work(3) {
        let mut d = any(T::NAME == "f64" && chance(4));
        if chance(3) {
            punch(&mut d, work(4));
        }
        let off = round as f64 * 64.0 + [0.0, -32.0, 1024.0, 65536.0][work(4)];
        s.tear(&d, kind, off);
        s.lookups(work(6));
        s.copies(work(4));
        s.dedup();
        if chance(2) {
            s.dedup();
        }
        s.lookups(work(6));
        s.clean();
        s.lookups(work(6));
        if chance(3) {
            s.edit(1 + work(4));
            s.lookups(2 + work(8));
            s.copies(work(4));
            if !s.clear() {
                return;
            }
            s.dedup();
            s.lookups(work(4));
        }
        if chance(2) {
            s.dedup();
            s.clean();
        }
    }
}

pub fn c15() {
    with_num!(work(3), go());
}
