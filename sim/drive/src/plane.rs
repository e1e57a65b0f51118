//! Planar meshes: edit histories with point location and areas (C21).
use crate::edit::{cross, lerp, q3, sub, Q3, Ref};
use crate::gen_mesh::*;
use crate::inv::*;
use crate::num::Num;
use crate::tree::{locate, Loc};
use cgar::geometry::aabb_tree::AabbTree;
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::mesh::basic_types::{Mesh, SplitResult, SplitResultKind};
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use rt::{chance, count, fnv, guarded, mark, nontrivial, note, sim, spawn, violated, work, yield_now};
use rug::Rational;
use std::sync::Arc;

type M2<T> = Mesh<T, 2>;
type T2<T> = AabbTree<T, 2, Point<T, 2>, usize>;

trait Flat: Num {
    fn flat() -> M2<Self>;
    fn at(p: &Q3) -> Point<Self, 2>;
    fn add_v(m: &mut M2<Self>, p: &Q3) -> usize;
    fn add_t(m: &mut M2<Self>, t: Tri) -> usize;
    fn del_t(m: &mut M2<Self>, f: usize);
    fn flip2(m: &mut M2<Self>, h: usize) -> Result<(), String>;
    fn tree2(m: &M2<Self>) -> T2<Self>;
    fn edge2(m: &mut M2<Self>, t: &mut T2<Self>, h: usize, p: &Q3) -> Result<SplitResult, String>;
    fn face2(m: &mut M2<Self>, t: &mut T2<Self>, f: usize, p: &Q3) -> Result<SplitResult, String>;
    fn inside(m: &M2<Self>, p: &Point<Self, 2>) -> bool;
    fn area2(m: &M2<Self>, f: usize) -> Rational;
    fn clean(m: &mut M2<Self>);
    fn vert(m: &M2<Self>, v: usize) -> [Rational; 2];
}

macro_rules! flat {
    ($t:ty) => {
        impl Flat for $t {
            fn flat() -> M2<Self> {
                Mesh::new()
            }
            fn at(p: &Q3) -> Point<Self, 2> {
                Point::<$t, 2>::new([0, 1].map(|k| <$t>::from_rat(p[k].clone())))
            }
            fn add_v(m: &mut M2<Self>, p: &Q3) -> usize {
                m.add_vertex(Self::at(p))
            }
            fn add_t(m: &mut M2<Self>, t: Tri) -> usize {
                m.add_triangle(t[0], t[1], t[2])
            }
            fn del_t(m: &mut M2<Self>, f: usize) {
                m.remove_triangle(f)
            }
            fn flip2(m: &mut M2<Self>, h: usize) -> Result<(), String> {
                m.flip_edge(h).map_err(|e| e.to_string())
            }
            fn tree2(m: &M2<Self>) -> T2<Self> {
                m.build_face_tree()
            }
            fn edge2(m: &mut M2<Self>, t: &mut T2<Self>, h: usize, p: &Q3) -> Result<SplitResult, String> {
                m.split_edge(t, h, &Self::at(p), false).map_err(|e| e.to_string())
            }
            fn face2(m: &mut M2<Self>, t: &mut T2<Self>, f: usize, p: &Q3) -> Result<SplitResult, String> {
                m.split_face(t, f, &Self::at(p), false).map_err(|e| e.to_string())
            }
            fn inside(m: &M2<Self>, p: &Point<Self, 2>) -> bool {
                m.point_in_mesh_2(p)
            }
            fn area2(m: &M2<Self>, f: usize) -> Rational {
                m.face_area(f).rat()
            }
            fn clean(m: &mut M2<Self>) {
                m.remove_invalidated_faces()
            }
            fn vert(m: &M2<Self>, v: usize) -> [Rational; 2] {
                [0, 1].map(|k| m.vertices[v].position.coords()[k].rat())
            }
        }
    };
}
flat!(CgarF64);
flat!(CgarRational);
flat!(LazyExact);

struct W<T: Flat> {
    m: M2<T>,
    r: Ref,
    ops: u32,
    /// Faces as they were when their handles were taken.
    known: Vec<(usize, Tri)>,
    /// A flip or removal happened since.
    loose: bool,
    calm: bool,
}

/// Twice the signed area.
fn turn(a: &Q3, b: &Q3, c: &Q3) -> Rational {
    cross(&sub(b, a), &sub(c, a))[2].clone()
}

impl<T: Flat> W<T> {
    fn exact(&self) -> bool {
        T::NAME != "f64"
    }
    fn ends(&self, h: usize) -> (usize, usize) {
        (self.m.half_edges[self.m.half_edges[h].twin].vertex, self.m.half_edges[h].vertex)
    }
    fn live(&self) -> Vec<usize> {
        (0..self.m.faces.len()).filter(|&f| !self.m.faces[f].removed).collect()
    }
    fn after(&mut self, what: &str) {
        self.ops += 1;
        count("check.structure", 1);
        mark(fnv(what.as_bytes()), self.r.f.len() as u64);
        note(|| format!("{what} -> {} faces", self.r.f.len()));
        match guarded(|| check(&self.m)) {
            Ok(Ok(_)) => {}
            Ok(Err(e)) => violated("structure", format!("after {what}: {e}")),
            Err(e) => violated("structure", format!("after {what}: mesh cannot be walked: {e}")),
        }
        let got = face_set(&self.m).unwrap_or_default();
        if got != self.r.faces() {
            violated("faces", format!("after {what}: faces {got:?}, model {:?}", self.r.f));
        }
        if self.m.vertices.len() != self.r.p.len() {
            violated("vertices", format!("after {what}: {} vertices, model has {}", self.m.vertices.len(), self.r.p.len()));
        }
        for f in self.known.last().map_or(0, |k| k.0 + 1)..self.m.faces.len() {
            self.known.push((f, face_tri(&self.m, f).unwrap_or_default()));
        }
        rt::state(self.r.f.iter().fold(7u64, |h, t| (h ^ ((t[0] as u64) << 40 | (t[1] as u64) << 20 | t[2] as u64)).wrapping_mul(0x100000001b3)));
    }
    fn swap(&mut self, what: &str, old: &[Tri], new: &[Tri]) {
        if let Err(e) = self.r.swap(old, new) {
            violated("faces", format!("{what}: {e}"));
        }
        self.after(what);
    }
    fn call<R>(&mut self, what: &str, f: impl FnOnce(&mut M2<T>) -> R) -> R {
        match guarded(|| f(&mut self.m)) {
            Ok(r) => r,
            Err(e) => violated("panic", format!("{what}: {e}")),
        }
    }
    fn fresh(&mut self, v: usize, p: &Q3) {
        if v != self.r.p.len() {
            violated("vertices", format!("split made vertex {v}, expected {}", self.r.p.len()));
        }
        self.r.p.push(p.clone());
        self.r.gone.push(false);
    }
    fn cut(&mut self, what: &str, a: usize, b: usize, v: usize) {
        let opp = self.r.opp();
        let (mut old, mut new) = (vec![], vec![]);
        for (x, y) in [(a, b), (b, a)] {
            if let Some(&c) = opp.get(&(x, y)) {
                old.push([x, y, c]);
                new.extend([[x, v, c], [v, y, c]]);
            }
        }
        self.swap(what, &old, &new);
    }
    fn step(&mut self) {
        let hs: Vec<usize> = (0..self.m.half_edges.len()).filter(|&h| !self.m.half_edges[h].removed && self.m.half_edges[h].face.is_some()).collect();
        if hs.is_empty() {
            return;
        }
        let h = hs[work(hs.len())];
        let (a, b) = self.ends(h);
        let opp = self.r.opp();
        // without flips and removals old handles stay good
        let kind = if self.calm { 2 + work(4) } else { work(10) };
        match kind {
            0 | 1 => {
                // only flips that keep the faces from overlapping
                if let (Some(&c), Some(&d)) = (opp.get(&(a, b)), opp.get(&(b, a))) {
                    let p = |i: usize| &self.r.p[i];
                    if turn(p(a), p(d), p(c)) <= 0 || turn(p(b), p(c), p(d)) <= 0 {
                        return;
                    }
                    if !self.r.fat(&[a, d, c]) || !self.r.fat(&[b, c, d]) {
                        return;
                    }
                    count("op.flip", 1);
                    match self.call("flip_edge", |m| T::flip2(m, h)) {
                        Ok(()) => {
                            self.loose = true;
                            self.swap("flip", &[[a, b, c], [b, a, d]], &[[a, d, c], [b, c, d]]);
                        }
                        Err(e) => violated("flip", format!("flip of edge {a}-{b} in a convex quadrilateral refused: {e}")),
                    }
                }
            }
            2 | 3 => {
                let (n, d) = [(1, 2), (1, 4), (3, 4)][work(3)];
                let p = lerp(&self.r.p[a], &self.r.p[b], n, d);
                let ok = [(a, b), (b, a)].iter().filter_map(|e| opp.get(e)).all(|&c| self.r.fat(&[a, b, c]));
                if !ok || self.r.near(&p) || (!self.exact() && q3([0, 1, 2].map(|k| p[k].to_f64())) != p) {
                    return;
                }
                count("op.split_edge", 1);
                let r = self.call("split_edge", |m| {
                    let mut t = T::tree2(m);
                    T::edge2(m, &mut t, h, &p)
                });
                match r {
                    Ok(r) if r.kind == SplitResultKind::SplitEdge => {
                        self.fresh(r.vertex, &p);
                        self.cut("split_edge", a, b, r.vertex);
                    }
                    r => violated("split", format!("split of edge {a}-{b}: {r:?}")),
                }
            }
            4 | 5 => {
                // a current face, or one that may have been split or flipped away since
                let fs = self.live();
                let (f, t) = if work(2) == 0 {
                    let f = fs[work(fs.len())];
                    (f, face_tri(&self.m, f).unwrap_or_default())
                } else {
                    self.known[work(self.known.len())]
                };
                let w = [[2, 3, 3], [1, 1, 6], [4, 2, 2], [3, 1, 4], [4, 4, 0], [0, 2, 6]][work(6)];
                let p: Q3 = [0, 1, 2].map(|k| (0..3).map(|i| Rational::from(&self.r.p[t[i]][k] * Rational::from((w[i], 8)))).sum());
                if self.r.near(&p) || (!self.exact() && q3([0, 1, 2].map(|k| p[k].to_f64())) != p) {
                    return;
                }
                // a handle reaches what its face was split into, not what flips or removals made of it
                let stale = self.m.faces[f].removed;
                if self.loose && (stale || face_tri(&self.m, f).map(canon) != Ok(canon(t))) {
                    return;
                }
                let loc = locate(&self.r, &p);
                let fat = match &loc {
                    Loc::In(t) => self.r.fat(t),
                    Loc::Edge(a, b) => self.r.f.iter().filter(|t| t.contains(a) && t.contains(b)).all(|t| self.r.fat(t)),
                    _ => false,
                };
                if !fat || !self.r.fat(&t) {
                    return;
                }
                count(if stale { "op.split_stale" } else { "op.split_face" }, 1);
                let r = self.call("split_face", |m| {
                    let mut tr = T::tree2(m);
                    T::face2(m, &mut tr, f, &p)
                });
                match (r, loc) {
                    (Ok(r), Loc::In(t)) if r.kind == SplitResultKind::SplitFace => {
                        self.fresh(r.vertex, &p);
                        let v = r.vertex;
                        self.swap("split_face", &[t], &[[t[0], t[1], v], [t[1], t[2], v], [t[2], t[0], v]]);
                    }
                    (Ok(r), Loc::Edge(a, b)) if r.kind == SplitResultKind::SplitEdge => {
                        self.fresh(r.vertex, &p);
                        self.cut("split_face at edge", a, b, r.vertex);
                    }
                    (r, l) => violated("split", format!("split of {} face {t:?} ({}): {r:?}", if stale { "old" } else { "current" }, if matches!(l, Loc::In(_)) { "inner point" } else { "point on an edge" })),
                }
            }
            6 => {
                let fs = self.live();
                let f = fs[work(fs.len())];
                let t = canon(face_tri(&self.m, f).unwrap_or_default());
                let mut rest = self.r.f.clone();
                rest.remove(&t);
                if !manifold(&rest.iter().copied().collect::<Vec<_>>()) {
                    return;
                }
                count("op.remove", 1);
                self.call("remove_triangle", |m| T::del_t(m, f));
                self.loose = true;
                self.swap("remove", &[t], &[]);
            }
            7 if chance(2) => {
                count("op.clean", 1);
                self.call("remove_invalidated_faces", |m| T::clean(m));
                if let Some(f) = (0..self.m.faces.len()).find(|&f| self.m.faces[f].removed) {
                    violated("clean", format!("face {f} is still marked removed after the clean-up"));
                }
                // face handles are renumbered
                self.known.clear();
                self.loose = false;
                self.after("clean-up");
            }
            _ => {
                // put a triangle where three corners of a hole are
                let open: Vec<(usize, usize)> = opp.keys().filter(|(x, y)| !opp.contains_key(&(*y, *x))).map(|(x, y)| (*y, *x)).collect();
                if open.is_empty() {
                    return;
                }
                let (x, y) = open[work(open.len())];
                let Some(&(_, z)) = open.iter().find(|e| e.0 == y && e.1 != x) else { return };
                let t = [x, y, z];
                let mut all = self.r.f.clone();
                if !self.r.fat(&t) || turn(&self.r.p[x], &self.r.p[y], &self.r.p[z]) <= 0 || !all.insert(canon(t)) || !manifold(&all.iter().copied().collect::<Vec<_>>()) || self.overlaps(&t) {
                    return;
                }
                count("op.add", 1);
                self.call("add_triangle", |m| T::add_t(m, t));
                self.swap("add", &[], &[t]);
            }
        }
    }
    /// Whether a new face would lie over a live one.
    fn overlaps(&self, t: &Tri) -> bool {
        self.r.f.iter().any(|u| {
            // two triangles are apart exactly if an edge of one separates them
            let sep = |s: &Tri, o: &Tri| (0..3).any(|k| o.iter().all(|&v| turn(&self.r.p[s[k]], &self.r.p[s[(k + 1) % 3]], &self.r.p[v]) <= 0));
            !sep(t, u) && !sep(u, t)
        })
    }
    fn ask(&self, p: &Q3) {
        // 0 outside, 1 inside, 2 on the border: not claimed
        let mut want = 0;
        for t in &self.r.f {
            let s = [0, 1, 2].map(|k| turn(&self.r.p[t[k]], &self.r.p[t[(k + 1) % 3]], p).to_f64());
            if s.iter().all(|x| *x > 1e-7) {
                want = 1;
                break;
            }
            if s.iter().all(|x| *x >= -1e-7) {
                want = 2;
            }
        }
        if want == 2 {
            return;
        }
        count(if want == 1 { "check.inside" } else { "check.outside" }, 1);
        let q = T::at(p);
        let got = guarded(|| T::inside(&self.m, &q)).unwrap_or_else(|e| violated("panic", format!("point_in_mesh_2: {e}")));
        if got != (want == 1) {
            violated("inside", format!("{} point {:?} is reported {}, by the faces it is {}", T::NAME, [p[0].to_f64(), p[1].to_f64()], if got { "inside" } else { "outside" }, if want == 1 { "inside" } else { "outside" }));
        }
        mark(7, got as u64);
    }
    fn questions(&self, n: usize) {
        for _ in 0..n {
            // on the lattice of the corners, beside it, or level with a corner
            let v = |k: usize| self.r.p[work(self.r.p.len())][k].clone();
            let by = |a: f64| Rational::from_f64(work(9) as f64 * 0.25 - 1.0 + a).unwrap();
            let p = match work(3) {
                0 => [v(0) + by(0.0), v(1) + by(0.0), Rational::new()],
                1 => [v(0) + by(0.0625), v(1) + by(0.0625), Rational::new()],
                _ => [v(0) + by(0.0625), v(1), Rational::new()],
            };
            self.ask(&p);
        }
        let fs = self.live();
        if !fs.is_empty() {
            let f = fs[work(fs.len())];
            let t = face_tri(&self.m, f).unwrap_or_default();
            let want: Rational = turn(&self.r.p[t[0]], &self.r.p[t[1]], &self.r.p[t[2]]) / 2;
            let got = guarded(|| T::area2(&self.m, f)).unwrap_or_else(|e| violated("panic", format!("face_area: {e}")));
            let ok = if self.exact() { got == want } else { (got.to_f64() - want.to_f64()).abs() < 1e-9 };
            if !ok {
                violated("area", format!("area of face {t:?} is {}, should be {}", got.to_f64(), want.to_f64()));
            }
            count("check.area", 1);
        }
    }
}

fn go<T: Flat>() {
    let exact = T::NAME != "f64";
    let mut d = match work(3) {
        0 => grid(1 + work(3), 1 + work(3)),
        1 => cone(3 + work(8)),
        _ => grid(1 + work(6), 1 + work(6)),
    };
    // sheared, so that few edges are level
    let (sx, sy) = ([0.0, 0.25, -0.5][work(3)], [0.0, 0.125, 0.25][work(3)]);
    for p in &mut d.v {
        *p = [p[0] + sx * p[1], p[1] + sy * p[0], 0.0];
    }
    let n = work(3);
    punch(&mut d, n);
    let mut m = T::flat();
    for p in &d.v {
        T::add_v(&mut m, &q3(*p));
    }
    for t in &d.f {
        T::add_t(&mut m, *t);
    }
    let mut w = W::<T> { m, r: Ref::of(&d), ops: 0, known: vec![], loose: false, calm: chance(3) };
    w.after("construction");
    for _ in 0..1 + work(if exact { 12 } else { 30 }) {
        w.step();
        if w.ops > 1 {
            nontrivial();
        }
        let n = work(4);
        w.questions(n);
    }
    for v in 0..w.r.p.len() {
        let got = T::vert(&w.m, v);
        if got[0] != w.r.p[v][0] || got[1] != w.r.p[v][1] {
            violated("position", format!("vertex {v} is not where it was put"));
        }
    }
    // several readers of the finished mesh
    let readers = if chance(4) { 2 + work(2) } else { 1 };
    if readers == 1 {
        w.questions(6);
        return;
    }
    sim().max_slice = [64, 1024, 1 << 18][work(3)];
    let w = Arc::new(w);
    for _ in 0..readers {
        let w = w.clone();
        spawn(move || {
            for _ in 0..3 {
                w.questions(1);
                yield_now();
            }
        });
    }
    rt::join_all();
}

pub fn c21() {
    match [0, 0, 0, 1, 2][work(5)] {
        0 => go::<CgarF64>(),
        1 => go::<CgarRational>(),
        _ => go::<LazyExact>(),
    }
}
