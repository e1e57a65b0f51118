//! Measures of faces and edges after edit histories, asked by several readers
//! (C22).
use crate::edit::*;
use crate::inv::*;
use crate::num::*;
use crate::readers::{make, Form};
use cgar::geometry::plane::Plane;
use cgar::geometry::segment::{Segment, SegmentOps};
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use rt::{chance, count, guarded, mark, nontrivial, note, sim, spawn, violated, work, yield_now};
use rug::Rational;
use std::sync::Arc;

trait Gauge: Num {
    fn normal(m: &M<Self>, f: usize) -> [Self; 3];
    fn plane(m: &M<Self>, f: usize) -> ([Self; 3], Self);
    fn on(m: &M<Self>, h: usize, p: &P<Self>) -> Option<Self>;
    fn on_tol(m: &M<Self>, h: usize, p: &P<Self>, t: &Self) -> Option<Self>;
    fn on_some(m: &M<Self>, f: usize, p: &P<Self>) -> Option<(usize, Self)>;
    fn bary(m: &M<Self>, f: usize, p: &P<Self>) -> Option<[Self; 3]>;
    fn seg(m: &M<Self>, h: usize, p: &P<Self>) -> (P<Self>, P<Self>, P<Self>, Self);
    fn moved(m: &M<Self>, f: usize, v: usize, p: &P<Self>) -> Self;
    fn key(m: &M<Self>, h: usize, u: f64) -> Option<((usize, usize), f64)>;
}

macro_rules! gauge {
    ($t:ty) => {
        impl Gauge for $t {
            fn normal(m: &M<Self>, f: usize) -> [Self; 3] {
                let n = m.face_normal(f);
                [0, 1, 2].map(|k| n[k].clone())
            }
            fn plane(m: &M<Self>, f: usize) -> ([Self; 3], Self) {
                let p: Plane<$t, 3> = m.plane_from_face(f);
                ([0, 1, 2].map(|k| p.normal[k].clone()), p.d)
            }
            fn on(m: &M<Self>, h: usize, p: &P<Self>) -> Option<Self> {
                m.point_on_half_edge(h, p)
            }
            fn on_tol(m: &M<Self>, h: usize, p: &P<Self>, t: &Self) -> Option<Self> {
                m.point_on_half_edge_with_tolerance(h, p, t)
            }
            fn on_some(m: &M<Self>, f: usize, p: &P<Self>) -> Option<(usize, Self)> {
                m.point_is_on_some_half_edge(f, p)
            }
            fn bary(m: &M<Self>, f: usize, p: &P<Self>) -> Option<[Self; 3]> {
                m.barycentric_coords_on_face(f, p).map(|(a, b, c)| [a, b, c])
            }
            fn seg(m: &M<Self>, h: usize, p: &P<Self>) -> (P<Self>, P<Self>, P<Self>, Self) {
                let s: Segment<$t, 3> = m.segment_from_half_edge(h);
                (s.a().clone(), s.b().clone(), s.midpoint(), s.parameter_of_point(p))
            }
            fn moved(m: &M<Self>, f: usize, v: usize, p: &P<Self>) -> Self {
                m.area2x4_after_move(f, v, p)
            }
            fn key(m: &M<Self>, h: usize, u: f64) -> Option<((usize, usize), f64)> {
                m.canonical_edge_indices(h).map(|k| (k, m.canonicalize_u_for_edge(h, k, u)))
            }
        }
    };
}
gauge!(CgarF64);
gauge!(CgarRational);
gauge!(LazyExact);

fn near(g: &Rational, w: &Rational, scale: f64) -> bool {
    (g.to_f64() - w.to_f64()).abs() <= 1e-9 * (1.0 + scale)
}

fn ask<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match guarded(f) {
        Ok(r) => r,
        Err(e) => violated("panic", format!("{what}: {e}")),
    }
}

/// A value that must be the exact one, or close to it in floating point.
fn same<T: Num>(what: &str, got: &T, want: &Rational, scale: f64) {
    let g = got.rat();
    let ok = if T::NAME == "f64" { near(&g, want, scale) } else { g == *want };
    if !ok {
        violated("measure", format!("{what} is {}, should be {}", g.to_f64(), want.to_f64()));
    }
}

fn same3<T: Num>(what: &str, got: &[T; 3], want: &Q3, scale: f64) {
    for k in 0..3 {
        same(&format!("{what}, coordinate {k},"), &got[k], &want[k], scale);
    }
}

fn coords<T: Num>(p: &P<T>) -> [T; 3] {
    [0, 1, 2].map(|k| T::coord(p, k).clone())
}

fn mix(p: &[&Q3], w: &[i32], den: i32) -> Q3 {
    [0, 1, 2].map(|k| p.iter().zip(w).map(|(p, w)| Rational::from(&p[k] * Rational::from((*w, den)))).sum())
}

fn size(p: &Q3) -> f64 {
    p.iter().map(|x| x.to_f64().abs()).fold(0.0, f64::max)
}

/// One question about a drawn face or half-edge.
fn question<T: Gauge>(w: &World<T>) {
    let fs = w.live();
    if fs.is_empty() {
        return;
    }
    let m = &w.m;
    let f = fs[work(fs.len())];
    let t = face_tri(m, f).unwrap_or_default();
    let c = t.map(|v| &w.r.p[v]);
    let n = cross(&sub(c[1], c[0]), &sub(c[2], c[0]));
    let big = c.iter().map(|p| size(p)).fold(1.0, f64::max);
    let fat = w.r.fat(&t);
    // floating point can say "on" reliably only where nothing is rounded
    let sharp = w.exact() || w.dyadic && t.iter().all(|&v| w.r.short(v));
    let hs = [0, 1, 2].map(|k| (0..3).fold(m.faces[f].half_edge, |h, i| if i < k { m.half_edges[h].next } else { h }));
    let k = work(3);
    let h = if work(3) == 0 { m.half_edges[hs[k]].twin } else { hs[k] };
    let (a, b) = w.ends(h);
    let (pa, pb) = (&w.r.p[a], &w.r.p[b]);
    let kind = work(11);
    mark(0xC22, (kind as u64) << 32 | f as u64);
    match kind {
        0 => same3("the normal of a face", &ask("face_normal", || T::normal(m, f)), &n, big * big),
        1 => {
            let (g, d) = ask("plane_from_face", || T::plane(m, f));
            same3("the normal of a plane", &g, &n, big * big);
            same("the offset of a plane", &d, &-dot(&n, c[0]), big * big * big);
        }
        2 => same("the squared area of a face", &ask("face_area", || T::area(m, f)), &(dot(&n, &n) / 4), big.powi(4)),
        3 => same3("the centroid of a face", &ask("face_centroid", || T::centroid(m, f)), &mix(&c, &[1, 1, 1], 3), big),
        4 => {
            let (lo, hi) = ask("face_aabb", || T::face_box(m, f));
            for k in 0..3 {
                let (l, u) = (c.iter().map(|p| &p[k]).min().unwrap(), c.iter().map(|p| &p[k]).max().unwrap());
                let (gl, gu) = (T::coord(&lo, k).rat(), T::coord(&hi, k).rat());
                if gl > *l || gu < *u || !near(&gl, l, big) || !near(&gu, u, big) {
                    violated("measure", format!("the box of face {t:?} runs from {} to {} along axis {k}, should be {} to {}", gl.to_f64(), gu.to_f64(), l.to_f64(), u.to_f64()));
                }
            }
        }
        5 => {
            // along the edge, beyond its ends, beside it
            let e = sub(pb, pa);
            let len = dot(&e, &e).to_f64();
            if len < 1e-4 || !fat {
                return;
            }
            let u = work(7) as i32 - 1;
            let mut p = mix(&[pa, pb], &[4 - u, u], 4);
            let off = chance(3);
            if off {
                let s = Rational::from((1, 8));
                p = [0, 1, 2].map(|k| Rational::from(&p[k] + &n[k] * s.clone()));
            }
            let q = w.pt(&p);
            let got = ask("point_on_half_edge", || T::on(m, h, &q));
            let want = !off && (0..=4).contains(&u);
            match got {
                Some(g) if want => same("the parameter of a point on an edge", &g, &Rational::from((u, 4)), big),
                Some(_) => violated("measure", format!("a point {} edge {a}-{b} is called on it", if off { "beside" } else { "beyond the ends of" })),
                None if want && sharp => violated("measure", format!("the point at {u}/4 of edge {a}-{b} is not called on it")),
                None => {}
            }
        }
        6 => {
            // at a known distance, on either side of the tolerance
            let e = sub(pb, pa);
            let (len, nn) = (dot(&e, &e).to_f64(), dot(&n, &n).to_f64());
            if len < 1e-4 || !fat {
                return;
            }
            let s = [(1, 64), (1, 8), (0, 1), (1, 2)][work(4)];
            let d = nn.sqrt() * s.0 as f64 / s.1 as f64;
            let u = work(5) as i32;
            let p = mix(&[pa, pb], &[4 - u, u], 4);
            let s = Rational::from(s);
            let p = [0, 1, 2].map(|k| Rational::from(&p[k] + &n[k] * s.clone()));
            let (q, tol, want) = if work(2) == 0 { (w.pt(&p), d * 1.5 + 0.001, true) } else { (w.pt(&p), d * 0.75, d > 0.0) };
            if !want || d * 0.25 < 1e-6 {
                return;
            }
            let inside = tol > d;
            let tol = T::of(tol);
            let got = ask("point_on_half_edge_with_tolerance", || T::on_tol(m, h, &q, &tol));
            match got {
                Some(g) if inside => same("the parameter of a point near an edge", &g, &Rational::from((u, 4)), big),
                None if !inside => {}
                g => violated("measure", format!("a point at distance {d:.6} of edge {a}-{b} is {} with tolerance {:.6}", if g.is_some() { "accepted" } else { "refused" }, tol.f())),
            }
        }
        7 => {
            if !fat {
                return;
            }
            let wt = [[1, 3, 0], [4, 0, 0], [1, 2, 1], [0, 2, 2], [-1, 3, 2], [2, 1, 1], [3, 0, 1], [5, -1, 0]][work(8)];
            let p = mix(&c, &wt, 4);
            let q = w.pt(&p);
            let want = wt.iter().all(|x| *x >= 0) && wt.contains(&0);
            match ask("point_is_on_some_half_edge", || T::on_some(m, f, &q)) {
                Some((h, u)) if want => {
                    if !hs.contains(&h) {
                        violated("measure", format!("half-edge {h} is not one of face {f}"));
                    }
                    let (a, b) = w.ends(h);
                    let u = u.rat();
                    let (pa, pb) = (&w.r.p[a], &w.r.p[b]);
                    let at: Q3 = [0, 1, 2].map(|k| Rational::from(&pa[k] + Rational::from(&pb[k] - &pa[k]) * &u));
                    let ok = (0..3).all(|k| if w.exact() { at[k] == p[k] } else { near(&at[k], &p[k], big) });
                    if !ok {
                        violated("measure", format!("the point {wt:?}/4 of face {t:?} is said to be at {} of edge {a}-{b}", u.to_f64()));
                    }
                }
                Some(_) => violated("measure", format!("the point {wt:?}/4 of face {t:?} is said to be on an edge")),
                None if want && sharp => violated("measure", format!("the point {wt:?}/4 of face {t:?} is on no edge of it")),
                None => {}
            }
            let gone: Vec<usize> = (0..m.faces.len()).filter(|&f| m.faces[f].removed).collect();
            if !gone.is_empty() {
                let g = gone[work(gone.len())];
                if ask("point_is_on_some_half_edge", || T::on_some(m, g, &q)).is_some() {
                    violated("measure", format!("removed face {g} has a point on its edges"));
                }
            }
        }
        8 => {
            if !fat {
                return;
            }
            let wt = [[2, 1, 1], [1, 2, 1], [1, 3, 0], [0, 0, 4], [-1, 3, 2], [6, -1, -1], [1, 1, 2]][work(7)];
            let mut p = mix(&c, &wt, 4);
            let off = chance(4);
            if off {
                let s = Rational::from((1, 8));
                p = [0, 1, 2].map(|k| Rational::from(&p[k] + &n[k] * s.clone()));
            }
            let q = w.pt(&p);
            let inside = wt.iter().all(|x| *x >= 0);
            let got = ask("barycentric_coords_on_face", || T::bary(m, f, &q));
            match got {
                Some(g) if inside && !off => {
                    for k in 0..3 {
                        same("a barycentric coordinate", &g[k], &Rational::from((wt[k], 4)), 1e3);
                    }
                }
                Some(_) if !off => violated("measure", format!("the point {wt:?}/4 outside face {t:?} has coordinates on it")),
                None if inside && !off && (sharp || wt.iter().all(|x| *x > 0)) && w.exact() => violated("measure", format!("the point {wt:?}/4 of face {t:?} has no coordinates on it")),
                _ => {}
            }
        }
        9 => {
            if dot(&sub(pb, pa), &sub(pb, pa)).to_f64() < 1e-4 {
                return;
            }
            let q = w.pt(&mix(&[pa, pb], &[1, 3], 4));
            let (ga, gb, mid, u) = ask("segment_from_half_edge", || T::seg(m, h, &q));
            same3("the start of a segment", &coords(&ga), pa, big);
            same3("the end of a segment", &coords(&gb), pb, big);
            same3("the middle of a segment", &coords(&mid), &mix(&[pa, pb], &[1, 1], 2), big);
            same("the parameter on a segment", &u, &Rational::from((3, 4)), big);
            let g = ask("canonical_edge_indices", || T::key(m, h, 0.25));
            let want = ((a.min(b), a.max(b)), if a < b { 0.25 } else { 0.75 });
            if g != Some(want) {
                violated("measure", format!("edge {a}-{b} has the key {g:?}, should be {want:?}"));
            }
        }
        _ => {
            let p = mix(&[c[0], c[1], c[2]], &[1, -2, 5], 4);
            let v = t[k];
            let q = w.pt(&p);
            let mut c = c;
            c[k] = &p;
            let n = cross(&sub(c[1], c[0]), &sub(c[2], c[0]));
            same("the area after a move", &ask("area2x4_after_move", || T::moved(m, f, v, &q)), &dot(&n, &n), big.powi(4) * 100.0);
        }
    }
    count("check.measure", 1);
}

fn whole<T: Gauge>(w: &World<T>) {
    let es: Vec<(usize, usize)> = w.r.opp().keys().copied().collect();
    if es.is_empty() {
        return;
    }
    let (mut s, mut n) = (0.0, 0);
    for &(a, b) in &es {
        if a < b || !es.contains(&(b, a)) {
            let e = sub(&w.r.p[b], &w.r.p[a]);
            s += dot(&e, &e).to_f64();
            n += 1;
        }
    }
    let want = (s / n as f64).sqrt();
    let got = ask("compute_average_edge_length", || T::avg_edge(&w.m));
    if (got - want).abs() > 1e-9 * (1.0 + want) {
        violated("measure", format!("average edge length {got}, should be {want}"));
    }
    count("check.average", 1);
}

fn go<T: Gauge>() {
    let exact = T::NAME != "f64";
    let d = start(!exact && chance(16));
    let mut w = World::<T>::new(&d, work(2) == 0);
    if exact && chance(2) {
        // the same or nearby values, as expressions nobody has evaluated yet
        let kind = 1 + work(5);
        let k = work(3);
        for v in 0..d.v.len() {
            let c = d.v[v].map(|x| make::<T>(Form { bits: x.to_bits(), kind, k }));
            if kind == 5 {
                w.r.p[v] = [0, 1, 2].map(|i| Rational::from_f64(d.v[v][i]).unwrap() + Rational::from((1 + k as i32, 3 * 64)));
            }
            w.m.vertices[v].position = T::pt_of(c);
        }
        note(|| format!("coordinates of kind {kind}"));
    }
    for _ in 0..work(if exact { 8 } else { 20 }) {
        w.step();
        for _ in 0..work(3) {
            question(&w);
        }
        if w.ops > 0 {
            nontrivial();
        }
    }
    let readers = if chance(3) { 2 + work(2) } else { 1 };
    if readers == 1 {
        for _ in 0..8 {
            question(&w);
        }
        whole(&w);
        return;
    }
    sim().max_slice = [64, 1024, 1 << 18][work(3)];
    let w = Arc::new(w);
    for i in 0..readers {
        let w = w.clone();
        spawn(move || {
            for _ in 0..3 {
                question(&w);
                yield_now();
            }
            if i == 0 && chance(2) {
                whole(&w);
            }
        });
    }
    rt::join_all();
}

pub fn c22() {
    match work(6) {
        0 | 1 => go::<CgarF64>(),
        2 => go::<CgarRational>(),
        _ => go::<LazyExact>(),
    }
}
