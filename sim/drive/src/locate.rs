//! Points located through face and half-edge handles that splits have
//! outdated (C20).
use crate::edit::*;
use crate::inv::*;
use crate::num::*;
use crate::tree::{locate, patch, Loc};
use crate::with_num;
use cgar::mesh::topology::FindFaceResult;
use rt::{chance, count, guarded, mark, nontrivial, note, violated, work};
use rug::Rational;

/// Handles as they were when the caller took them.
struct Handles {
    face: Vec<(usize, Tri)>,
    half: Vec<(usize, (usize, usize))>,
}

fn take<T: Num>(w: &World<T>, k: &mut Handles, f0: usize, h0: usize) {
    for f in f0..w.m.faces.len() {
        if !w.m.faces[f].removed {
            k.face.push((f, face_tri(&w.m, f).unwrap_or_default()));
        }
    }
    for h in h0..w.m.half_edges.len() {
        if !w.m.half_edges[h].removed {
            k.half.push((h, w.ends(h)));
        }
    }
}

/// A drawn combination of the points with weights out of 8, if representable.
fn mix<T: Num>(w: &World<T>, at: &[usize], wt: &[u32]) -> Option<Q3> {
    let p: Q3 = [0, 1, 2].map(|k| at.iter().zip(wt).map(|(&v, &x)| Rational::from(&w.r.p[v][k] * Rational::from((x, 8)))).sum());
    (w.exact() || q3([0, 1, 2].map(|k| p[k].to_f64())) == p).then_some(p)
}

fn on_edge(w: &Ref, a: usize, b: usize, p: &Q3) -> bool {
    let (d, e) = (sub(&w.p[b], &w.p[a]), sub(p, &w.p[a]));
    let c = cross(&d, &e);
    c.iter().all(|x| *x == 0) && dot(&d, &e) >= 0 && dot(&d, &e) <= dot(&d, &d)
}

fn by_face<T: Num>(w: &World<T>, f: usize, t: &Tri) {
    if !w.r.fat(t) {
        return;
    }
    let wt = [[2, 3, 3], [1, 1, 6], [3, 1, 4], [4, 4, 0], [5, 2, 1], [0, 3, 5], [6, 0, 2], [0, 8, 0]][work(8)];
    let Some(p) = mix(w, t, &wt) else { return };
    let loc = locate(&w.r, &p);
    // too thin for the tolerances of the number type
    if w.r.f.iter().any(|t| !w.r.fat(t)) {
        return;
    }
    let old = w.m.faces[f].removed;
    let pos = w.pt(&p);
    let r = guarded(|| T::find_face(&w.m, f, &pos)).unwrap_or_else(|e| violated("panic", format!("find_valid_face: {e}")));
    let what = |l: &Loc| match l {
        Loc::In(t) => format!("inside face {t:?}"),
        Loc::Edge(a, b) => format!("on edge {a}-{b}"),
        Loc::Vert(v) => format!("at vertex {v}"),
        Loc::Off => "nowhere".into(),
    };
    let tri = |f: usize| if f < w.m.faces.len() && !w.m.faces[f].removed { face_tri(&w.m, f).map(canon).ok() } else { None };
    let ok = match (&loc, &r) {
        (Loc::In(t), FindFaceResult::Inside { f, bary }) => {
            let l = [bary.0.rat(), bary.1.rat(), bary.2.rat()];
            let at = face_tri(&w.m, *f).unwrap_or_default();
            let q: Q3 = [0, 1, 2].map(|k| (0..3).map(|i| Rational::from(&w.r.p[at[i]][k] * &l[i])).sum());
            tri(*f) == Some(canon(*t)) && same(&q, &p)
        }
        (Loc::Edge(a, b), FindFaceResult::OnEdge { f, he, u }) => {
            let (x, y) = w.ends(*he);
            let live = !w.m.half_edges[*he].removed && w.m.half_edges[*he].face == Some(*f);
            let along: Q3 = lerp_at(&w.r.p[x], &w.r.p[y], &u.rat());
            live && ((x, y) == (*a, *b) || (x, y) == (*b, *a)) && tri(*f).is_some_and(|t| t.contains(a) && t.contains(b)) && same(&along, &p)
        }
        (Loc::Vert(v), FindFaceResult::OnVertex { f, v: x }) => v == x && tri(*f).is_some_and(|t| t.contains(v)),
        _ => false,
    };
    if !ok {
        violated("face", format!("{}: through {} face {f} the point is {}, found {r:?}", T::NAME, if old { "old" } else { "current" }, what(&loc)));
    }
    count(if old { "check.old_face" } else { "check.face" }, 1);
    mark(f as u64, old as u64);
    if old {
        nontrivial();
    }
}

fn same(a: &Q3, b: &Q3) -> bool {
    (0..3).all(|k| Rational::from(&a[k] - &b[k]).to_f64().abs() <= 1e-9)
}

fn lerp_at(a: &Q3, b: &Q3, u: &Rational) -> Q3 {
    [0, 1, 2].map(|k| Rational::from(&a[k] + Rational::from(&b[k] - &a[k]) * u))
}

fn by_half<T: Num>(w: &World<T>, h: usize, a: usize, b: usize) {
    let n = 1 + work(7) as u32;
    let Some(p) = mix(w, &[a, b], &[8 - n, n]) else { return };
    let old = w.m.half_edges[h].removed;
    let pos = w.pt(&p);
    let g = guarded(|| T::valid_he(&w.m, h, &pos)).unwrap_or_else(|e| violated("panic", format!("find_valid_half_edge: {e}")));
    if g >= w.m.half_edges.len() || w.m.half_edges[g].removed {
        violated("half-edge", format!("{}: half-edge {h} from {a} to {b} led to {g}, which is gone", T::NAME));
    }
    let (x, y) = w.ends(g);
    // same line, same direction, and it holds the point
    let (d, e) = (sub(&w.r.p[b], &w.r.p[a]), sub(&w.r.p[y], &w.r.p[x]));
    if !on_edge(&w.r, x, y, &p) || !on_edge(&w.r, a, b, &w.r.p[x]) || !on_edge(&w.r, a, b, &w.r.p[y]) || dot(&d, &e) <= 0 {
        violated("half-edge", format!("{}: {} half-edge {h} from {a} to {b}, point {n}/8 along it, led to half-edge {g} from {x} to {y}", T::NAME, if old { "old" } else { "current" }));
    }
    count(if old { "check.old_half_edge" } else { "check.half_edge" }, 1);
    mark(h as u64, 2 + old as u64);
    if old {
        nontrivial();
    }
}

/// Faces with the point strictly inside, through the tree.
fn by_tree<T: Num>(w: &mut World<T>, t: &Tri) {
    let wt = [[2, 3, 3], [1, 1, 6], [3, 1, 4], [4, 4, 0], [5, 2, 1]][work(5)];
    let Some(p) = mix(w, t, &wt) else { return };
    if w.r.f.iter().any(|t| !w.r.fat(t)) {
        return;
    }
    let want: Vec<Tri> = match locate(&w.r, &p) {
        Loc::In(t) => vec![canon(t)],
        _ => vec![],
    };
    let pos = w.pt(&p);
    let Some(mut tree) = w.tree.take() else { return };
    let got = guarded(|| T::holding(&w.m, &mut tree, &pos)).unwrap_or_else(|e| violated("panic", format!("faces_containing_point_aabb: {e}")));
    w.tree = Some(tree);
    let mut tris: Vec<Tri> = got.iter().filter(|f| !w.m.faces[**f].removed).map(|&f| canon(face_tri(&w.m, f).unwrap_or_default())).collect();
    tris.sort();
    if tris != want || tris.len() != got.len() {
        violated("holding", format!("{}: faces {got:?} = {tris:?} hold the point, by brute force {want:?}", T::NAME));
    }
    count("check.holding", 1);
}

fn go<T: Num>() {
    let exact = T::NAME != "f64";
    let large = chance(24);
    let d = patch(large);
    let mut w = World::<T>::new(&d, false);
    if chance(2) {
        w.tree = Some(T::tree(&w.m));
    }
    let mut k = Handles { face: vec![], half: vec![] };
    take(&w, &mut k, 0, 0);
    for _ in 0..1 + work(if exact { 10 } else if large { 60 } else { 20 }) {
        let (f0, h0) = (w.m.faces.len(), w.m.half_edges.len());
        if work(2) == 0 { w.split_edge() } else { w.split_face() }
        take(&w, &mut k, f0, h0);
        for _ in 0..work(4) {
            // early handles more often
            let n = if work(2) == 0 { 12 } else { usize::MAX };
            match work(3) {
                0 => {
                    let (f, t) = k.face[work(k.face.len().min(n))];
                    note(|| format!("look for a point of face {f} as it was, {t:?}"));
                    by_face(&w, f, &t);
                }
                1 => {
                    let (h, (a, b)) = k.half[work(k.half.len().min(n))];
                    note(|| format!("look for a point of half-edge {h} as it was, {a}->{b}"));
                    by_half(&w, h, a, b);
                }
                _ => {
                    let t = k.face[work(k.face.len())].1;
                    by_tree(&mut w, &t);
                }
            }
        }
    }
    w.compare("the history", true);
}

pub fn c20() {
    let k = [0, 0, 1, 2][work(4)];
    with_num!(k, go());
}
