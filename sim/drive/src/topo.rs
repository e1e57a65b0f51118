//! Neighbourhood queries after edit histories, against the face list (C19).
use crate::edit::*;
use crate::inv::*;
use crate::num::*;
use crate::with_num;
use rt::{chance, count, guarded, mark, nontrivial, note, violated, work};
use std::collections::{BTreeMap, BTreeSet};

type Set = BTreeSet<usize>;

/// What the face list says about neighbourhoods.
struct Around {
    /// live faces by their corners
    id: BTreeMap<Tri, usize>,
    /// face on the left of a directed edge
    left: BTreeMap<(usize, usize), usize>,
    opp: BTreeMap<(usize, usize), usize>,
    nb: BTreeMap<usize, Set>,
    at: BTreeMap<usize, Set>,
    rim: Set,
}

impl Around {
    fn of<T: Num>(w: &World<T>) -> Around {
        let opp = w.r.opp();
        let id: BTreeMap<Tri, usize> = w.live().into_iter().map(|f| (canon(face_tri(&w.m, f).unwrap_or_default()), f)).collect();
        let mut a = Around { id, left: BTreeMap::new(), opp, nb: BTreeMap::new(), at: BTreeMap::new(), rim: Set::new() };
        for (t, &f) in &a.id {
            for k in 0..3 {
                let (x, y) = (t[k], t[(k + 1) % 3]);
                a.left.insert((x, y), f);
                a.nb.entry(x).or_default().insert(y);
                a.nb.entry(y).or_default().insert(x);
                a.at.entry(x).or_default().insert(f);
            }
        }
        for &(x, y) in a.opp.keys() {
            if !a.opp.contains_key(&(y, x)) {
                a.rim.extend([x, y]);
            }
        }
        a
    }
    fn across(&self, t: &Tri) -> Set {
        (0..3).filter_map(|k| self.left.get(&(t[(k + 1) % 3], t[k]))).copied().collect()
    }
    fn joined(&self, a: usize, b: usize) -> bool {
        self.nb.get(&a).is_some_and(|s| s.contains(&b))
    }
}

/// A list that must hold each member once.
fn set(what: &str, v: &[usize]) -> Set {
    let s: Set = v.iter().copied().collect();
    if s.len() != v.len() {
        violated("twice", format!("{what} lists something twice: {v:?}"));
    }
    s
}

fn same<X: PartialEq + std::fmt::Debug>(what: &str, got: X, want: X) {
    if got != want {
        violated("query", format!("{what}: {got:?}, by the face list {want:?}"));
    }
}

fn ask<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match guarded(f) {
        Ok(r) => r,
        Err(e) => violated("panic", format!("{what}: {e}")),
    }
}

fn vertex<T: Num>(m: &M<T>, a: &Around, v: usize) {
    let none = Set::new();
    let nb = a.nb.get(&v).unwrap_or(&none);
    let at = a.at.get(&v).unwrap_or(&none);
    same(&format!("incident_faces({v})"), set("incident_faces", &ask("incident_faces", || T::incident(m, v))), at.clone());
    let (ring, faces, border) = ask("vertex_ring_ccw", || T::ring(m, v));
    same(&format!("vertex_ring_ccw({v}) neighbours"), set("vertex_ring_ccw", &ring), nb.clone());
    same(&format!("one_ring_neighbors({v})"), set("one_ring_neighbors", &ask("one_ring_neighbors", || T::one_ring(m, v))), nb.clone());
    same(&format!("is_boundary_vertex({v})"), ask("is_boundary_vertex", || T::border_vertex(m, v)), a.rim.contains(&v));
    if nb.is_empty() {
        return;
    }
    same(&format!("faces_around_vertex({v})"), set("faces_around_vertex", &ask("faces_around_vertex", || T::faces_at(m, v))), at.clone());
    same(&format!("vertex_ring_ccw({v}) border"), border, a.rim.contains(&v));
    for i in 0..ring.len() {
        let e = (v, ring[i]);
        same(&format!("vertex_ring_ccw({v}) face {i}"), faces.get(i).copied().flatten(), a.left.get(&e).copied());
        if let Some(&c) = a.opp.get(&e) {
            same(&format!("vertex_ring_ccw({v}) neighbour after {}", ring[i]), ring[(i + 1) % ring.len()], c);
        }
    }
    count("check.vertex", 1);
}

fn face<T: Num>(m: &M<T>, a: &Around, t: &Tri, f: usize) {
    let (v, hs, e) = ask("face_vertices", || T::corner_list(m, f));
    same(&format!("face_vertices({f})"), canon(v), *t);
    same(&format!("face_edges({f})"), vec![e.0, e.1, e.2], hs.clone());
    let sides: Vec<(usize, usize)> = (0..3).map(|k| (v[k], v[(k + 1) % 3])).collect();
    same(&format!("face_half_edges({f})"), hs.iter().map(|&h| (m.half_edges[m.half_edges[h].twin].vertex, m.half_edges[h].vertex)).collect(), sides);
    let want = a.across(t);
    same(&format!("adjacent_faces({f})"), set("adjacent_faces", &ask("adjacent_faces", || T::adjacent(m, f))), want.clone());
    let around: Vec<usize> = ask("faces_around_face", || T::around_face(m, f)).into_iter().filter(|x| *x != usize::MAX).collect();
    same(&format!("faces_around_face({f})"), set("faces_around_face", &around), want.clone());
    // another face, near or far
    let pool: Vec<usize> = if !want.is_empty() && work(2) == 0 { want.iter().copied().collect() } else { a.id.values().copied().collect() };
    let g = pool[work(pool.len())];
    if g != f {
        same(&format!("are_faces_adjacent({f}, {g})"), ask("are_faces_adjacent", || T::are_adjacent(m, f, g)), want.contains(&g));
    }
    let mut c = *t;
    c.rotate_left(work(3));
    same(&format!("face_from_vertices({c:?})"), ask("face_from_vertices", || T::face_of(m, c)), Some(f));
    for v in [c[0], *a.nb.keys().nth(work(a.nb.len())).unwrap()] {
        same(&format!("vertex_touches_face({v}, {f})"), ask("vertex_touches_face", || T::touches(m, v, f)), t.contains(&v));
    }
    // two corners with a third vertex that makes no face
    let x = *a.nb.keys().nth(work(a.nb.len())).unwrap();
    if !c.contains(&x) {
        let (p, q) = (canon([c[0], c[1], x]), canon([c[1], c[0], x]));
        let want = a.id.get(&p).or(a.id.get(&q)).copied();
        same(&format!("face_from_vertices({p:?})"), ask("face_from_vertices", || T::face_of(m, p)), want);
    }
    count("check.face", 1);
}

fn edge<T: Num>(m: &M<T>, a: &Around, x: usize, y: usize) {
    let joined = a.joined(x, y);
    same(&format!("are_vertices_connected({x}, {y})"), ask("are_vertices_connected", || T::connected(m, x, y)), joined);
    let ends = |h: usize| (m.half_edges[m.half_edges[h].twin].vertex, m.half_edges[h].vertex, m.half_edges[h].face);
    let want = joined.then(|| (x, y, a.left.get(&(x, y)).copied()));
    same(&format!("vertices_connection({x}, {y})"), ask("vertices_connection", || T::connection(m, x, y)).map(ends), want);
    same(&format!("half_edge_between({x}, {y})"), ask("half_edge_between", || T::between(m, x, y)).map(ends), want);
    let back = joined.then(|| (y, x, a.left.get(&(y, x)).copied()));
    same(&format!("edge_half_edges({x}, {y})"), ask("edge_half_edges", || T::edge_pair(m, x, y)).map(|(g, h)| (Some(ends(g)), Some(ends(h)))), joined.then_some((want, back)));
    let pr = ask("ring_pair", || T::pair(m, x, y));
    same(&format!("ring_pair({x}, {y}) found"), pr.is_some(), joined);
    let Some(pr) = pr else { return };
    let (o, p) = (a.opp.get(&(x, y)).copied(), a.opp.get(&(y, x)).copied());
    same(&format!("ring_pair({x}, {y}) opposite corners"), (pr.opposite_a, pr.opposite_b), (o, p));
    let ends = [x, y];
    let side = |v: usize| a.nb[&v].iter().copied().filter(|u| !ends.contains(u)).collect::<Set>();
    let (n0, n1) = (side(x), side(y));
    let common: Set = n0.intersection(&n1).copied().collect();
    same(&format!("ring_pair({x}, {y}) common neighbours"), pr.common_neighbors.iter().copied().collect::<Set>(), common.clone());
    same(&format!("ring_pair({x}, {y}) all neighbours"), pr.union_neighbors.iter().copied().collect::<Set>(), n0.union(&n1).copied().collect());
    same(&format!("ring_pair({x}, {y}) border"), pr.is_border_edge, o.is_none() || p.is_none());
    let tips: Set = [o, p].into_iter().flatten().collect();
    let (l, c, d, g) = ask("link condition", || T::link_ok(m, x, y));
    same(&format!("collapse_link_condition_triangle({x}, {y})"), l, common == tips);
    same(&format!("check_link_condition_triangle({x}, {y})"), c, common == tips);
    same(&format!("would_create_duplicate_edges({x}, {y})"), d, common.difference(&tips).next().is_some());
    same(&format!("would_create_2gons({x}, {y})"), g, o.is_some() && o == p);
    count("check.edge", 1);
}

fn whole<T: Num>(w: &World<T>, a: &Around) {
    let m = &w.m;
    same("boundary_vertices", set("boundary_vertices", &ask("boundary_vertices", || T::border_vertices(m))), a.rim.clone());
    let g: BTreeMap<usize, Vec<usize>> = ask("build_face_adjacency_graph", || T::graph(m)).into_iter().collect();
    for (t, f) in &a.id {
        let Some(l) = g.get(f) else { violated("query", format!("face {f} is missing from the adjacency graph")) };
        same(&format!("adjacency graph of face {f}"), set("build_face_adjacency_graph", l), a.across(t));
    }
    ask("validate_connectivity", || T::validate(m));
    count("check.whole", 1);
}

fn questions<T: Num>(w: &World<T>, all: bool) {
    let a = Around::of(w);
    let vs: Vec<usize> = (0..w.r.p.len()).filter(|&v| !w.r.gone[v]).collect();
    if vs.is_empty() {
        return;
    }
    let fs: Vec<(Tri, usize)> = a.id.iter().map(|(t, f)| (*t, *f)).collect();
    let es: Vec<(usize, usize)> = a.opp.keys().copied().collect();
    let n = if all { 8 } else { 3 };
    for _ in 0..n {
        vertex(&w.m, &a, vs[work(vs.len())]);
        if fs.is_empty() {
            continue;
        }
        let (t, f) = fs[work(fs.len())];
        face(&w.m, &a, &t, f);
        let (x, y) = match work(3) {
            0 => (vs[work(vs.len())], vs[work(vs.len())]),
            1 => es[work(es.len())],
            _ => { let (x, y) = es[work(es.len())]; (y, x) }
        };
        if x != y {
            edge(&w.m, &a, x, y);
        }
    }
    if all || chance(4) {
        whole(w, &a);
    }
    mark(0xC19, (a.rim.len() as u64) << 32 | a.id.len() as u64);
}

fn go<T: Num>() {
    let exact = T::NAME != "f64";
    let d = start(!exact && chance(8));
    let mut w = World::<T>::new(&d, false);
    questions(&w, true);
    for _ in 0..1 + work(if exact { 10 } else { 24 }) {
        if chance(6) {
            // recomputes the links along borders, which must come out as they were
            note(|| "rebuild the border loops".into());
            count("op.border_loops", 1);
            w.call("build_boundary_loops", |w| T::border_loops(&mut w.m));
            w.after("build_boundary_loops", &[]);
        } else {
            w.step();
        }
        if work(3) > 0 {
            questions(&w, false);
            if w.ops > 0 {
                nontrivial();
            }
        }
    }
    questions(&w, true);
}

pub fn c19() {
    let k = [0, 0, 0, 0, 1, 2][work(6)];
    with_num!(k, go());
}
