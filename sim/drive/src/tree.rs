//! Search trees: update histories against a plain list (C12), trees kept up to
//! date by splits against brute force (C16).
use crate::edit::*;
use crate::gen_mesh::*;
use crate::inv::*;
use crate::num::*;
use crate::with_num;
use cgar::mesh::basic_types::{IntersectionHit, IntersectionResult, PointInMeshResult, SplitResultKind};
use rt::{chance, count, fnv, guarded, mark, nontrivial, note, sim, spawn, violated, work};
use rug::Rational;
use std::sync::Arc;

/// A coordinate with its exact value; lazy numbers also come as expressions.
pub fn coord<T: Num>(pool: &[T]) -> T {
    let base = |k: usize| -> Rational {
        match k % 4 {
            0 => Rational::from((work(17) as i32 - 8, 1)),
            1 => Rational::from((work(33) as i32 - 16, 4)),
            2 => Rational::from((work(61) as i32 - 30, 3)),
            _ => Rational::from((work(201) as i32 - 100, 7)),
        }
    };
    if T::NAME == "f64" {
        return T::of(base(work(2)).to_f64());
    }
    match work(if pool.is_empty() { 3 } else { 6 }) {
        0 | 1 => T::from_rat(base(work(4))),
        2 => {
            // a short expression, so that approximations carry rounding errors
            let (a, b, c) = (T::of(0.1 * work(30) as f64), T::of(1.0 / 3.0 + work(5) as f64), T::of(0.7 + work(9) as f64));
            match work(4) {
                0 => a * b - c,
                1 => (a.clone() - b.clone()) / c + a,
                2 => a / b.clone() * b,
                _ => (a + b) * c,
            }
        }
        3 => pool[work(pool.len())].clone(),
        4 => {
            // equal value reached another way
            let x = pool[work(pool.len())].clone();
            let k = T::of(0.3 + work(4) as f64);
            if work(2) == 0 { (x + k.clone()) - k } else { x * k.clone() / k }
        }
        _ => {
            // a hair beside an existing value
            let x = pool[work(pool.len())].clone();
            let e = T::from_rat(Rational::from((1, 1)) / Rational::from(rug::Integer::from(1) << [20u32, 52, 60, 90][work(4)]));
            if work(2) == 0 { x + e } else { x - e }
        }
    }
}

struct Entry {
    id: usize,
    lo: Q3,
    hi: Q3,
    live: bool,
}

#[derive(PartialEq)]
enum Touch {
    Yes,
    No,
    Maybe,
}

fn touch(alo: &Q3, ahi: &Q3, blo: &Q3, bhi: &Q3, slack: f64) -> Touch {
    let mut r = Touch::Yes;
    for k in 0..3 {
        for d in [Rational::from(&blo[k] - &ahi[k]), Rational::from(&alo[k] - &bhi[k])] {
            if d > 0 {
                if slack > 0.0 && d.to_f64() < slack {
                    r = Touch::Maybe;
                } else {
                    return Touch::No;
                }
            }
        }
    }
    r
}

fn rats<T: Num>(p: &P<T>) -> Q3 {
    [0, 1, 2].map(|k| T::coord(p, k).rat())
}

/// Compare one answer with the list.
fn judge(what: &str, got: &[usize], e: &[Entry], qlo: &Q3, qhi: &Q3, slack: f64, live_only: bool) {
    let mut need: Vec<usize> = vec![];
    let mut may: Vec<usize> = vec![];
    for x in e {
        let t = touch(&x.lo, &x.hi, qlo, qhi, slack);
        if t == Touch::No || (live_only && !x.live) {
            continue;
        }
        may.push(x.id);
        if t == Touch::Yes && x.live {
            need.push(x.id);
        }
    }
    let mut left = may.clone();
    for g in got {
        match left.iter().position(|x| x == g) {
            Some(i) => {
                left.swap_remove(i);
            }
            None => violated("extra", format!("{what} returned entry {g}, which does not belong there or only once less (got {got:?}, list {may:?})")),
        }
    }
    let mut have = got.to_vec();
    for n in &need {
        match have.iter().position(|x| x == n) {
            Some(i) => {
                have.swap_remove(i);
            }
            None => violated("missing", format!("{what} misses live entry {n} that touches the query box (got {got:?})")),
        }
    }
    count("check.query", 1);
}

fn box_of<T: Num>(pool: &mut Vec<T>) -> (Bx<T>, Option<(Q3, Q3)>) {
    let mut lo: Vec<T> = vec![];
    let mut hi: Vec<T> = vec![];
    let eager = T::NAME != "lazy" || work(2) == 0;
    for _ in 0..3 {
        let a = coord(pool);
        let b = if work(4) == 0 { a.clone() } else if work(3) == 0 { coord(pool) } else { a.clone() + T::of(work(12) as f64 * 0.25) };
        pool.push(a.clone());
        pool.push(b.clone());
        // order with private copies, so that no shared cache is filled by us
        let (ra, rb) = (a.rat(), b.rat());
        if ra <= rb {
            lo.push(a);
            hi.push(b);
        } else {
            lo.push(b);
            hi.push(a);
        }
    }
    let l: [T; 3] = lo.try_into().ok().unwrap();
    let h: [T; 3] = hi.try_into().ok().unwrap();
    let e = eager.then(|| (l.clone().map(|x| x.rat()), h.clone().map(|x| x.rat())));
    (T::bx(T::pt_of(l), T::pt_of(h)), e)
}

/// A box around half of space or all that is ever stored.
fn wide<T: Num>() -> Bx<T> {
    let (mut lo, mut hi) = ([-200.0; 3], [200.0; 3]);
    let c = work(9) as f64 - 4.0;
    match work(7) {
        k @ 0..3 => lo[k] = c,
        k @ 3..6 => hi[k - 3] = c,
        _ => {}
    }
    T::bx(T::pt(lo), T::pt(hi))
}

fn history<T: Num>() {
    let slack = if T::NAME == "f64" { 1e-9 } else { 0.0 };
    let mut pool: Vec<T> = vec![];
    let mut e: Vec<Entry> = vec![];
    let mut next = 0usize;
    let mk = |pool: &mut Vec<T>, e: &mut Vec<Entry>, next: &mut usize| {
        let id = if *next > 0 && chance(8) { work(*next) } else { *next };
        *next = (*next).max(id + 1);
        let (b, _) = box_of(pool);
        e.push(Entry { id, lo: rats(&b.min), hi: rats(&b.max), live: true });
        (b, id)
    };
    // some trees with many levels
    let large = chance(16);
    let n0 = 1 + work(if large { 200 } else { 12 });
    let items: Vec<_> = (0..n0).map(|_| mk(&mut pool, &mut e, &mut next)).collect();
    let mut tree = Arc::new(match guarded(|| T::tree_build(items)) {
        Ok(t) => t,
        Err(x) => violated("panic", format!("build: {x}")),
    });
    let mut updates = 0u64;
    for _ in 0..2 + work(if large { 40 } else { 14 }) {
        let t = Arc::get_mut(&mut tree).expect("readers are done");
        match work(7) {
            0 | 1 | 2 => {
                let (b, id) = mk(&mut pool, &mut e, &mut next);
                note(|| format!("insert {id}"));
                count("op.insert", 1);
                if let Err(x) = guarded(|| T::tree_insert(t, b, id)) {
                    violated("panic", format!("insert: {x}"));
                }
                updates += 1;
                mark(1, id as u64);
            }
            3 | 4 => {
                let mut ids = vec![work(next + 1)];
                if chance(6) {
                    // most entries on one side of a plane
                    let (k, c, up) = (work(3), Rational::from(work(17) as i32 - 8), work(2) == 0);
                    ids = e.iter().filter(|x| (x.lo[k] > c) == up && work(8) > 0).map(|x| x.id).collect();
                }
                for id in ids {
                    let want = e.iter().filter(|x| x.live && x.id == id).count();
                    note(|| format!("invalidate {id}"));
                    count("op.invalidate", 1);
                    let got = match guarded(|| T::tree_invalidate(t, id)) {
                        Ok(n) => n,
                        Err(x) => violated("panic", format!("invalidate: {x}")),
                    };
                    if got != want {
                        violated("invalidate", format!("invalidate({id}) reported {got} entries, {want} were live"));
                    }
                    e.iter_mut().filter(|x| x.id == id).for_each(|x| x.live = false);
                    updates += 1;
                    mark(2, id as u64);
                }
            }
            5 => {
                count("op.compact", 1);
                let r = match guarded(|| T::tree_compact(t)) {
                    Ok(r) => r,
                    Err(x) => violated("panic", format!("compact: {x}")),
                };
                let live = e.iter().filter(|x| x.live).count();
                note(|| format!("compact {} entries to {live}", e.len()));
                match r {
                    None if live > 0 => violated("compact", format!("compact dropped {live} live entries")),
                    Some(_) if live == 0 => violated("compact", "compact kept a tree with no live entries".into()),
                    None => {}
                    Some(n) => {
                        *t = n;
                        e.retain(|x| x.live);
                        updates += 1;
                    }
                }
                mark(3, live as u64);
            }
            _ => {
                if let Some(x) = (!e.is_empty()).then(|| &e[work(e.len())]) {
                    count("op.get_aabb", 1);
                    match T::tree_box(t, x.id) {
                        None => violated("missing", format!("get_aabb({}) finds nothing", x.id)),
                        Some((lo, hi)) => {
                            let (lo, hi) = (rats(&lo), rats(&hi));
                            if !e.iter().any(|y| y.id == x.id && y.lo == lo && y.hi == hi) {
                                violated("extra", format!("get_aabb({}) returns a box that was never stored", x.id));
                            }
                        }
                    }
                }
                if T::tree_box(t, next + 5).is_some() {
                    violated("extra", "get_aabb of an unknown entry finds one".into());
                }
            }
        }
        let (live, total) = (e.iter().filter(|x| x.live).count(), e.len());
        if T::tree_hint(&tree) != (2 * live < total) {
            violated("hint", format!("needs_rebuild is {} with {live} of {total} entries live", T::tree_hint(&tree)));
        }
        // queries, possibly by several readers at once
        let qs: Vec<Bx<T>> = (0..1 + work(3)).map(|_| if chance(5) { wide() } else { box_of(&mut pool).0 }).collect();
        let e2 = Arc::new(std::mem::take(&mut e));
        let ask = move |tree: &Tree<T>, qs: &[Bx<T>], e: &[Entry], who: usize| {
            for (i, q) in qs.iter().enumerate() {
                let live = guarded(|| T::tree_live(tree, q)).unwrap_or_else(|x| violated("panic", format!("query_valid: {x}")));
                let all = guarded(|| T::tree_all(tree, q)).unwrap_or_else(|x| violated("panic", format!("query: {x}")));
                let (qlo, qhi) = (rats(&q.min), rats(&q.max));
                judge("query_valid", &live, e, &qlo, &qhi, slack, true);
                judge("query", &all, e, &qlo, &qhi, slack, false);
                mark(10 + (who * 8 + i) as u64, fnv(&live.iter().map(|x| *x as u8).collect::<Vec<_>>()));
            }
        };
        let readers = if chance(3) { 2 + work(2) } else { 0 };
        if updates > 0 {
            nontrivial();
        }
        if readers == 0 {
            ask(&tree, &qs, &e2, 0);
        } else {
            count("op.concurrent_reads", 1);
            sim().max_slice = [64, 512, 4096, 1 << 18][work(4)];
            let qs = Arc::new(qs);
            for r in 0..readers {
                let (t, q, e) = (tree.clone(), qs.clone(), e2.clone());
                spawn(move || ask(&t, &q, &e, r));
            }
            rt::join_all();
        }
        e = Arc::try_unwrap(e2).ok().expect("readers are done");
    }
}

pub fn c12() {
    let k = [0, 1, 2, 2][work(4)];
    with_num!(k, history());
}

// ---- C16 ----

/// Surface that does not overlap itself, to be split.
pub fn patch(large: bool) -> Model {
    if large {
        return match work(3) {
            0 => grid(4 + work(6), 4 + work(6)),
            1 => tube(5 + work(6), 3 + work(6)),
            _ => torus(5 + work(5), 4 + work(5)),
        };
    }
    match work(5) {
        0 => cuboid([0.0; 3], [1.0 + work(3) as f64, 2.0, 1.0 + work(3) as f64]),
        1 => grid(1 + work(3), 1 + work(3)),
        2 => tube(4 + work(2), 1 + work(2)),
        3 => spindle(4 + work(5)),
        _ => torus(3 + work(2), 3 + work(2)),
    }
}

pub enum Loc {
    In(Tri),
    Edge(usize, usize),
    Vert(usize),
    Off,
}

/// Exact location of a point on the live faces of the model.
pub fn locate(r: &Ref, p: &Q3) -> Loc {
    let zero = Rational::new();
    for t in &r.f {
        let (a, b, c) = (&r.p[t[0]], &r.p[t[1]], &r.p[t[2]]);
        let n = cross(&sub(b, a), &sub(c, a));
        if dot(&n, &sub(p, a)) != 0 {
            continue;
        }
        let s = [(b, c), (c, a), (a, b)].map(|(x, y)| dot(&n, &cross(&sub(y, x), &sub(p, x))));
        if s.iter().any(|x| *x < zero) {
            continue;
        }
        let z: Vec<usize> = (0..3).filter(|&i| s[i] == 0).collect();
        return match z.len() {
            0 => Loc::In(*t),
            1 => Loc::Edge(t[(z[0] + 1) % 3], t[(z[0] + 2) % 3]),
            _ => Loc::Vert(t[(0..3).find(|i| !z.contains(i)).unwrap_or(0)]),
        };
    }
    Loc::Off
}

/// Nearest hit distance along the ray by brute force; None = miss,
/// Err = grazes an edge or lies in a face plane.
fn brute(r: &Ref, o: &Q3, d: &Q3) -> Result<Option<Rational>, ()> {
    crossings(r, o, d, false).map(|x| x.into_iter().min())
}

/// Distances of all the faces the ray passes through; with `rim` also of those it meets exactly on
/// an edge or at a corner. An error where it comes too close to either to be judged.
fn crossings(r: &Ref, o: &Q3, d: &Q3, rim: bool) -> Result<Vec<Rational>, ()> {
    let mut all = Vec::new();
    for t in &r.f {
        let (a, b, c) = (&r.p[t[0]], &r.p[t[1]], &r.p[t[2]]);
        let (e1, e2) = (sub(b, a), sub(c, a));
        let h = cross(d, &e2);
        let det = dot(&e1, &h);
        let n = cross(&e1, &e2);
        if det == 0 {
            if dot(&n, &sub(o, a)) == 0 {
                return Err(());
            }
            continue;
        }
        let s = sub(o, a);
        let u = dot(&s, &h) / &det;
        let q = cross(&s, &e1);
        let v = dot(d, &q) / &det;
        let w = Rational::from(1) - &u - &v;
        let m = [&u, &v, &w].iter().map(|x| x.to_f64()).fold(f64::MAX, f64::min);
        if m < -1e-5 {
            continue;
        }
        let x = dot(&e2, &q) / &det;
        let near = if rim { [&u, &v, &w].iter().any(|b| **b != 0 && b.to_f64().abs() < 1e-5) } else { m < 1e-5 };
        if near || x.to_f64().abs() < 1e-6 || det.to_f64().abs() < 1e-7 {
            return Err(());
        }
        if x < 0 {
            continue;
        }
        all.push(x);
    }
    Ok(all)
}

fn close<T: Num>(a: &Rational, b: &Rational) -> bool {
    if T::NAME == "f64" {
        (a.to_f64() - b.to_f64()).abs() <= 1e-7 * (1.0 + b.to_f64().abs())
    } else {
        a == b
    }
}

fn queries<T: Num>(w: &World<T>, n: usize) {
    let tree = w.tree.as_ref().expect("kept tree");
    let fresh = guarded(|| T::tree(&w.m)).unwrap_or_else(|x| violated("panic", format!("build_face_tree: {x}")));
    for _ in 0..n {
        // off the grid, so that rays rarely meet an edge
        let o = q3([0, 1, 2].map(|_| (work(26) as f64 - 8.0) * 0.25 + [0.0625, 0.109375, 0.0546875, 0.171875][work(4)]));
        let op = w.pt(&o);
        match work(3) {
            0 => {
                let d = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0], [1.0, 0.5, 0.25], [-0.25, 1.0, -0.75], [0.0, 0.0, -1.0]][work(7)];
                let mut d = q3(d);
                // or straight at a vertex or at the middle of an edge
                let aimed = T::NAME != "f64" && !w.r.f.is_empty() && chance(3);
                if aimed {
                    let t = w.r.f.iter().nth(work(w.r.f.len())).unwrap();
                    let (a, b) = (&w.r.p[t[0]], &w.r.p[t[work(2)]]);
                    d = [0, 1, 2].map(|k| Rational::from(&a[k] + &b[k]) / 2 - &o[k]);
                }
                let want = if aimed { crossings(&w.r, &o, &d, true).map(|x| x.into_iter().min()) } else { brute(&w.r, &o, &d) };
                let Ok(want) = want else { continue };
                count(if aimed { "check.aimed-ray" } else { "check.ray" }, 1);
                for (name, t) in [("updated", tree), ("fresh", &fresh)] {
                    let got = guarded(|| T::ray(&w.m, t, &op, &w.pt(&d))).unwrap_or_else(|x| violated("panic", format!("cast_ray_3 through the {name} tree: {x}")));
                    match (&got, &want) {
                        (IntersectionResult::Miss, None) => {}
                        (IntersectionResult::Hit(h, t), Some(x)) => {
                            if !close::<T>(&t.rat(), x) {
                                violated("ray", format!("{name} tree: ray hits at {}, nearest face is at {}", t.rat().to_f64(), x.to_f64()));
                            }
                            if let IntersectionHit::Face(f, _) = h {
                                if w.m.faces[*f].removed {
                                    violated("ray", format!("ray through the {name} tree reports removed face {f}"));
                                }
                            }
                            if T::NAME != "f64" {
                                let at: Q3 = [0, 1, 2].map(|k| Rational::from(&o[k] + Rational::from(&d[k] * x)));
                                let mix = |l: &[(usize, Rational)]| -> Q3 { [0, 1, 2].map(|k| l.iter().map(|(v, c)| Rational::from(&w.r.p[*v][k] * c)).sum()) };
                                let there = match h {
                                    IntersectionHit::Vertex(v) => mix(&[(*v, Rational::from(1))]),
                                    IntersectionHit::Edge(a, b, u) => mix(&[(*a, Rational::from(1) - u.rat()), (*b, u.rat())]),
                                    IntersectionHit::Face(f, (x, y, z)) => {
                                        let t = T::corner_list(&w.m, *f).0;
                                        mix(&[(t[0], x.rat()), (t[1], y.rat()), (t[2], z.rat())])
                                    }
                                };
                                if there != at {
                                    violated("ray-place", format!("{name} tree: {h:?} lies at {:?}, the ray arrives at {:?}", there.map(|x| x.to_f64()), at.map(|x| x.to_f64())));
                                }
                            }
                        }
                        (IntersectionResult::Miss, Some(x)) => violated("ray", format!("{name} tree: ray misses, a face is at {}", x.to_f64())),
                        (IntersectionResult::Hit(..), None) => violated("ray", format!("{name} tree: ray reports a hit, no face is there")),
                    }
                    mark(21, want.is_some() as u64);
                }
            }
            1 => {
                if !w.r.closed() {
                    continue;
                }
                // in a closed mesh all directions agree
                let dirs = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]];
                let hits: Vec<usize> = dirs.iter().filter_map(|d| crossings(&w.r, &o, &q3(*d), false).ok()).map(|x| x.len()).collect();
                if hits.is_empty() || hits.iter().any(|h| h % 2 != hits[0] % 2) || !matches!(locate(&w.r, &o), Loc::Off) {
                    continue;
                }
                let hits = hits[0] as u64;
                count("check.classify", 1);
                let want = if hits % 2 == 1 { PointInMeshResult::Inside } else { PointInMeshResult::Outside };
                for (name, t) in [("updated", tree), ("fresh", &fresh)] {
                    let got = guarded(|| T::point_in(&w.m, t, &op)).unwrap_or_else(|x| violated("panic", format!("point_in_mesh_3 through the {name} tree: {x}")));
                    if got != want {
                        violated("classify", format!("{name} tree: point {:?} is {got:?}, by brute force {want:?}", o.clone().map(|x| x.to_f64())));
                    }
                }
                mark(22, hits);
            }
            _ => {
                let s = q3([0, 1, 2].map(|_| work(8) as f64 * 0.375));
                let hi: Q3 = [0, 1, 2].map(|k| Rational::from(&o[k] + &s[k]));
                let b = T::bx(op, w.pt(&hi));
                let got = guarded(|| T::tree_live(tree, &b)).unwrap_or_else(|x| violated("panic", format!("query_valid: {x}")));
                let e: Vec<Entry> = w
                    .live()
                    .into_iter()
                    .map(|f| {
                        let t = face_tri(&w.m, f).unwrap_or_default();
                        let f3 = |m: fn(&Rational, &Rational) -> bool| [0, 1, 2].map(|k| t.iter().map(|&v| w.r.p[v][k].clone()).reduce(|a, b| if m(&a, &b) { a } else { b }).unwrap_or_default());
                        Entry { id: f, lo: f3(|a, b| a < b), hi: f3(|a, b| a > b), live: true }
                    })
                    .collect();
                judge("query of the updated tree", &got, &e, &o, &hi, 1e-9, true);
                mark(23, got.len() as u64);
            }
        }
    }
}

fn splits<T: Num>() {
    let exact = T::NAME != "f64";
    let large = chance(24);
    let d = patch(large);
    let mut w = World::<T>::new(&d, false);
    // the tree may be built from a mesh that has lost faces
    let mut folded = false;
    if chance(3) {
        for _ in 0..1 + work(4) {
            match work(4) {
                k @ (0 | 1) => {
                    if k == 0 { w.flip() } else { w.collapse() }
                    folded = true;
                }
                _ => w.remove(false),
            }
        }
    }
    if w.live().is_empty() {
        return;
    }
    w.tree = Some(T::tree(&w.m));
    // triangles of faces that may since have been split
    let mut known: Vec<(usize, Tri)> = w.live().into_iter().map(|f| (f, face_tri(&w.m, f).unwrap_or_default())).collect();
    let n = 1 + work(if exact { 8 } else if large { 60 } else { 20 });
    let mut split = 0;
    for _ in 0..n {
        let before = w.m.faces.len();
        // where a flip or a collapse may have folded the mesh, a place does not name a face
        match work(if folded { 2 } else { 4 }) {
            0 => w.split_edge(),
            1 => w.split_face(),
            2 | 3 => {
                // address a face by an old handle
                let (f, t) = known[work(known.len())];
                if !w.r.fat(&t) {
                    continue;
                }
                let wt = [[2, 3, 3], [1, 1, 6], [3, 1, 4], [4, 4, 0], [5, 2, 1], [0, 3, 5]][work(6)];
                let p: Q3 = [0, 1, 2].map(|k| (0..3).map(|i| Rational::from(&w.r.p[t[i]][k] * Rational::from((wt[i], 8)))).sum());
                if !exact && q3([0, 1, 2].map(|k| p[k].to_f64())) != p {
                    continue;
                }
                let loc = locate(&w.r, &p);
                // slivers are refused by design
                let ok = match &loc {
                    Loc::In(t) => w.r.fat(t),
                    Loc::Edge(a, b) => w.r.f.iter().filter(|t| t.contains(a) && t.contains(b)).all(|t| w.r.fat(t)),
                    _ => false,
                };
                if !ok || w.r.near(&p) {
                    continue;
                }
                let stale = w.m.faces[f].removed;
                count(if stale { "op.split_stale" } else { "op.split_face" }, 1);
                let pos = w.pt(&p);
                let r = w.call("split_face", |w| w.with_tree(|m, t, u| T::split_face(m, t, f, &pos, u)));
                let Ok(r) = r else { violated("split", format!("split through face {f} was refused")) };
                match (loc, r.kind) {
                    (Loc::In(t), SplitResultKind::SplitFace) => {
                        w.new_vertex(r.vertex, &p);
                        let x = r.vertex;
                        if let Err(e) = w.r.swap(&[t], &[[t[0], t[1], x], [t[1], t[2], x], [t[2], t[0], x]]) {
                            violated("faces", e);
                        }
                    }
                    (Loc::Edge(a, b), SplitResultKind::SplitEdge) => {
                        w.new_vertex(r.vertex, &p);
                        w.edge_split_model(a, b, r.vertex);
                    }
                    (l, k) => violated("split", format!("split through {} face {f} gave {k:?}, the point is {}", if stale { "old" } else { "current" }, match l { Loc::In(_) => "inside a face", Loc::Edge(..) => "on an edge", _ => "elsewhere" })),
                }
                w.after(if stale { "split through old handle" } else { "split" }, &[f]);
            }
            _ => {}
        }
        for f in before..w.m.faces.len() {
            known.push((f, face_tri(&w.m, f).unwrap_or_default()));
            split = 1;
        }
        if split > 0 {
            nontrivial();
        }
        let q = work(4);
        queries(&w, q);
    }
    queries(&w, 3);
    w.compare("the history", true);
}

pub fn c16() {
    let k = [0, 0, 0, 1, 2][work(5)];
    with_num!(k, splits());
}
