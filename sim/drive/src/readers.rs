//! Several threads reading one mesh and its tree (C02).
use crate::gen_mesh::*;
use crate::inv::*;
use crate::num::*;
use crate::with_num;
use cgar::mesh::basic_types::*;
use rt::{chance, count, guarded, mark, nontrivial, note, sim, spawn, violated, work, yield_now};
use std::collections::BTreeMap;
use std::sync::Arc;

/// How a coordinate is written down. Equal recipes share one number.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Form {
    pub bits: u64,
    pub kind: usize,
    pub k: usize,
}

pub fn make<T: Num>(f: Form) -> T {
    let v = T::of(f64::from_bits(f.bits));
    if T::NAME == "f64" {
        return v;
    }
    let c = T::of(0.3 + f.k as f64);
    let third = || T::from_rat(rug::Rational::from((1 + f.k as i32, 3)));
    match f.kind {
        0 => v,
        1 => (v + c.clone()) - c,
        2 => (v * c.clone()) / c,
        3 => (v - third()) + third(),
        4 => {
            let mut x = v;
            for _ in 0..20 + f.k {
                x = x + c.clone();
            }
            for _ in 0..20 + f.k {
                x = x - c.clone();
            }
            x
        }
        // truly fractional: the approximation is never the value
        _ => v + third() * T::of(1.0 / 64.0),
    }
}

struct Plan {
    d: Model,
    forms: Vec<[Form; 3]>,
    share: bool,
}

impl Plan {
    fn build<T: Num>(&self) -> M<T> {
        let mut pool: BTreeMap<Form, T> = BTreeMap::new();
        let mut m = T::new_mesh();
        for f in &self.forms {
            let c = f.map(|x| if self.share { pool.entry(x).or_insert_with(|| make(x)).clone() } else { make(x) });
            T::add_vertex_pt(&mut m, T::pt_of(c));
        }
        for t in &self.d.f {
            T::add_tri(&mut m, *t);
        }
        m
    }
}

#[derive(Clone, Debug)]
enum Q {
    Ray([f64; 3], [f64; 3]),
    In([f64; 3]),
    Box([f64; 3], [f64; 3]),
    Area(usize),
    Centroid(usize),
    Bounds(usize),
    /// Clone the mesh, split the clone, read it.
    Clone(usize),
    /// Build an own tree from the shared mesh.
    Tree([f64; 3], [f64; 3]),
    Ring(usize),
    Same(usize, usize),
}

fn num<T: Num>(x: &T) -> String {
    x.rat().to_string()
}

fn hit<T: Num>(r: &IntersectionResult<T>) -> String {
    match r {
        IntersectionResult::Miss => "miss".into(),
        IntersectionResult::Hit(IntersectionHit::Face(f, (u, v, w)), t) => format!("face {f} {} {} {} at {}", num(u), num(v), num(w), num(t)),
        IntersectionResult::Hit(h, t) => format!("{h:?} at {}", num(t)).split('(').next().unwrap_or("").to_string() + &num(t),
    }
}

fn answer<T: Num>(m: &M<T>, t: &Tree<T>, q: &Q) -> String {
    match q {
        Q::Ray(o, d) => hit(&T::ray(m, t, &T::pt(*o), &T::pt(*d))),
        Q::In(o) => format!("{:?}", T::point_in(m, t, &T::pt(*o))),
        Q::Box(a, b) => {
            let mut v = T::tree_live(t, &T::bx(T::pt(*a), T::pt(*b)));
            v.sort();
            format!("{v:?}")
        }
        Q::Area(f) => num(&T::area(m, *f)),
        Q::Centroid(f) => T::centroid(m, *f).iter().map(num).collect::<Vec<_>>().join(" "),
        Q::Bounds(f) => {
            let (a, b) = T::face_box(m, *f);
            [&a, &b].iter().flat_map(|p| [0, 1, 2].map(|k| num(T::coord(p, k)))).collect::<Vec<_>>().join(" ")
        }
        Q::Clone(f) => {
            let mut c = m.clone();
            let mut tree = T::tree(&c);
            let p = T::pt_of(T::centroid(&c, *f));
            let r = T::split_face(&mut c, &mut tree, *f, &p, true);
            let fs = face_set(&c).unwrap_or_default();
            format!("{:?} {fs:?} {:?}", r.map(|r| (r.kind, r.vertex)), check(&c).is_ok())
        }
        Q::Tree(a, b) => {
            let own = T::tree(m);
            let mut v = T::tree_live(&own, &T::bx(T::pt(*a), T::pt(*b)));
            v.sort();
            format!("{v:?}")
        }
        Q::Ring(v) => {
            let mut n = T::one_ring(m, *v);
            n.sort();
            let mut f = T::faces_at(m, *v);
            f.sort();
            format!("{n:?} {f:?}")
        }
        Q::Same(a, b) => format!("{:?}", [0, 1, 2].map(|k| { let (x, y) = (T::coord(&m.vertices[*a].position, k), T::coord(&m.vertices[*b].position, k)); (x == y, x.partial_cmp(y)) })),
    }
}

fn query(nf: usize, nv: usize) -> Q {
    let g = || [0, 1, 2].map(|_| (work(26) as f64 - 8.0) * 0.25 + [0.0625, 0.109375, 0.0, 0.171875][work(4)]);
    match work(12) {
        0 | 1 => Q::Ray(g(), [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0], [1.0, 0.5, 0.25], [-0.25, 1.0, -0.75]][work(6)]),
        2 | 3 => Q::In(g()),
        4 | 5 => {
            let a = g();
            Q::Box(a, a.map(|x| x + work(8) as f64 * 0.375))
        }
        6 => Q::Area(work(nf)),
        7 => Q::Centroid(work(nf)),
        8 => Q::Bounds(work(nf)),
        9 => Q::Clone(work(nf)),
        10 => {
            let a = g();
            Q::Tree(a, a.map(|x| x + work(8) as f64 * 0.375))
        }
        _ => {
            if work(2) == 0 {
                Q::Ring(work(nv))
            } else {
                Q::Same(work(nv), work(nv))
            }
        }
    }
}

fn readers<T: Num>() {
    let d = match work(if chance(12) { 7 } else { 4 }) {
        4 => grid(3 + work(4), 3 + work(4)),
        5 => sphere(1 + work(2)),
        6 => spindle(6 + work(20)),
        0 => cuboid([0.0; 3], [1.0 + work(3) as f64, 2.0, 1.0 + work(3) as f64]),
        1 => grid(1 + work(2), 1 + work(2)),
        2 => tube(4, 1 + work(2)),
        _ => sphere(0),
    };
    let kinds: Vec<usize> = (0..2).map(|_| work(6)).collect();
    let forms = d.v.iter().map(|p| p.map(|x| Form { bits: x.to_bits(), kind: kinds[work(2)], k: work(2) })).collect();
    let plan = Plan { share: chance(4) == false, forms, d };
    let (nf, nv) = (plan.d.f.len(), plan.d.v.len());
    let threads = 2 + work(3);
    let lists: Vec<Vec<Q>> = (0..threads).map(|_| (0..1 + work(4)).map(|_| query(nf, nv)).collect()).collect();
    // what a single thread gets, from objects nobody else touched
    let want: Vec<Vec<String>> = lists
        .iter()
        .map(|l| {
            l.iter()
                .map(|q| {
                    let r = guarded(|| {
                        let m = plan.build::<T>();
                        let t = T::tree(&m);
                        answer(&m, &t, q)
                    });
                    r.unwrap_or_else(|e| format!("panic {e}"))
                })
                .collect()
        })
        .collect();
    let m = plan.build::<T>();
    let t = T::tree(&m);
    let all = Arc::new((m, t));
    note(|| format!("{} mesh with {nf} faces, {threads} readers", T::NAME));
    count("op.threads", threads as u64);
    sim().max_slice = [8, 32, 200, 2000, 1 << 18][work(5)];
    for (i, (l, w)) in lists.into_iter().zip(want).enumerate() {
        let all = all.clone();
        spawn(move || {
            for (q, w) in l.iter().zip(&w) {
                note(|| format!("reader {i}: {q:?}"));
                let got = guarded(|| answer(&all.0, &all.1, q)).unwrap_or_else(|e| format!("panic {e}"));
                if got != *w {
                    violated("answer", format!("{} {q:?}: concurrent reader got {got}, a single thread gets {w}", T::NAME));
                }
                count("check.answer", 1);
                mark(i as u64, rt::fnv(w.as_bytes()));
                yield_now();
            }
        });
    }
    rt::join_all();
    nontrivial();
}

pub fn c02() {
    let k = [2, 2, 2, 1, 0][work(5)];
    with_num!(k, readers())
}
