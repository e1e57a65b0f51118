//! Set operations on boxes and other convex solids (C08).
use crate::edit::{cross, dot, q3, sub, Q3};
use crate::gen_mesh::*;
use crate::inv::*;
use crate::num::*;
use crate::readers::{make, Form};
use crate::with_num;
use rt::{chance, count, guarded, mark, nontrivial, note, sim, spawn, violated, work, yield_now};
use rug::Rational;
use std::collections::BTreeMap;
use std::sync::Arc;

const OPS: [&str; 3] = ["union", "intersection", "difference"];

/// How the standard pair of boxes is put into space.
#[derive(Clone, Copy, Debug)]
pub struct Frame {
    perm: usize,
    flip: [bool; 3],
    scale: f64,
    off: [f64; 3],
    /// How much x leans along y, x along z and y along z.
    lean: [f64; 3],
}

const PERM: [[usize; 3]; 6] = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]];

impl Frame {
    pub fn draw() -> Frame {
        let lean = if chance(2) { [0, 1, 2].map(|_| [0.0, 0.5, -0.25, 1.0, -0.75][work(5)]) } else { [0.0; 3] };
        Frame { lean, perm: work(6), flip: [0, 1, 2].map(|_| work(2) == 1), scale: [1.0, 0.5, 2.0, 0.25, 8.0, 64.0][work(6)], off: [0, 1, 2].map(|_| [0.0, 1.0, -3.0, 16.0, -100.0][work(5)]) }
    }
    fn put(&self, p: [f64; 3]) -> [f64; 3] {
        let [x, y, z] = [0, 1, 2].map(|k| {
            let x = p[PERM[self.perm][k]];
            if self.flip[k] { 4.0 - x } else { x }
        });
        let q = [x + self.lean[0] * y + self.lean[1] * z, y + self.lean[2] * z, z];
        [0, 1, 2].map(|k| self.scale * (q[k] + self.off[k]))
    }
    fn odd(&self) -> bool {
        (self.perm >= 3) ^ self.flip[0] ^ self.flip[1] ^ self.flip[2]
    }
}

/// A box moved into its frame, outward oriented.
pub fn boxed(lo: [f64; 3], hi: [f64; 3], fr: &Frame) -> Model {
    let mut d = cuboid(lo, hi);
    for p in &mut d.v {
        *p = fr.put(*p);
    }
    if fr.odd() {
        for t in &mut d.f {
            t.swap(1, 2);
        }
    }
    d
}

type Cuboid = ([f64; 3], [f64; 3]);

pub struct Pair {
    pub a: Model,
    pub b: Model,
    /// Volume of the result of each operation.
    vol: [Rational; 3],
    /// Points well inside the cells of the arrangement and whether each result contains them.
    probes: Vec<([f64; 3], [bool; 3])>,
    frame: Frame,
}

fn inside(p: [f64; 3], parts: &[Cuboid]) -> bool {
    parts.iter().any(|(lo, hi)| (0..3).all(|k| p[k] > lo[k] && p[k] < hi[k]))
}

fn apart(a: &Cuboid, b: &Cuboid) -> bool {
    (0..3).any(|k| a.1[k] < b.0[k] || b.1[k] < a.0[k])
}

/// Whether the results contain what is or is not in the operands.
fn results(a: bool, b: bool) -> [bool; 3] {
    [a || b, a && b, a && !b]
}

/// Two operands made of one or two boxes each (or none), no two of whose faces lie in one plane.
pub fn pair() -> Pair {
    let frame = Frame::draw();
    let mut n = [1, 1];
    match work(8) {
        0 => n[0] = 2,
        1 => n[1] = 2,
        2 => n = [2, 2],
        3 if chance(3) => n[work(2)] = 0,
        _ => {}
    }
    let total = n[0] + n[1];
    let grid = [17, 12, 9][work(3)];
    let mut boxes: Vec<Cuboid> = vec![([0.0; 3], [0.0; 3]); total];
    for k in 0..3 {
        let mut c: Vec<usize> = (0..grid).collect();
        for i in 0..2 * total {
            let j = i + work(grid - i);
            c.swap(i, j);
        }
        for (b, bx) in boxes.iter_mut().enumerate() {
            let (x, y) = (c[2 * b].min(c[2 * b + 1]), c[2 * b].max(c[2 * b + 1]));
            (bx.0[k], bx.1[k]) = (x as f64 * 0.25, y as f64 * 0.25);
        }
    }
    let mut parts = [boxes[..n[0]].to_vec(), boxes[n[0]..].to_vec()];
    for p in &mut parts {
        // shells of one operand must not meet each other
        if p.len() == 2 && !apart(&p[0], &p[1]) {
            p.pop();
        }
    }
    let whole = |p: &Vec<Cuboid>| {
        let mut m = Model { v: vec![], f: vec![] };
        for (lo, hi) in p {
            let d = boxed(*lo, *hi, &frame);
            let base = m.v.len();
            m.v.extend(d.v);
            m.f.extend(d.f.iter().map(|t| t.map(|v| v + base)));
        }
        m
    };
    let mut cut: [Vec<f64>; 3] = [vec![-0.5, 5.0], vec![-0.5, 5.0], vec![-0.5, 5.0]];
    for (lo, hi) in parts.iter().flatten() {
        for k in 0..3 {
            cut[k].extend([lo[k], hi[k]]);
        }
    }
    cut.iter_mut().for_each(|c| c.sort_by(f64::total_cmp));
    let mut probes = vec![];
    let mut vol = [(); 3].map(|_| Rational::new());
    for x in cut[0].windows(2) {
        for y in cut[1].windows(2) {
            for z in cut[2].windows(2) {
                // off-centre so that a line through it does not run along triangle edges
                let p = [[x[0], x[1], 0.4871], [y[0], y[1], 0.5313], [z[0], z[1], 0.4597]].map(|[a, b, t]| a + (b - a) * t);
                let r = results(inside(p, &parts[0]), inside(p, &parts[1]));
                // every coordinate is a multiple of a quarter
                let v = (x[1] - x[0]) * (y[1] - y[0]) * (z[1] - z[0]) * frame.scale.powi(3);
                for op in 0..3 {
                    if r[op] {
                        vol[op] += Rational::from_f64(v).unwrap_or_default();
                    }
                }
                probes.push((frame.put(p), r));
            }
        }
    }
    note(|| format!("boxes {parts:?}, {frame:?}"));
    count("operands.shells", (parts[0].len() + parts[1].len()) as u64);
    Pair { a: whole(&parts[0]), b: whole(&parts[1]), vol, probes, frame }
}

/// Six times the volume of a tetrahedron, with its sign.
fn six(t: &[Q3; 4]) -> Rational {
    dot(&sub(&t[1], &t[0]), &cross(&sub(&t[2], &t[0]), &sub(&t[3], &t[0])))
}

/// The part of a tetrahedron on the inner side of the plane through a triangle, in tetrahedra.
fn clip(t: &[Q3; 4], plane: &[Q3; 3]) -> Vec<[Q3; 4]> {
    let side = t.clone().map(|p| six(&[plane[0].clone(), plane[1].clone(), plane[2].clone(), p]));
    let (inn, out): (Vec<usize>, Vec<usize>) = (0..4).partition(|&i| side[i] <= 0);
    let at = |i: usize, j: usize| -> Q3 {
        let u = Rational::from(&side[i] / Rational::from(&side[i] - &side[j]));
        [0, 1, 2].map(|k| Rational::from(&t[i][k] + Rational::from(&t[j][k] - &t[i][k]) * &u))
    };
    let v = |i: usize| t[i].clone();
    let prism = |a: [Q3; 3], b: [Q3; 3]| {
        let ([a0, a1, a2], [b0, b1, b2]) = (a, b);
        vec![[a0.clone(), a1.clone(), a2, b2.clone()], [a0.clone(), a1, b1.clone(), b2.clone()], [a0, b0, b1, b2]]
    };
    match inn[..] {
        [_, _, _, _] => vec![t.clone()],
        [a, b, c] => prism([a, b, c].map(v), [a, b, c].map(|i| at(i, out[0]))),
        [a, b] => prism([v(a), at(a, out[0]), at(a, out[1])], [v(b), at(b, out[0]), at(b, out[1])]),
        [a] => vec![[v(a), at(a, out[0]), at(a, out[1]), at(a, out[2])]],
        _ => vec![],
    }
}

/// A box, wedge, tetrahedron or octahedron that fills the box between two corners.
fn solid(kind: usize, c: &Cuboid) -> Model {
    let full = cuboid(c.0, c.1);
    let pick = |at: &[usize]| at.iter().map(|&i| full.v[i]).collect::<Vec<_>>();
    match kind {
        0 => Model { v: pick(&[0, 1, 3, 4, 5, 7]), f: vec![[0, 2, 1], [3, 4, 5], [0, 1, 4], [0, 4, 3], [1, 2, 5], [1, 5, 4], [2, 0, 3], [2, 3, 5]] },
        1 => Model { v: pick(&[0, 1, 3, 4]), f: vec![[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]] },
        2 => {
            let mid = [0, 1, 2].map(|k| (c.0[k] + c.1[k]) / 2.0);
            let tip = |k: usize, x: f64| { let mut p = mid; p[k] = x; p };
            let v = vec![tip(0, c.0[0]), tip(0, c.1[0]), tip(1, c.0[1]), tip(1, c.1[1]), tip(2, c.0[2]), tip(2, c.1[2])];
            let f = (0..8).map(|i| { let (x, y, z) = (i & 1, 2 + (i >> 1 & 1), 4 + (i >> 2)); if (x + y + z) % 2 == 0 { [x, z, y] } else { [x, y, z] } }).collect();
            Model { v, f }
        }
        _ => full,
    }
}

/// Two convex solids leaning or turned against each other, in general position.
pub fn tilted() -> Option<Pair> {
    let frame = Frame::draw();
    let draw = || -> Cuboid {
        let c = [0, 1, 2].map(|_| {
            let (i, j) = (work(16), work(15));
            let j = if j >= i { j + 1 } else { j };
            (i.min(j) as f64 * 0.25, i.max(j) as f64 * 0.25)
        });
        (c.map(|x| x.0), c.map(|x| x.1))
    };
    let (ca, cb) = (draw(), draw());
    let m: [[f64; 3]; 3] = [0, 1, 2].map(|i| [0, 1, 2].map(|j| if i == j { [1.0, 0.75, 1.25][work(3)] } else { (work(25) as f64 - 12.0) / 16.0 }));
    let turn = |p: [f64; 3]| -> [f64; 3] { [0, 1, 2].map(|i| 2.03125 + (0..3).map(|j| m[i][j] * (p[j] - 2.0)).sum::<f64>()) };
    let det = |r: [[f64; 3]; 3]| r[0][0] * (r[1][1] * r[2][2] - r[1][2] * r[2][1]) - r[0][1] * (r[1][0] * r[2][2] - r[1][2] * r[2][0]) + r[0][2] * (r[1][0] * r[2][1] - r[1][1] * r[2][0]);
    if det(m) < 0.25 {
        return None;
    }
    let kind = [work(5), work(5)];
    let (a0, mut b0) = (solid(kind[0], &ca), solid(kind[1], &cb));
    b0.v.iter_mut().for_each(|p| *p = turn(*p));
    // general position: no corner near a plane of the other box, no two edges near each other's line
    let vol6 = |a: [f64; 3], b: [f64; 3], c: [f64; 3], d: [f64; 3]| det([0, 1, 2].map(|k| [b[k] - a[k], c[k] - a[k], d[k] - a[k]]));
    let tri = |d: &Model, t: &[usize; 3]| t.map(|v| d.v[v]);
    for (x, y) in [(&a0, &b0), (&b0, &a0)] {
        for t in &x.f {
            let [p, q, r] = tri(x, t);
            if y.v.iter().any(|v| vol6(p, q, r, *v).abs() < 1e-3) {
                return None;
            }
            for u in &y.f {
                let w = tri(y, u);
                if (0..9).any(|i| vol6([p, q, r][i / 3], [q, r, p][i / 3], w[i % 3], w[(i + 1) % 3]).abs() < 1e-3) {
                    return None;
                }
            }
        }
    }
    let planes: Vec<[Q3; 3]> = b0.f.iter().map(|t| tri(&b0, t).map(q3)).collect();
    let mut bits: Vec<[Q3; 4]> = a0.f.iter().map(|t| [q3(a0.v[0]), q3(a0.v[t[0]]), q3(a0.v[t[1]]), q3(a0.v[t[2]])]).collect();
    for pl in &planes {
        bits = bits.iter().flat_map(|t| clip(t, pl)).filter(|t| six(t) != 0).collect();
    }
    let cube = |d: &Model| -> Rational { d.f.iter().map(|t| six(&[q3(d.v[0]), q3(d.v[t[0]]), q3(d.v[t[1]]), q3(d.v[t[2]])])).sum() };
    let (va, vb) = (cube(&a0), cube(&b0));
    let both: Rational = bits.iter().map(|t| six(t).abs()).sum();
    let s = Rational::from_f64(frame.scale.powi(3)).unwrap_or_default() / 6;
    let vol = [Rational::from(&va + &vb) - &both, both.clone(), Rational::from(&va - &both)].map(|v| v * &s);
    let sides = |d: &Model, p: [f64; 3]| -> f64 { d.f.iter().map(|t| { let [a, b, c] = tri(d, t); vol6(a, b, c, p) }).fold(f64::MIN, f64::max) };
    let mut probes = vec![];
    for i in 0..6 {
        for j in 0..6 {
            for k in 0..6 {
                let p = [i as f64 * 0.7371 - 0.1, j as f64 * 0.7113 - 0.1, k as f64 * 0.7297 - 0.1];
                let (x, y) = (sides(&a0, p), sides(&b0, p));
                if x.abs() > 1e-3 && y.abs() > 1e-3 {
                    probes.push((frame.put(p), results(x < 0.0, y < 0.0)));
                }
            }
        }
    }
    let place = |mut d: Model| {
        d.v.iter_mut().for_each(|p| *p = frame.put(*p));
        if frame.odd() {
            d.f.iter_mut().for_each(|t| t.swap(1, 2));
        }
        d
    };
    note(|| format!("solids {} in {ca:?} and {} in {cb:?} turned by {m:?}, {frame:?}", kind[0], kind[1]));
    count("check.solids", 1);
    Some(Pair { a: place(a0), b: place(b0), vol, probes, frame })
}

/// How often the surface of `m` winds around `p`, by the crossings of the ray from `p` along x.
/// None if the ray passes too close to an edge to tell.
fn winding(tris: &[[[f64; 3]; 3]], p: [f64; 3]) -> Option<i32> {
    let mut w = 0;
    for t in tris {
        if t.iter().all(|q| q[0] <= p[0]) {
            continue;
        }
        let q = t.map(|q| [q[1] - p[1], q[2] - p[2]]);
        let c = |i: usize, j: usize| q[i][0] * q[j][1] - q[i][1] * q[j][0];
        let (s0, s1, s2) = (c(0, 1), c(1, 2), c(2, 0));
        let area = s0 + s1 + s2;
        let size: f64 = q.iter().flatten().map(|x| x * x).sum();
        if area.abs() < 1e-12 * size {
            continue; // seen edge-on
        }
        if [s0, s1, s2].iter().any(|s| s.abs() < 1e-9 * size) {
            return None;
        }
        let sg = area.signum();
        if s0 * sg > 0.0 && s1 * sg > 0.0 && s2 * sg > 0.0 {
            // where the ray meets the triangle
            let x = (t[2][0] * s0 + t[0][0] * s1 + t[1][0] * s2) / area;
            if x > p[0] {
                w += sg as i32;
            }
        }
    }
    Some(w)
}

pub fn volume<T: Num>(m: &M<T>) -> Result<Rational, String> {
    let mut six = Rational::new();
    for f in 0..m.faces.len() {
        if m.faces[f].removed {
            continue;
        }
        let t = face_tri(m, f)?;
        let p: [Q3; 3] = t.map(|v| [0, 1, 2].map(|k| T::coord(&m.vertices[v].position, k).rat()));
        six += dot(&p[0], &cross(&p[1], &p[2]));
    }
    Ok(six / 6)
}

/// What a caller sees wrong with a result, if anything.
pub fn wrong<T: Num>(m: &M<T>, pr: &Pair, op: usize) -> Option<(&'static str, String)> {
    let s = match check(m) {
        Ok(s) => s,
        Err(e) => return Some(("connectivity", e)),
    };
    if s.3 != 0 {
        return Some(("open", format!("{} border half-edges, {} faces", s.3, s.0)));
    }
    let vol = &pr.vol[op];
    match volume(m) {
        Err(e) => return Some(("connectivity", e)),
        Ok(v) if v != *vol => {
            if T::NAME != "f64" || (v.to_f64() - vol.to_f64()).abs() > 1e-9 * pr.frame.scale.powi(3) * 64.0 {
                return Some(("volume", format!("volume {} instead of {}", v.to_f64(), vol.to_f64())));
            }
        }
        _ => {}
    }
    let mut tris = vec![];
    for f in 0..m.faces.len() {
        if !m.faces[f].removed {
            tris.push(face_tri(m, f).unwrap().map(|v| T::xyz(&m.vertices[v].position)));
        }
    }
    for (p, r) in &pr.probes {
        let Some(w) = winding(&tris, *p) else { continue };
        let want = r[op];
        if w != want as i32 {
            return Some(("membership", format!("winding number {w} at {p:?}, which is {} the result", if want { "inside" } else { "outside" })));
        }
        count("probes", 1);
    }
    None
}

fn build<T: Num>(d: &Model, forms: &BTreeMap<u64, Form>, pool: &BTreeMap<u64, T>) -> M<T> {
    let mut m = T::new_mesh();
    for p in &d.v {
        let c = p.map(|x| match pool.get(&x.to_bits()) {
            Some(v) => v.clone(),
            None => make::<T>(forms[&x.to_bits()]),
        });
        T::add_vertex_pt(&mut m, T::pt_of(c));
    }
    for t in &d.f {
        T::add_tri(&mut m, *t);
    }
    m
}

fn go<T: Num>() {
    let pr = match chance(4) {
        true => (0..4).find_map(|_| tilted()).unwrap_or_else(pair),
        false => pair(),
    };
    let plain = T::NAME == "f64" || chance(2);
    let mut forms: BTreeMap<u64, Form> = BTreeMap::new();
    for p in pr.a.v.iter().chain(&pr.b.v) {
        for x in p {
            forms.entry(x.to_bits()).or_insert_with(|| Form { bits: x.to_bits(), kind: if plain { 0 } else { work(5) }, k: work(6) });
        }
    }
    // numbers shared between all meshes of all threads
    let share = chance(2);
    let pool: BTreeMap<u64, T> = if share { forms.iter().map(|(k, f)| (*k, make::<T>(*f))).collect() } else { BTreeMap::new() };
    let heavy = T::NAME != "f64";
    let threads = if chance(if heavy { 4 } else { 2 }) { 2 } else { 1 };
    if threads > 1 {
        sim().max_slice = [64, 4096, 65536][work(3)];
    }
    let ctx = Arc::new((pr, forms, pool));
    for th in 0..threads {
        let c = ctx.clone();
        let ops: Vec<usize> = (0..1 + work(if heavy { 2 } else { 3 })).map(|_| work(3)).collect();
        let body = move || {
            let (pr, forms, pool) = &*c;
            let (a0, b0) = (build::<T>(&pr.a, forms, pool), build::<T>(&pr.b, forms, pool));
            for &op in &ops {
                let (mut a, mut b) = (a0.clone(), b0.clone());
                let r = guarded(|| T::boolean(&mut a, &mut b, op));
                let m = match r {
                    Ok(m) => m,
                    Err(e) => violated("panic", format!("{} {}: {e}", T::NAME, OPS[op])),
                };
                count(["op.union", "op.intersection", "op.difference"][op], 1);
                let (nf, nv) = (m.faces.len(), m.vertices.len());
                note(|| format!("thread {th}: {} gives {nf} faces, {nv} vertices", OPS[op]));
                mark((th * 8 + op) as u64, (nf as u64) << 20 | nv as u64);
                if let Some((class, e)) = wrong(&m, pr, op) {
                    violated(class, format!("{} {}: {e}", T::NAME, OPS[op]));
                }
                nontrivial();
                yield_now();
            }
        };
        if threads == 1 {
            body();
        } else {
            spawn(body);
        }
    }
    rt::join_all();
}

pub fn c08() {
    let k = [0, 0, 0, 0, 0, 0, 1, 2][work(8)];
    with_num!(k, go());
}
