//! Start meshes. Everything is drawn from the WORK tape.
use crate::inv::*;
use crate::num::*;
use rt::work;

/// A face list with positions: the plain model of a mesh.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Model {
    pub v: Vec<[f64; 3]>,
    pub f: Vec<Tri>,
}

impl Model {
    /// Oriented faces as corner positions (bit patterns), sorted.
    pub fn corners(&self) -> Vec<[[u64; 3]; 3]> {
        let mut o: Vec<_> = self.f.iter().map(|t| canon_pos(t.map(|i| self.v[i]))).collect();
        o.sort();
        o
    }
    pub fn canon_faces(&self) -> Vec<Tri> {
        let mut o: Vec<Tri> = self.f.iter().map(|t| canon(*t)).collect();
        o.sort();
        o
    }
}

pub fn bits(p: [f64; 3]) -> [u64; 3] {
    // -0.0 and 0.0 are the same coordinate
    p.map(|x| (x + 0.0).to_bits())
}

pub fn canon_pos(t: [[f64; 3]; 3]) -> [[u64; 3]; 3] {
    let b = t.map(bits);
    let r = [b, [b[1], b[2], b[0]], [b[2], b[0], b[1]]];
    *r.iter().min().unwrap()
}

/// Read a mesh into a model, live faces in storage order.
pub fn model_of<T: Num>(m: &M<T>) -> Result<Model, String> {
    let v = m.vertices.iter().map(|x| T::xyz(&x.position)).collect();
    let mut f = vec![];
    for i in 0..m.faces.len() {
        if !m.faces[i].removed {
            f.push(face_tri(m, i)?);
        }
    }
    Ok(Model { v, f })
}

pub fn build<T: Num>(d: &Model) -> M<T> {
    let mut m = T::new_mesh();
    for v in &d.v {
        T::add_vertex(&mut m, *v);
    }
    for f in &d.f {
        T::add_tri(&mut m, *f);
    }
    m
}

/// Octahedron, subdivided `k` times, slightly irregular.
pub fn sphere(k: usize) -> Model {
    let mut v: Vec<[f64; 3]> = vec![[1., 0., 0.], [-1., 0., 0.], [0., 1.1, 0.], [0., -1., 0.], [0., 0., 1.2], [0., 0., -1.]];
    let mut f: Vec<Tri> = vec![[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]];
    for _ in 0..k {
        let mut mp = std::collections::BTreeMap::new();
        let mut nf = vec![];
        for t in &f {
            let mut mid = |a: usize, b: usize| {
                *mp.entry((a.min(b), a.max(b))).or_insert_with(|| {
                    let q = [0, 1, 2].map(|i| (v[a][i] + v[b][i]) * 0.6);
                    v.push(q);
                    v.len() - 1
                })
            };
            let (x, y, z) = (mid(t[0], t[1]), mid(t[1], t[2]), mid(t[2], t[0]));
            nf.extend([[t[0], x, z], [x, t[1], y], [z, y, t[2]], [x, y, z]]);
        }
        f = nf;
    }
    Model { v, f }
}

pub fn torus(a: usize, b: usize) -> Model {
    let mut d = Model::default();
    for i in 0..a {
        for j in 0..b {
            let (u, w) = (i as f64 / a as f64 * std::f64::consts::TAU, j as f64 / b as f64 * std::f64::consts::TAU);
            // rounded to a coarse grid: libm results must not matter
            let q = |x: f64| (x * 64.0).round() / 64.0;
            d.v.push([q((3.0 + w.cos()) * u.cos()), q((3.0 + w.cos()) * u.sin()), q(w.sin())]);
        }
    }
    let id = |i: usize, j: usize| (i % a) * b + j % b;
    for i in 0..a {
        for j in 0..b {
            d.f.push([id(i, j), id(i + 1, j), id(i + 1, j + 1)]);
            d.f.push([id(i, j), id(i + 1, j + 1), id(i, j + 1)]);
        }
    }
    d
}

pub fn grid(a: usize, b: usize) -> Model {
    let mut d = Model::default();
    for i in 0..=a {
        for j in 0..=b {
            d.v.push([i as f64, j as f64, ((i * j) as f64) / 8.0]);
        }
    }
    let id = |i: usize, j: usize| i * (b + 1) + j;
    for i in 0..a {
        for j in 0..b {
            d.f.push([id(i, j), id(i + 1, j), id(i + 1, j + 1)]);
            d.f.push([id(i, j), id(i + 1, j + 1), id(i, j + 1)]);
        }
    }
    d
}

/// Open cylinder: two border loops.
pub fn tube(a: usize, b: usize) -> Model {
    let mut d = Model::default();
    for i in 0..a {
        for j in 0..=b {
            let u = i as f64 / a as f64 * std::f64::consts::TAU;
            let q = |x: f64| (x * 64.0).round() / 64.0;
            d.v.push([q(2.0 * u.cos()), q(2.0 * u.sin()), j as f64]);
        }
    }
    let id = |i: usize, j: usize| (i % a) * (b + 1) + j;
    for i in 0..a {
        for j in 0..b {
            d.f.push([id(i, j), id(i + 1, j), id(i + 1, j + 1)]);
            d.f.push([id(i, j), id(i + 1, j + 1), id(i, j + 1)]);
        }
    }
    d
}

pub const CUBE: [Tri; 12] = [[0, 2, 1], [0, 3, 2], [4, 5, 6], [4, 6, 7], [0, 1, 5], [0, 5, 4], [1, 2, 6], [1, 6, 5], [2, 3, 7], [2, 7, 6], [3, 0, 4], [3, 4, 7]];
pub const CORNERS: [[usize; 3]; 8] = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]];

pub fn cuboid(lo: [f64; 3], hi: [f64; 3]) -> Model {
    Model { v: CORNERS.iter().map(|c| [0, 1, 2].map(|k| if c[k] == 1 { hi[k] } else { lo[k] })).collect(), f: CUBE.to_vec() }
}

/// Double cone over a ring of `n`: two vertices with `n` neighbours.
pub fn spindle(n: usize) -> Model {
    let mut d = cone(n);
    d.v.push([0.0, 0.0, -1.0]);
    for i in 0..n {
        d.f.push([n + 1, (i + 1) % n, i]);
    }
    d
}

/// Open cone over a ring of `n`.
pub fn cone(n: usize) -> Model {
    let mut d = Model::default();
    for i in 0..n {
        let u = i as f64 / n as f64 * std::f64::consts::TAU;
        let q = |x: f64| (x * 64.0).round() / 64.0;
        d.v.push([q(2.0 * u.cos()), q(2.0 * u.sin()), 0.0]);
    }
    d.v.push([0.0, 0.0, 0.5]);
    for i in 0..n {
        d.f.push([n, i, (i + 1) % n]);
    }
    d
}

/// Closed or bordered small surface; `big` allows some hundred faces.
pub fn any(big: bool) -> Model {
    let d = match work(7) {
        0 => grid(1 + work(4), 1 + work(4)),
        1 => sphere(work(if big { 4 } else { 2 })),
        2 => cuboid([0.0; 3], [1.0 + work(3) as f64, 1.0 + work(3) as f64, 1.0 + work(3) as f64]),
        3 => torus(3 + work(4), 3 + work(4)),
        4 => tube(3 + work(5), 1 + work(4)),
        5 => {
            // crowded vertices
            let n = 3 + work([4, 10, 30][work(3)]);
            if work(2) == 0 { cone(n) } else { spindle(n) }
        }
        _ => {
            let n = if big { 14 } else { 4 };
            grid(1 + work(n), 1 + work(n))
        }
    };
    rt::note(|| format!("mesh with {} vertices, {} faces", d.v.len(), d.f.len()));
    d
}

/// Remove faces here and there while the rest stays manifold.
pub fn punch(d: &mut Model, n: usize) {
    for _ in 0..n {
        if d.f.len() < 2 {
            return;
        }
        let k = work(d.f.len());
        let mut r = d.f.clone();
        r.remove(k);
        if manifold(&r) {
            d.f = r;
        }
    }
}

/// Awkward but finite coordinates.
pub fn odd_coord() -> f64 {
    const POOL: [f64; 22] = [0.0, 1.0, -1.0, 0.1, -0.1, 1.0 / 3.0, 2.0 / 3.0, 1e-7, -1e-7, 123456.789, 1e10, -1e10, 1e16, 1.0000000000000002, 0.30000000000000004, 1e-300, 1e300, -1e300, 5e-324, 9007199254740993.0, 16777217.0, -0.0];
    match work(3) {
        0 => POOL[work(POOL.len())],
        1 => {
            let m = work(1 << 30) as f64 / 1024.0 - 524288.0;
            m / 3.0
        }
        _ => {
            // any finite bit pattern of moderate exponent
            let e = 1023 - 40 + work(80) as u64;
            let s = work(2) as u64;
            let m = (work(1 << 26) as u64) << 26 | work(1 << 26) as u64;
            f64::from_bits(s << 63 | e << 52 | m)
        }
    }
}
