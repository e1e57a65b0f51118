//! Independent structural checker for half-edge meshes.
//!
//! Works on the public fields only, so it judges the structure a caller can
//! see and does not depend on the crate's own `validate_connectivity`.
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::scalar::Scalar;
use std::collections::{BTreeMap, BTreeSet};

pub type Tri = [usize; 3];

/// Rotate so the smallest index comes first (orientation preserved).
pub fn canon(t: Tri) -> Tri {
    if t[0] <= t[1] && t[0] <= t[2] {
        t
    } else if t[1] <= t[0] && t[1] <= t[2] {
        [t[1], t[2], t[0]]
    } else {
        [t[2], t[0], t[1]]
    }
}

/// Vertex triple of a live face, or an explanation.
pub fn face_tri<T: Scalar, const N: usize>(m: &Mesh<T, N>, f: usize) -> Result<Tri, String> {
    let nh = m.half_edges.len();
    let h0 = m.faces[f].half_edge;
    if h0 >= nh {
        return Err(format!("face {f} has no half-edge"));
    }
    let h1 = m.half_edges[h0].next;
    if h1 >= nh {
        return Err(format!("face {f}: half-edge {h0} has no next"));
    }
    let h2 = m.half_edges[h1].next;
    if h2 >= nh || m.half_edges[h2].next != h0 {
        return Err(format!("face {f} is not a 3-cycle"));
    }
    Ok([m.half_edges[h2].vertex, m.half_edges[h0].vertex, m.half_edges[h1].vertex])
}

/// Live faces as canonical triples (multiset as sorted vector).
pub fn face_set<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> Result<Vec<Tri>, String> {
    let mut v = Vec::new();
    for f in 0..m.faces.len() {
        if !m.faces[f].removed {
            v.push(canon(face_tri(m, f)?));
        }
    }
    v.sort();
    Ok(v)
}

/// Structural check including that each vertex star is one fan. Returns (live faces, live edges, used vertices, border half-edges).
pub fn check<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> Result<(usize, usize, usize, usize), String> {
    check_opt(m, true)
}

/// `fans = false` accepts vertices where several fans meet (face lists that are
/// only a part of a surface).
pub fn check_opt<T: Scalar, const N: usize>(m: &Mesh<T, N>, fans: bool) -> Result<(usize, usize, usize, usize), String> {
    let nh = m.half_edges.len();
    let nv = m.vertices.len();
    let mut owner: BTreeMap<usize, usize> = BTreeMap::new();
    let mut used: BTreeSet<usize> = BTreeSet::new();
    let mut nf = 0;
    for f in 0..m.faces.len() {
        if m.faces[f].removed {
            continue;
        }
        nf += 1;
        let t = face_tri(m, f)?;
        if t[0] == t[1] || t[1] == t[2] || t[2] == t[0] {
            return Err(format!("face {f} repeats a vertex {t:?}"));
        }
        let mut h = m.faces[f].half_edge;
        for _ in 0..3 {
            let e = &m.half_edges[h];
            if e.removed {
                return Err(format!("live face {f} uses removed half-edge {h}"));
            }
            if e.face != Some(f) {
                return Err(format!("half-edge {h} of face {f} says face {:?}", e.face));
            }
            if m.half_edges[e.next].prev != h {
                return Err(format!("next/prev disagree at half-edge {h}"));
            }
            if let Some(o) = owner.insert(h, f) {
                return Err(format!("half-edge {h} belongs to faces {o} and {f}"));
            }
            if e.vertex >= nv || m.vertices[e.vertex].removed {
                return Err(format!("face {f} uses removed or missing vertex {}", e.vertex));
            }
            used.insert(e.vertex);
            h = e.next;
        }
    }
    let mut dir: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut border = 0;
    for h in 0..nh {
        let e = &m.half_edges[h];
        if e.removed {
            continue;
        }
        match e.face {
            Some(f) => {
                if f >= m.faces.len() || m.faces[f].removed {
                    return Err(format!("live half-edge {h} refers to removed face {f}"));
                }
                if !owner.contains_key(&h) {
                    return Err(format!("half-edge {h} claims face {f} but is not on its loop"));
                }
            }
            None => border += 1,
        }
        if e.twin >= nh || m.half_edges[e.twin].removed || m.half_edges[e.twin].twin != h || e.twin == h {
            return Err(format!("twin of half-edge {h} is not reciprocal"));
        }
        let src = m.half_edges[e.twin].vertex;
        if e.next >= nh || e.prev >= nh {
            return Err(format!("half-edge {h} has no next/prev"));
        }
        if m.half_edges[e.next].prev != h || m.half_edges[e.prev].next != h {
            return Err(format!("next/prev disagree at half-edge {h}"));
        }
        if m.half_edges[e.prev].vertex != src {
            return Err(format!("half-edge {h}: prev ends at {} but the twin says source {src}", m.half_edges[e.prev].vertex));
        }
        if m.half_edges[e.next].removed || m.half_edges[e.prev].removed {
            return Err(format!("half-edge {h} linked to a removed half-edge"));
        }
        if m.half_edges[e.next].face != e.face {
            return Err(format!("half-edge {h} and its next lie on different faces"));
        }
        if e.face.is_none() && m.half_edges[e.twin].face.is_none() {
            return Err(format!("edge {src}-{} has no face on either side", e.vertex));
        }
        if let Some(o) = dir.insert((src, e.vertex), h) {
            return Err(format!("directed edge {src}->{} owned by half-edges {o} and {h}", e.vertex));
        }
        match m.edge_map.get(&(src, e.vertex)) {
            Some(&x) if x == h => {}
            x => return Err(format!("edge_map[{src}->{}] = {x:?}, expected {h}", e.vertex)),
        }
    }
    if m.edge_map.len() != dir.len() {
        let mut stale: Vec<_> = m.edge_map.iter().filter(|(k, _)| !dir.contains_key(k)).map(|(k, _)| *k).collect();
        stale.sort();
        return Err(format!("edge_map keeps stale entries {stale:?}"));
    }
    let mut degree: BTreeMap<usize, usize> = BTreeMap::new();
    for &(s, _) in dir.keys() {
        *degree.entry(s).or_default() += 1;
    }
    for v in 0..nv {
        let x = &m.vertices[v];
        let deg = degree.get(&v).copied().unwrap_or(0);
        if x.removed {
            if deg > 0 {
                return Err(format!("removed vertex {v} still has edges"));
            }
            continue;
        }
        match x.half_edge {
            Some(h) => {
                if h >= nh || m.half_edges[h].removed {
                    return Err(format!("vertex {v} points at removed half-edge {h}"));
                }
                if m.half_edges[m.half_edges[h].twin].vertex != v {
                    return Err(format!("vertex {v} points at half-edge {h} that does not leave it"));
                }
                // one rotation must reach every edge (manifold vertex)
                let mut c = h;
                let mut n = 0;
                loop {
                    n += 1;
                    c = m.half_edges[m.half_edges[c].twin].next;
                    if c == h {
                        break;
                    }
                    if n > deg {
                        return Err(format!("rotation about vertex {v} does not close"));
                    }
                }
                if fans && n != deg {
                    return Err(format!("rotation about vertex {v} reaches {n} of {deg} edges"));
                }
            }
            None => {
                if deg > 0 {
                    return Err(format!("vertex {v} has edges but no half-edge"));
                }
            }
        }
    }
    Ok((nf, dir.len() / 2, used.len(), border))
}

/// True when every directed edge occurs once and each vertex star is one fan.
pub fn manifold(faces: &[Tri]) -> bool {
    let mut next: BTreeMap<usize, BTreeMap<usize, usize>> = BTreeMap::new();
    for t in faces {
        for k in 0..3 {
            let (v, a, b) = (t[k], t[(k + 1) % 3], t[(k + 2) % 3]);
            if v == a || a == b {
                return false;
            }
            // around v the fan goes from neighbour a to neighbour b
            if next.entry(v).or_default().insert(a, b).is_some() {
                return false;
            }
        }
    }
    // two faces on the same three vertices
    let mut keys: Vec<Tri> = faces.iter().map(|t| { let mut k = *t; k.sort(); k }).collect();
    keys.sort();
    if keys.windows(2).any(|w| w[0] == w[1]) {
        return false;
    }
    for fan in next.values() {
        let heads: BTreeSet<usize> = fan.values().copied().collect();
        if heads.len() != fan.len() {
            return false;
        }
        let starts: Vec<usize> = fan.keys().copied().filter(|a| !heads.contains(a)).collect();
        if starts.len() > 1 {
            return false;
        }
        let first = starts.first().copied().unwrap_or(*fan.keys().next().unwrap());
        let (mut c, mut n) = (first, 0);
        while let Some(&x) = fan.get(&c) {
            n += 1;
            c = x;
            if c == first {
                break;
            }
        }
        if n != fan.len() {
            return false;
        }
    }
    true
}
