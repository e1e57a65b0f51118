//! Operations whose diagnostics cannot be written (C13).
use crate::boolean::{boxed, pair, Frame, Pair};
use crate::gen_mesh::*;
use crate::inv::*;
use crate::num::*;
use crate::with_num;
use rt::fs::*;
use rt::{chance, count, fault, guarded, mark, nontrivial, note, sim, spawn, violated, work};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::{Arc, Mutex};

enum Job {
    /// Set operations on boxes.
    Sets(Pair, Vec<usize>),
    /// Triangulations whose prescribed edges may cross.
    Plane(Vec<Vec<[f64; 2]>>, Vec<Vec<[usize; 2]>>, usize),
    /// Edits and queries, legal or not.
    Edits(Model, Vec<(usize, [usize; 4])>),
    /// A file with arbitrary faces.
    File(Fmt, Vec<u8>),
    /// Remeshing.
    Remesh(Model, f64, usize),
}

fn dump<T: Num>(o: &mut String, m: &M<T>) {
    for v in &m.vertices {
        let _ = write!(o, "{:?} ", [0, 1, 2].map(|k| T::coord(&v.position, k).rat()));
    }
    for f in 0..m.faces.len() {
        let _ = if m.faces[f].removed { write!(o, "- ") } else { write!(o, "{:?} ", face_tri(m, f)) };
    }
    for h in &m.half_edges {
        let _ = write!(o, "{} {} {} {:?} {};", h.vertex, h.twin, h.next, h.face, h.removed);
    }
}

/// Carry out the job; what the caller gets to see.
fn perform<T: Num>(j: &Job) -> Vec<String> {
    let mut out = vec![];
    match j {
        Job::Sets(pr, ops) => {
            for &op in ops {
                let (mut a, mut b) = (fill::<T>(&pr.a), fill::<T>(&pr.b));
                let r = guarded(|| T::boolean(&mut a, &mut b, op));
                let mut s = format!("set operation {op}: ");
                match r {
                    Ok(m) => dump(&mut s, &m),
                    Err(e) => s += &e,
                }
                out.push(s);
            }
        }
        Job::Plane(p, seg, kind) => {
            let p: Vec<Vec<[T; 2]>> = p.iter().map(|p| p.iter().map(|q| q.map(T::of)).collect()).collect();
            if *kind == 0 {
                out.push(format!("batch: {:?}", guarded(|| T::cdt_batch(&p, seg))));
            } else {
                for (p, s) in p.iter().zip(seg) {
                    out.push(format!("triangulation: {:?}", guarded(|| if *kind == 1 { T::cdt(p, s) } else { T::delaunay(p) })));
                }
            }
        }
        Job::Edits(d, ops) => {
            let mut m = fill::<T>(d);
            let mut t = T::tree(&m);
            for (k, a) in ops {
                let (nv, nf, nh) = (m.vertices.len(), m.faces.len(), m.half_edges.len());
                let f = a[0] % nf;
                let r = guarded(|| {
                    let live = !m.faces[f].removed;
                    match k {
                        0 => format!("add_triangle {}", T::add_tri(&mut m, [a[0] % nv, a[1] % nv, a[2] % nv])),
                        1 if live => format!("ray in triangle {:?}", T::ray_in_tri(&m, f, face_tri(&m, f).map(|t| t[a[1] % 3]).unwrap_or(0), dir(a), a[3] % 2 == 0)),
                        2 if live => {
                            T::remove_tri(&mut m, f);
                            "remove_triangle".into()
                        }
                        3 if !m.half_edges[a[0] % nh].removed => format!("flip {:?}", T::flip(&mut m, a[0] % nh)),
                        4 if live => {
                            let c = T::pt_of(T::centroid(&m, f));
                            format!("split_face {:?}", T::split_face(&mut m, &mut t, f, &c, true).map(|r| r.vertex))
                        }
                        5 => format!("collapse {:?}", T::collapse(&mut m, a[0] % nv, a[1] % nv)),
                        6 => format!("ray {:?}", T::ray(&m, &t, &T::pt([a[0] as f64 * 0.0713 - 1.0, a[1] as f64 * 0.0639 - 1.0, -2.0]), &T::pt(dir(a)))),
                        7 => format!("inside {:?}", T::point_in(&m, &t, &T::pt([a[0] as f64 * 0.0713, a[1] as f64 * 0.0639, a[2] as f64 * 0.0551]))),
                        8 => format!("lookup {:?}", T::get_or_insert(&mut m, &T::pt([(a[0] % 3) as f64, (a[1] % 3) as f64, (a[2] % 2) as f64]))),
                        9 => format!("duplicates {}", T::dedup(&mut m)),
                        // the walk around a vertex needs a closed surface
                        10 if check(&m).is_ok_and(|s| s.3 == 0) && m.vertices[a[0] % nv].half_edge.is_some() => format!("ring {:?} {}", T::one_ring(&m, a[0] % nv), T::border_vertex(&m, a[0] % nv)),
                        _ => String::new(),
                    }
                });
                let stop = r.is_err();
                out.push(format!("{r:?}"));
                if stop {
                    break;
                }
            }
            let mut s = "mesh: ".to_string();
            dump(&mut s, &m);
            out.push(s);
        }
        Job::File(fmt, data) => {
            sim().fs.put("/simfs/in", data.clone());
            let mut s = "load: ".to_string();
            match guarded(|| T::load(*fmt, "/simfs/in")) {
                Ok(Ok(m)) => {
                    dump(&mut s, &m);
                    out.push(s);
                    s = format!("save: {:?} ", guarded(|| T::save(*fmt, &m, "/simfs/out").map_err(|e| e.kind())));
                    let _ = write!(s, "{:?}", sim().fs.get("/simfs/out"));
                }
                Ok(Err(e)) => s += &e.to_string(),
                Err(e) => s += &e,
            }
            out.push(s);
        }
        Job::Remesh(d, target, n) => {
            let mut m = fill::<T>(d);
            let mut s = format!("remesh {:?}: ", guarded(|| T::remesh(&mut m, *target, *n)));
            dump(&mut s, &m);
            out.push(s);
        }
    }
    out
}

fn dir(a: &[usize; 4]) -> [f64; 3] {
    [0, 1, 2].map(|k| (a[(k + 1) % 4] % 7) as f64 - 3.0)
}

fn fill<T: Num>(d: &Model) -> M<T> {
    let mut m = T::new_mesh();
    for p in &d.v {
        T::add_vertex(&mut m, *p);
    }
    for t in &d.f {
        T::add_tri(&mut m, *t);
    }
    m
}

fn draw(exact: bool) -> Job {
    match work(6) {
        0 | 1 => {
            let fr = Frame::draw();
            let d = match work(4) {
                0 => boxed([0.0; 3], [2.0, 1.0, 1.0], &fr),
                1 => grid(1 + work(3), 1 + work(3)),
                2 => tube(3 + work(3), 1 + work(2)),
                _ => torus(3 + work(2), 3 + work(2)),
            };
            let ops = (0..1 + work(10)).map(|_| (work(11), [0, 1, 2, 3].map(|_| work(64)))).collect();
            Job::Edits(d, ops)
        }
        2 => {
            let n = 1 + work(3);
            let p: Vec<Vec<[f64; 2]>> = (0..n)
                .map(|_| {
                    let mut p: Vec<[f64; 2]> = vec![];
                    for _ in 0..3 + work(8) {
                        let q = [work(9) as f64, work(9) as f64];
                        if !p.contains(&q) {
                            p.push(q);
                        }
                    }
                    p
                })
                .collect();
            let seg = p.iter().map(|p| (0..work(7)).map(|_| [work(p.len()), work(p.len())]).filter(|s| s[0] != s[1]).collect()).collect();
            Job::Plane(p, seg, work(3))
        }
        3 => {
            let d = grid(1 + work(2), 1 + work(2));
            let mut s = String::new();
            let off = chance(2);
            let extra: Vec<[usize; 3]> = (0..work(4)).map(|_| [0, 1, 2].map(|_| work(d.v.len()))).collect();
            let f: Vec<[usize; 3]> = d.f.iter().copied().chain(extra).collect();
            if off {
                let _ = writeln!(s, "OFF\n{} {} 0", d.v.len(), f.len());
            }
            for v in &d.v {
                let _ = writeln!(s, "{}{} {} {}", if off { "" } else { "v " }, v[0], v[1], v[2]);
            }
            for t in &f {
                let _ = if off { writeln!(s, "3 {} {} {}", t[0], t[1], t[2]) } else { writeln!(s, "f {} {} {}", t[0] + 1, t[1] + 1, t[2] + 1) };
            }
            Job::File(if off { Fmt::Off } else { Fmt::Obj }, s.into_bytes())
        }
        4 if !exact => Job::Remesh(grid(1 + work(3), 1 + work(3)), [1.0, 0.7, 1.6][work(3)], 1 + work(2)),
        _ => Job::Sets(pair(), (0..1 + work(2)).map(|_| work(3)).collect()),
    }
}

fn go<T: Num>() {
    let job = Arc::new(draw(T::NAME != "f64"));
    let seed = sim().draw(rt::HASH, 0);
    let run = |j: Arc<Job>| {
        // same hash seeds each time, so that only the console differs
        sim().hash_fixed = Some(seed);
        let out = Arc::new(Mutex::new(vec![]));
        let o = out.clone();
        spawn(move || {
            let r = perform::<T>(&j);
            *o.lock().unwrap() = r;
        });
        rt::join_all();
        sim().hash_fixed = None;
        let r = std::mem::take(&mut *out.lock().unwrap());
        r
    };
    // nothing left over from before
    let _ = std::io::stdout().flush();
    let want = run(job.clone());
    let calls = sim().fs.con_calls;
    count("op.console_messages", calls);
    count(
        match &*job {
            Job::Sets(..) => "op.set_operations",
            Job::Plane(..) => "op.triangulations",
            Job::Edits(..) => "op.edits",
            Job::File(..) => "op.file",
            Job::Remesh(..) => "op.remesh",
        },
        1,
    );
    let hard = [F_EPIPE, F_ENOSPC, F_EIO, F_EAGAIN, F_EBADF, F_ZERO];
    let fs = &mut sim().fs;
    fs.con_mask = match fault(8) {
        0 => F_EPIPE,
        1 => F_ENOSPC,
        2 => F_EIO,
        3 => F_EINTR | F_SHORT,
        4 => F_EBADF | F_EAGAIN,
        5 => F_ZERO | F_SHORT,
        _ => hard.iter().fold(F_EINTR | F_SHORT, |a, b| a | b),
    };
    fs.con_rate = [2, 3, 8, 30][fault(4)];
    fs.con_stick = fault(2) == 1;
    let before = sim().faults;
    let got = run(job.clone());
    sim().fs.no_faults();
    let _ = std::io::stdout().flush();
    if sim().faults > before {
        nontrivial();
    }
    for (i, (w, g)) in want.iter().zip(&got).enumerate() {
        if w != g {
            let cut = |s: &str| s.chars().take(160).collect::<String>();
            violated("console", format!("{} step {i} with a failing console: {} -- with a working one: {}", T::NAME, cut(g), cut(w)));
        }
    }
    if want.len() != got.len() {
        violated("console", format!("{} steps with a failing console, {} with a working one", got.len(), want.len()));
    }
    note(|| format!("{}: {} steps, {calls} messages", T::NAME, want.len()));
    mark(want.len() as u64, want.iter().fold(0, |a, s| a ^ rt::fnv(s.as_bytes())));
}

pub fn c13() {
    let k = [0, 0, 0, 1, 2][work(5)];
    with_num!(k, go());
}
