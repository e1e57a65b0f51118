//! Saving and loading under disk faults (C03 - C07).
use crate::gen_mesh::*;
use crate::inv::*;
use crate::num::*;
use crate::with_num;
use rt::fs::*;
use rt::{chance, count, fault, mark, nontrivial, note, sim, violated, work};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

const FMTS: [Fmt; 3] = [Fmt::Obj, Fmt::Off, Fmt::Stl];

/// A mesh for I/O: drawn shape, awkward coordinates, removed faces and loose
/// vertices, faces stored in a drawn order.
fn io_model(big: bool) -> Model {
    let mut d = if chance(12) { Model::default() } else { any(big) };
    let n = work(4) * work(3);
    punch(&mut d, n);
    if chance(3) {
        // shuffle the face order
        for i in (1..d.f.len()).rev() {
            let j = work(i + 1);
            d.f.swap(i, j);
        }
    }
    for f in d.f.iter_mut() {
        if chance(3) {
            f.rotate_left(1);
        }
    }
    match work(3) {
        0 => {}
        1 => {
            for v in d.v.iter_mut() {
                for c in v.iter_mut() {
                    if chance(3) {
                        *c = odd_coord();
                    }
                }
            }
        }
        _ => {
            let s = [0.1, 1.0 / 3.0, 1e-5, 1e5, 7.0][work(5)];
            for v in d.v.iter_mut() {
                for c in v.iter_mut() {
                    *c = *c * s + 0.01;
                }
            }
        }
    }
    for _ in 0..work(3) {
        let p = [odd_coord(), odd_coord(), odd_coord()];
        d.v.push(p);
    }
    d
}

/// Build through an edit history that leaves removed faces and vertices behind.
fn io_mesh<T: Num>(d: &Model) -> (M<T>, Model) {
    let mut m = build::<T>(d);
    for _ in 0..work(3) {
        let live: Vec<usize> = (0..m.faces.len()).filter(|&f| !m.faces[f].removed).collect();
        if live.len() < 2 {
            break;
        }
        let f = live[work(live.len())];
        let t = canon(face_tri(&m, f).unwrap_or([0; 3]));
        let rest: Vec<Tri> = face_set(&m).unwrap_or_default().into_iter().filter(|x| *x != t).collect();
        if manifold(&rest) {
            T::remove_tri(&mut m, f);
        }
    }
    let got = match model_of(&m) {
        Ok(x) => x,
        Err(e) => violated("mesh-damaged", e),
    };
    (m, got)
}

/// As `io_mesh`, in some runs with vertices that collapses have removed.
fn worn_mesh<T: Num>(d: &Model) -> (M<T>, Model) {
    let (mut m, mut want) = io_mesh::<T>(d);
    if !chance(3) || want.f.is_empty() || want.v.iter().flatten().any(|x| x.abs() > 1e6 || (*x != 0.0 && x.abs() < 1e-6)) {
        return (m, want);
    }
    for _ in 0..1 + work(4) {
        let (a, b) = match model_of(&m) {
            Ok(d) if !d.f.is_empty() => { let t = d.f[work(d.f.len())]; (t[0], t[1]) }
            _ => break,
        };
        if T::collapse(&mut m, a, b).is_ok() {
            count("op.collapse", 1);
        }
    }
    want = match model_of(&m) {
        Ok(x) => x,
        Err(e) => violated("mesh-damaged", e),
    };
    // a removed vertex may or may not be stored
    if let Some(v) = want.f.first().map(|t| want.v[t[0]]) {
        for i in 0..want.v.len() {
            if m.vertices[i].removed {
                want.v[i] = v;
            }
        }
    }
    (m, want)
}

// ---- independent readers and writers of the three formats ----

fn parse(fmt: Fmt, b: &[u8]) -> Result<Model, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not text")?;
    let num = |t: Option<&str>| -> Result<f64, String> { t.ok_or("missing number")?.parse::<f64>().map_err(|_| format!("bad number {t:?}")) };
    let idx = |t: Option<&str>| -> Result<usize, String> { t.ok_or("missing index")?.parse::<usize>().map_err(|_| format!("bad index {t:?}")) };
    let mut d = Model::default();
    match fmt {
        Fmt::Obj => {
            for l in s.lines() {
                let mut it = l.split_whitespace();
                match it.next() {
                    Some("v") => d.v.push([num(it.next())?, num(it.next())?, num(it.next())?]),
                    Some("f") => {
                        let mut t = [0; 3];
                        for x in t.iter_mut() {
                            *x = idx(it.next().and_then(|q| q.split('/').next()))?.checked_sub(1).ok_or("index 0")?;
                        }
                        if it.next().is_some() {
                            return Err("face with more than 3 corners".into());
                        }
                        d.f.push(t);
                    }
                    _ => {}
                }
            }
        }
        Fmt::Off => {
            let mut it = s.lines().map(|l| l.split('#').next().unwrap()).flat_map(|l| l.split_whitespace());
            if it.next() != Some("OFF") {
                return Err("no OFF header".into());
            }
            let (nv, nf) = (idx(it.next())?, idx(it.next())?);
            idx(it.next())?;
            for _ in 0..nv {
                d.v.push([num(it.next())?, num(it.next())?, num(it.next())?]);
            }
            for _ in 0..nf {
                if idx(it.next())? != 3 {
                    return Err("face is not a triangle".into());
                }
                d.f.push([idx(it.next())?, idx(it.next())?, idx(it.next())?]);
            }
            if it.next().is_some() {
                return Err("data after the last face".into());
            }
        }
        Fmt::Stl => {
            let mut cur = vec![];
            let mut ended = false;
            for l in s.lines() {
                let mut it = l.split_whitespace();
                if ended && !l.trim().is_empty() {
                    return Err("data after endsolid".into());
                }
                match it.next() {
                    Some("facet") => cur.clear(),
                    Some("vertex") => {
                        cur.push(d.v.len());
                        d.v.push([num(it.next())?, num(it.next())?, num(it.next())?]);
                    }
                    Some("endfacet") => {
                        if cur.len() != 3 {
                            return Err("facet without 3 vertices".into());
                        }
                        d.f.push([cur[0], cur[1], cur[2]]);
                    }
                    Some("endsolid") => ended = true,
                    _ => {}
                }
            }
            if !ended {
                return Err("no endsolid".into());
            }
        }
    }
    for t in &d.f {
        if t.iter().any(|&i| i >= d.v.len()) {
            return Err(format!("face {t:?} refers to a missing vertex"));
        }
    }
    Ok(d)
}

/// Does the file hold the mesh?
fn holds(fmt: Fmt, b: &[u8], want: &Model) -> Result<(), String> {
    let got = parse(fmt, b)?;
    if got.corners() != want.corners() {
        return Err(format!("file has {} faces that differ from the {} of the mesh", got.f.len(), want.f.len()));
    }
    if fmt != Fmt::Stl {
        // every vertex used by a face is stored once per mesh vertex, and loose
        // positions are there as well
        let used = |d: &Model| d.f.iter().flatten().collect::<std::collections::BTreeSet<_>>().len();
        if used(&got) != used(want) {
            return Err(format!("faces use {} vertices in the file, {} in the mesh", used(&got), used(want)));
        }
        let have: std::collections::BTreeSet<[u64; 3]> = got.v.iter().map(|p| bits(*p)).collect();
        if let Some(p) = want.v.iter().find(|p| !have.contains(&bits(**p))) {
            return Err(format!("vertex {p:?} is missing in the file"));
        }
    }
    Ok(())
}

fn print_num(x: f64, style: usize) -> String {
    match style {
        0 => format!("{x:?}"),
        1 => format!("{x}"),
        2 => format!("{x:e}"),
        _ => format!("{x:+e}"),
    }
}

/// Write as other programs would: comments, blank lines, other layouts.
fn foreign(fmt: Fmt, d: &Model) -> Vec<u8> {
    let style = work(4);
    let nl = if chance(3) { "\r\n" } else { "\n" };
    let noise = work(3);
    let mut o = String::new();
    let num3 = |p: [f64; 3]| p.map(|x| print_num(x, style));
    let pad = |o: &mut String| {
        if noise > 0 && chance(4) {
            match work(3) {
                0 => o.push_str(nl),
                1 => o.push_str(&format!("# note{nl}")),
                _ => o.push_str(&format!("   {nl}")),
            }
        }
    };
    match fmt {
        Fmt::Obj => {
            if noise > 1 {
                o.push_str(&format!("o thing{nl}mtllib a.mtl{nl}"));
            }
            for v in &d.v {
                pad(&mut o);
                let n = num3(*v);
                let sep = if chance(8) { "  " } else { " " };
                o.push_str(&format!("v {}{sep}{}{sep}{}{nl}", n[0], n[1], n[2]));
                if noise > 1 && chance(6) {
                    o.push_str(&format!("vn 0 0 1{nl}vt 0.5 0.5{nl}"));
                }
            }
            if noise > 1 {
                o.push_str(&format!("s off{nl}"));
            }
            for f in &d.f {
                pad(&mut o);
                o.push_str(&format!("f {} {} {}{nl}", f[0] + 1, f[1] + 1, f[2] + 1));
            }
        }
        Fmt::Off => {
            if chance(4) {
                o.push_str(&format!("# header{nl}"));
            }
            let sep = if chance(4) { " " } else { nl };
            // elements that are not triangles are skipped
            let mut extra = if !d.v.is_empty() && chance(6) { 1 + work(4) } else { 0 };
            o.push_str(&format!("OFF{sep}{} {} {}{nl}", d.v.len(), d.f.len() + extra, if chance(2) { d.f.len() * 3 / 2 } else { 0 }));
            for v in &d.v {
                pad(&mut o);
                let n = num3(*v);
                o.push_str(&format!("{} {} {}{}{nl}", n[0], n[1], n[2], if noise > 1 && chance(5) { " # v" } else { "" }));
            }
            let mut other = |o: &mut String, all: bool| {
                while extra > 0 && (all || chance(3)) {
                    extra -= 1;
                    let n = [2, 4, 1, 5][work(4)];
                    o.push_str(&n.to_string());
                    for _ in 0..n {
                        o.push_str(&format!(" {}", work(d.v.len())));
                    }
                    o.push_str(nl);
                }
            };
            for f in &d.f {
                pad(&mut o);
                other(&mut o, false);
                o.push_str(&format!("3 {} {} {}{nl}", f[0], f[1], f[2]));
            }
            other(&mut o, true);
        }
        Fmt::Stl => {
            o.push_str(&format!("solid {}{nl}", if chance(2) { "" } else { "part one" }));
            let ind = ["", "  ", "\t"][work(3)];
            for f in &d.f {
                o.push_str(&format!("{ind}facet normal 0 0 {}{nl}{ind}outer loop{nl}", work(2)));
                for &i in f {
                    let n = num3(d.v[i]);
                    o.push_str(&format!("{ind}{ind}vertex {} {} {}{nl}", n[0], n[1], n[2]));
                }
                o.push_str(&format!("{ind}endloop{nl}{ind}endfacet{nl}"));
            }
            o.push_str(&format!("endsolid{nl}"));
        }
    }
    if chance(4) {
        while o.ends_with('\n') || o.ends_with('\r') {
            o.pop();
        }
    }
    o.into_bytes()
}

fn same_loaded<T: Num>(fmt: Fmt, m: &M<T>, want: &Model, class: &str) {
    let got = match model_of(m) {
        Ok(g) => g,
        Err(e) => violated(class, format!("loaded mesh is damaged: {e}")),
    };
    if let Err(e) = check(m) {
        violated(class, format!("loaded mesh is damaged: {e}"));
    }
    if got.corners() != want.corners() {
        violated(class, format!("loaded {} faces differ from the {} stored", got.f.len(), want.f.len()));
    }
    if fmt == Fmt::Stl {
        return;
    }
    let have: Vec<[u64; 3]> = got.v.iter().map(|p| bits(*p)).collect();
    if have != want.v.iter().map(|p| bits(*p)).collect::<Vec<_>>() {
        violated(class, format!("loaded {} vertices differ from the {} stored", got.v.len(), want.v.len()));
    }
    if got.canon_faces() != want.canon_faces() {
        violated(class, "loaded faces connect other vertices".into());
    }
}

fn no_open_fds(what: &str) {
    let s = sim();
    if let Some((_, f)) = s.fs.fds.iter().next() {
        let p = f.path.clone();
        violated("descriptor-leak", format!("{what} returned but {p} is still open"));
    }
}

fn draw_rate() -> u64 {
    [1, 2, 4, 8, 20][work(5)]
}

// ---------------------------------------------------------------- C03

pub fn c03() {
    with_num!(num_kind(), c03_t())
}

/// Mostly f64, which is cheap and exercises the same I/O code.
fn num_kind() -> usize {
    [0, 0, 0, 0, 1, 2][work(6)]
}

fn c03_t<T: Num>() {
    let fmt = FMTS[work(3)];
    let (m, want) = worn_mesh::<T>(&io_model(true));
    let path = "/simfs/out.mesh";
    let stale = work(3);
    if stale > 0 {
        let mut old = vec![];
        let n = [300, 60_000][stale - 1];
        while old.len() < n {
            old.extend_from_slice(b"v 9.0 9.0 9.0\nf 1 2 3\n9 9 9\nvertex 1 2 3\nendfacet\n");
        }
        sim().fs.put(path, old);
    }
    let cfg = work(4);
    {
        let s = sim();
        match cfg {
            0 => {}
            1 => {
                s.fs.mask = [F_EIO, F_ENOSPC, F_ZERO, F_EAGAIN, F_OPEN][work(5)];
                s.fs.rate = [2, 4, 8, 20][work(4)];
            }
            2 => {
                s.fs.mask = F_EIO | F_ENOSPC | F_ZERO | F_EINTR | F_SHORT | F_OPEN | F_EAGAIN;
                s.fs.rate = draw_rate();
            }
            _ => {
                // the disk fills up somewhere in this file
                let size = want.v.len() * 40 + want.f.len() * if fmt == Fmt::Stl { 200 } else { 16 } + 40;
                s.fs.capacity = 1 + work(size);
                if chance(2) {
                    s.fs.mask = F_EINTR | F_SHORT;
                    s.fs.rate = draw_rate();
                }
            }
        }
    }
    note(|| format!("save {fmt:?} {} ({} vertices, {} faces), config {cfg}", T::NAME, want.v.len(), want.f.len()));
    let again = 1 + work(2);
    for round in 0..again {
        let before = (sim().fs.hard, sim().faults);
        let r = T::save(fmt, &m, path);
        let s = sim();
        let hard = s.fs.hard > before.0;
        if s.faults > before.1 {
            nontrivial();
        }
        count(if r.is_ok() { "op.save_ok" } else { "op.save_err" }, 1);
        mark(1, r.is_ok() as u64);
        note(|| format!("save {round} returned {:?}", r.as_ref().map_err(|e| e.kind())));
        no_open_fds("save");
        let disk = s.fs.get(path).map(|b| b.to_vec());
        mark(1, rt::fnv(disk.as_deref().unwrap_or(&[])));
        match r {
            Ok(()) => {
                let Some(b) = disk else { violated("success-without-file", "save returned Ok but there is no file".into()) };
                if let Err(e) = holds(fmt, &b, &want) {
                    violated("success-but-wrong-file", format!("save returned Ok but {e} (permanent fault injected: {hard})"));
                }
                count("check.file_complete", 1);
            }
            Err(e) => {
                if !hard {
                    violated("spurious-error", format!("save failed with {e} on a healthy disk"));
                }
                count("check.error_reported", 1);
            }
        }
        if cfg == 0 {
            nontrivial();
        }
        // healthy again for the retry
        if round + 1 < again {
            s.fs.no_faults();
        }
    }
}

// ---------------------------------------------------------------- C04

pub fn c04() {
    with_num!(num_kind(), c04_t())
}

fn c04_t<T: Num>() {
    let fmt = FMTS[work(3)];
    let want = io_model(true);
    let path = "/simfs/in.mesh";
    let bytes = if chance(3) {
        // as the library itself stores it
        let m = build::<T>(&want);
        match T::save(fmt, &m, path) {
            Ok(()) => sim().fs.get(path).unwrap_or(&[]).to_vec(),
            Err(e) => violated("spurious-error", format!("save failed with {e} on a healthy disk")),
        }
    } else {
        foreign(fmt, &want)
    };
    let len = bytes.len();
    mark(2, rt::fnv(&bytes));
    sim().fs.put(path, bytes);
    let cfg = work(4);
    {
        let s = sim();
        match cfg {
            0 => {}
            1 => {
                s.fs.mask = F_EIO;
                s.fs.rate = [1, 2, 4, 10][work(4)];
            }
            2 => {
                s.fs.mask = [F_OPEN, F_EAGAIN][work(2)] | F_EIO;
                s.fs.rate = [2, 4, 10][work(3)];
            }
            _ => {
                s.fs.mask = F_EIO | F_EINTR | F_SHORT;
                s.fs.rate = [2, 4, 10, 30][work(4)];
            }
        }
    }
    note(|| format!("load {fmt:?} {} file of {len} bytes, config {cfg}", T::NAME));
    for round in 0..1 + work(2) {
        let before = (sim().fs.hard, sim().faults);
        let r = T::load(fmt, path);
        let s = sim();
        let hard = s.fs.hard > before.0;
        if s.faults > before.1 || cfg == 0 {
            nontrivial();
        }
        count(if r.is_ok() { "op.load_ok" } else { "op.load_err" }, 1);
        mark(2, r.is_ok() as u64);
        note(|| format!("load {round} returned {}", r.is_ok()));
        no_open_fds("load");
        match r {
            Ok(m) => {
                same_loaded(fmt, &m, &want, if hard { "error-swallowed" } else { "wrong-mesh" });
                count("check.mesh_equal", 1);
            }
            Err(e) => {
                if !hard {
                    violated("spurious-error", format!("load failed with {e} though every byte was delivered"));
                }
                count("check.error_reported", 1);
            }
        }
        sim().fs.no_faults();
    }
}

// ---------------------------------------------------------------- C05

pub fn c05() {
    with_num!(num_kind(), c05_t())
}

fn c05_t<T: Num>() {
    let fmt = FMTS[work(3)];
    let (m, want) = io_mesh::<T>(&io_model(true));
    let (calm, rough) = ("/simfs/calm", "/simfs/rough");
    if let Err(e) = T::save(fmt, &m, calm) {
        violated("spurious-error", format!("save failed with {e} on a healthy disk"));
    }
    let a = sim().fs.get(calm).unwrap_or(&[]).to_vec();
    {
        let s = sim();
        s.fs.mask = [F_SHORT, F_EINTR, F_SHORT | F_EINTR][work(3)];
        s.fs.rate = [1, 1, 2, 4, 16][work(5)];
    }
    note(|| format!("{fmt:?} {} file of {} bytes", T::NAME, a.len()));
    if let Err(e) = T::save(fmt, &m, rough) {
        violated("interruption-visible", format!("save failed with {e} although the device only interrupted or shortened transfers"));
    }
    no_open_fds("save");
    let b = sim().fs.get(rough).unwrap_or(&[]).to_vec();
    if a != b {
        violated("interruption-visible", format!("file differs from the undisturbed one ({} and {} bytes)", b.len(), a.len()));
    }
    count("check.same_bytes", 1);
    let r = T::load(fmt, rough);
    no_open_fds("load");
    let soft = sim().fs.soft;
    if soft > 0 {
        nontrivial();
    }
    mark(3, soft);
    mark(3, rt::fnv(&a));
    sim().fs.no_faults();
    let q = T::load(fmt, calm);
    match (q, r) {
        (Ok(x), Ok(y)) => {
            let (x, y) = (model_of(&x), model_of(&y));
            if x != y || x.is_err() {
                violated("interruption-visible", "loaded mesh differs from the undisturbed one".into());
            }
            if x.unwrap().corners() != want.corners() {
                violated("wrong-mesh", "the mesh read back is not the one saved".into());
            }
            count("check.same_mesh", 1);
        }
        (Err(e), _) => violated("spurious-error", format!("load failed with {e} on a healthy disk")),
        (_, Err(e)) => violated("interruption-visible", format!("load failed with {e} although the device only interrupted or shortened transfers")),
    }
}

// ---------------------------------------------------------------- C06

pub fn c06() {
    with_num!(num_kind(), c06_t())
}

fn c06_t<T: Num>() {
    let fmt = FMTS[work(3)];
    let (m, want) = io_mesh::<T>(&io_model(chance(2)));
    let path = "/simfs/x";
    let save = |m: &M<T>| -> Vec<u8> {
        if let Err(e) = T::save(fmt, m, path) {
            violated("spurious-error", format!("save failed with {e} on a healthy disk"));
        }
        sim().fs.get(path).unwrap_or(&[]).to_vec()
    };
    let mut img = save(&m);
    let full = match parse(fmt, &img) {
        Ok(d) => d,
        Err(e) => violated("success-but-wrong-file", e),
    };
    let kind = fault(6);
    let mut prefix = kind == 0 || kind == 1;
    match kind {
        0 | 1 => {
            // the tail never reached the disk
            let cut = fault(img.len() + 1);
            img.truncate(img.len() - cut.min(img.len()));
            count("fault.lost_tail", 1);
        }
        2 => {
            let sec = [16, 64, 512][fault(3)];
            for c in img.chunks_mut(sec) {
                if fault(5) == 1 {
                    c.fill(0);
                    count("fault.zeroed_sector", 1);
                }
            }
        }
        3 => {
            // sectors of an older file show through
            let (m2, _) = io_mesh::<T>(&io_model(false));
            let old = save(&m2);
            let sec = [16, 64, 512][fault(3)];
            let n = img.len();
            for i in (0..n).step_by(sec) {
                if fault(4) == 1 {
                    for j in i..(i + sec).min(n) {
                        img[j] = *old.get(j).unwrap_or(&b'\n');
                    }
                    count("fault.stale_sector", 1);
                }
            }
            if fault(2) == 1 && old.len() > n {
                img.extend_from_slice(&old[n..]);
                count("fault.stale_tail", 1);
            }
        }
        4 => {
            // a sector is missing or doubled
            let sec = [16, 64, 512][fault(3)];
            if !img.is_empty() {
                let a = fault(img.len());
                let b = (a + sec).min(img.len());
                if fault(2) == 0 {
                    img.drain(a..b);
                    count("fault.missing_sector", 1);
                } else {
                    let c = img[a..b].to_vec();
                    img.splice(a..a, c);
                    count("fault.doubled_sector", 1);
                }
            }
        }
        _ => {
            for _ in 0..1 + fault(4) {
                if !img.is_empty() {
                    let a = fault(img.len());
                    img[a] = match fault(4) {
                        0 => b'0' + fault(10) as u8,
                        1 => b' ',
                        2 => b'\n',
                        _ => fault(256) as u8,
                    };
                    count("fault.changed_byte", 1);
                }
            }
        }
    }
    sim().faults += 1;
    nontrivial();
    mark(kind as u64 + 16, rt::fnv(&img));
    prefix = prefix && want.corners() == full.corners();
    let len = img.len();
    note(|| format!("{fmt:?} {} image kind {kind}, {len} bytes", T::NAME));
    sim().fs.put(path, img);
    let r = T::load(fmt, path);
    no_open_fds("load");
    mark(4, r.is_ok() as u64);
    let Ok(got) = r else {
        count("op.load_err", 1);
        return;
    };
    count("op.load_ok", 1);
    if let Err(e) = check_opt(&got, false) {
        violated("unsound-mesh", format!("damaged file was accepted as a broken mesh: {e}"));
    }
    if !prefix {
        return;
    }
    count("check.prefix", 1);
    let g = match model_of(&got) {
        Ok(g) => g,
        Err(e) => violated("unsound-mesh", e),
    };
    // the last element may be the one at the cut
    let nv = g.v.len();
    let nf = g.f.len();
    if nv > full.v.len() || nf > full.f.len() {
        violated("invented-data", format!("{nv} vertices and {nf} faces from a prefix of {} and {}", full.v.len(), full.f.len()));
    }
    let bad_v: Vec<usize> = (0..nv).filter(|&i| bits(g.v[i]) != bits(full.v[i])).collect();
    let bad_f: Vec<usize> = (0..nf).filter(|&i| canon(g.f[i]) != canon(full.f[i])).collect();
    let cut_at_vertex = nf == 0 || fmt == Fmt::Stl;
    let ok_v = bad_v.is_empty() || (cut_at_vertex && bad_v == [nv - 1]);
    let ok_f = bad_f.is_empty() || (bad_v.is_empty() && bad_f == [nf - 1]);
    if !ok_v || !ok_f {
        violated("invented-data", format!("vertices {bad_v:?} and faces {bad_f:?} differ from what was saved"));
    }
}

// ---------------------------------------------------------------- C07

#[derive(Default)]
struct Book {
    /// Last successful save per path.
    good: BTreeMap<String, (Fmt, Model)>,
    /// Paths being rewritten, per process.
    busy: BTreeMap<usize, String>,
    /// A save that failed leaves the file undefined.
    torn: std::collections::BTreeSet<String>,
}

pub fn c07() {
    with_num!(num_kind(), c07_t())
}

fn c07_t<T: Num>() {
    let book = Arc::new(Mutex::new(Book::default()));
    let lives = 1 + work(3);
    let procs = 1 + work(2);
    if procs > 1 {
        sim().max_slice = [0, 50, 400, 3000][work(4)];
    }
    for life in 0..lives {
        let faults = work(4);
        {
            let s = sim();
            s.fs.no_faults();
            if faults == 1 {
                s.fs.mask = F_EIO | F_ENOSPC | F_SHORT | F_EINTR;
                s.fs.rate = [4, 20][work(2)];
            } else if faults == 2 {
                s.fs.mask = F_SHORT | F_EINTR;
                s.fs.rate = [1, 3][work(2)];
            } else if faults == 3 {
                s.fs.capacity = s.fs.used() + 1 + work(30_000);
            }
        }
        let mut ids = vec![];
        for p in 0..procs {
            let b = book.clone();
            let victim = p == 0 && life + 1 < lives + work(2);
            ids.push(rt::spawn(move || {
                // which file operation of this process is its last one
                let crash = if victim { 1 + fault(24) as u64 } else { 0 };
                session::<T>(p, crash, &b);
            }));
        }
        rt::join_all();
        let died: Vec<bool> = ids.iter().map(|i| rt::crashed(*i)).collect();
        note(|| format!("life {life} over, crashed: {died:?}"));
        // restart: whatever was being rewritten is undefined
        sim().fs.no_faults();
        {
            let mut b = book.lock().unwrap();
            let busy: Vec<String> = b.busy.values().cloned().collect();
            for p in busy {
                b.good.remove(&p);
                b.torn.insert(p);
                count("op.crash_in_save", 1);
            }
            b.busy.clear();
        }
        if died.iter().any(|x| *x) {
            nontrivial();
            count("op.restart", 1);
        }
        let b = book.lock().unwrap();
        for (path, (fmt, want)) in &b.good {
            verify::<T>(path, *fmt, want, "saved-file-harmed");
        }
        for path in &b.torn {
            // may be anything, but reading it back must not kill the restarted process
            let f = fmt_of(path);
            let _ = T::load(f, path);
            no_open_fds("load");
        }
    }
}

fn fmt_of(path: &str) -> Fmt {
    if path.ends_with("obj") {
        Fmt::Obj
    } else if path.ends_with("off") {
        Fmt::Off
    } else {
        Fmt::Stl
    }
}

fn verify<T: Num>(path: &str, fmt: Fmt, want: &Model, class: &str) {
    match T::load(fmt, path) {
        Ok(m) => match model_of(&m) {
            Ok(g) if g.corners() == want.corners() => {
                count("check.file_intact", 1);
                if let Err(e) = check(&m) {
                    violated(class, format!("{path}: {e}"));
                }
            }
            Ok(_) => violated(class, format!("{path} loads as another mesh")),
            Err(e) => violated(class, format!("{path}: {e}")),
        },
        Err(e) => violated(class, format!("{path} cannot be loaded: {e}")),
    }
}

/// One process: saves, loads and edits over its own files.
fn session<T: Num>(p: usize, crash: u64, book: &Mutex<Book>) {
    rt::fs::arm_crash(crash);
    let mut cur: Option<(M<T>, Model)> = None;
    for _ in 0..2 + work(5) {
        let op = work(3);
        if cur.is_none() || op == 2 {
            cur = Some(worn_mesh::<T>(&io_model(chance(4))));
        }
        let k = work(3);
        // no file belongs to two processes, but their names differ as little as possible
        let path = format!("/simfs/m{}.{}", 2 * work(2) + (k + p) % 2, ["obj", "off", "stl"][k]);
        let fmt = FMTS[k];
        if op <= 1 {
            let (m, want) = cur.as_ref().unwrap();
            {
                let mut b = book.lock().unwrap();
                b.busy.insert(p, path.clone());
                // from here on the old contents are gone
                b.good.remove(&path);
            }
            note(|| format!("p{p} saves {path}"));
            let r = T::save(fmt, m, &path);
            count(if r.is_ok() { "op.save_ok" } else { "op.save_err" }, 1);
            mark(5, r.is_ok() as u64);
            let mut b = book.lock().unwrap();
            b.busy.remove(&p);
            if r.is_ok() {
                b.torn.remove(&path);
                b.good.insert(path, (fmt, want.clone()));
            } else {
                b.torn.insert(path);
            }
        } else {
            let known = book.lock().unwrap().good.get(&path).cloned();
            if let Some((fmt, want)) = known {
                note(|| format!("p{p} loads {path}"));
                let hard = sim().fs.hard;
                match T::load(fmt, &path) {
                    Ok(m) => {
                        let g = model_of(&m).unwrap_or_default();
                        if g.corners() != want.corners() {
                            violated("saved-file-harmed", format!("{path} loads as another mesh"));
                        }
                        count("op.load_ok", 1);
                        let d = g.clone();
                        cur = Some((m, d));
                    }
                    Err(e) => {
                        if sim().fs.hard == hard {
                            violated("saved-file-harmed", format!("{path} cannot be loaded: {e}"));
                        }
                        count("op.load_err", 1);
                    }
                }
            }
        }
    }
    rt::fs::arm_crash(0);
}
