//! One trait for the three number types, so that workloads can be written once.
use cgar::geometry::aabb::Aabb;
use cgar::geometry::aabb_tree::AabbTree;
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::spatial_element::SpatialElement;
use cgar::io::{obj, off, stl};
use cgar::mesh::basic_types::*;
use cgar::mesh::edge_collapse::{CollapseOpts, CollapsePlan, CollapseReject, Placement};
use cgar::mesh_processing::batching::FaceJobUV;
use cgar::mesh_processing::boolean::BooleanOp;
use cgar::mesh_processing::remesh::RemeshOptions;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::{RefInto, Scalar};
use cgar::mesh::topology::FindFaceResult;
use cgar::operations::triangulation::delaunay::Delaunay;
use std::io;

pub type M<T> = Mesh<T, 3>;
pub type P<T> = Point<T, 3>;
pub type Tree<T> = AabbTree<T, 3, Point<T, 3>, usize>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    Obj,
    Off,
    Stl,
}

pub type Bx<T> = Aabb<T, 3, Point<T, 3>>;

pub trait Num: Scalar + Send + Sync + 'static {
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn f(&self) -> f64;
    fn rat(&self) -> rug::Rational;
    fn from_rat(r: rug::Rational) -> Self;
    fn new_mesh() -> M<Self>;
    fn pt(v: [f64; 3]) -> P<Self>;
    fn pt_of(v: [Self; 3]) -> P<Self>;
    fn xyz(p: &P<Self>) -> [f64; 3];
    fn coord(p: &P<Self>, k: usize) -> &Self;
    fn add_vertex(m: &mut M<Self>, v: [f64; 3]) -> usize;
    fn add_vertex_pt(m: &mut M<Self>, v: P<Self>) -> usize;
    fn add_tri(m: &mut M<Self>, t: [usize; 3]) -> usize;
    fn add_tris(m: &mut M<Self>, t: &[(usize, usize, usize)]) -> Vec<usize>;
    fn remove_tri(m: &mut M<Self>, f: usize);
    fn remove_tris(m: &mut M<Self>, f: &[usize]);
    fn flip(m: &mut M<Self>, h: usize) -> Result<(), String>;
    fn tree(m: &M<Self>) -> Tree<Self>;
    fn split_edge(m: &mut M<Self>, t: &mut Tree<Self>, h: usize, p: &P<Self>, update: bool) -> Result<SplitResult, String>;
    fn split_face(m: &mut M<Self>, t: &mut Tree<Self>, f: usize, p: &P<Self>, update: bool) -> Result<SplitResult, String>;
    fn collapse(m: &mut M<Self>, keep: usize, gone: usize) -> Result<(), CollapseReject>;
    fn plan(m: &M<Self>, keep: usize, gone: usize, pl: &dyn Fn([f64; 3], [f64; 3]) -> [f64; 3]) -> Result<CollapsePlan<Self, 3>, CollapseReject>;
    fn commit(m: &mut M<Self>, p: CollapsePlan<Self, 3>) -> Result<(), CollapseReject>;
    fn smooth(m: &mut M<Self>, n: usize, max: f64) -> usize;
    fn remesh(m: &mut M<Self>, target: f64, iters: usize) -> Result<(), String>;
    fn avg_edge(m: &M<Self>) -> f64;
    fn boolean(a: &mut M<Self>, b: &mut M<Self>, op: usize) -> M<Self>;
    fn point_in(m: &M<Self>, t: &Tree<Self>, p: &P<Self>) -> PointInMeshResult;
    fn ray(m: &M<Self>, t: &Tree<Self>, o: &P<Self>, d: &P<Self>) -> IntersectionResult<Self>;
    fn ray_in_tri(m: &M<Self>, f: usize, v: usize, d: [f64; 3], surface: bool) -> String;
    fn area(m: &M<Self>, f: usize) -> Self;
    fn centroid(m: &M<Self>, f: usize) -> [Self; 3];
    fn cleanup_faces(m: &mut M<Self>);
    fn cleanup_verts(m: &mut M<Self>);
    fn dedup(m: &mut M<Self>) -> usize;
    fn get_or_insert(m: &mut M<Self>, p: &P<Self>) -> (usize, bool);
    fn bx(lo: P<Self>, hi: P<Self>) -> Bx<Self>;
    fn tree_build(v: Vec<(Bx<Self>, usize)>) -> Tree<Self>;
    fn tree_insert(t: &mut Tree<Self>, b: Bx<Self>, d: usize);
    fn tree_invalidate(t: &mut Tree<Self>, d: usize) -> usize;
    fn tree_compact(t: &mut Tree<Self>) -> Option<Tree<Self>>;
    fn tree_hint(t: &Tree<Self>) -> bool;
    fn tree_live(t: &Tree<Self>, b: &Bx<Self>) -> Vec<usize>;
    fn tree_all(t: &Tree<Self>, b: &Bx<Self>) -> Vec<usize>;
    fn tree_box(t: &Tree<Self>, d: usize) -> Option<(P<Self>, P<Self>)>;
    fn valid_he(m: &M<Self>, h: usize, p: &P<Self>) -> usize;
    fn find_face(m: &M<Self>, f: usize, p: &P<Self>) -> FindFaceResult<Self>;
    fn holding(m: &M<Self>, t: &mut Tree<Self>, p: &P<Self>) -> Vec<usize>;
    fn face_box(m: &M<Self>, f: usize) -> (P<Self>, P<Self>);
    fn one_ring(m: &M<Self>, v: usize) -> Vec<usize>;
    fn faces_at(m: &M<Self>, v: usize) -> Vec<usize>;
    fn incident(m: &M<Self>, v: usize) -> Vec<usize>;
    fn border_vertex(m: &M<Self>, v: usize) -> bool;
    fn border_vertices(m: &M<Self>) -> Vec<usize>;
    fn ring(m: &M<Self>, v: usize) -> (Vec<usize>, Vec<Option<usize>>, bool);
    fn adjacent(m: &M<Self>, f: usize) -> Vec<usize>;
    fn around_face(m: &M<Self>, f: usize) -> [usize; 3];
    fn are_adjacent(m: &M<Self>, f: usize, g: usize) -> bool;
    fn graph(m: &M<Self>) -> Vec<(usize, Vec<usize>)>;
    fn connected(m: &M<Self>, a: usize, b: usize) -> bool;
    fn connection(m: &M<Self>, a: usize, b: usize) -> Option<usize>;
    fn between(m: &M<Self>, a: usize, b: usize) -> Option<usize>;
    fn edge_pair(m: &M<Self>, a: usize, b: usize) -> Option<(usize, usize)>;
    fn face_of(m: &M<Self>, t: [usize; 3]) -> Option<usize>;
    fn touches(m: &M<Self>, v: usize, f: usize) -> bool;
    fn pair(m: &M<Self>, a: usize, b: usize) -> Option<cgar::mesh::basic_types::PairRing>;
    fn link_ok(m: &M<Self>, a: usize, b: usize) -> (bool, bool, bool, bool);
    fn border_loops(m: &mut M<Self>);
    fn validate(m: &M<Self>);
    fn corner_list(m: &M<Self>, f: usize) -> ([usize; 3], Vec<usize>, (usize, usize, usize));
    fn save(f: Fmt, m: &M<Self>, path: &str) -> io::Result<()>;
    fn load(f: Fmt, path: &str) -> io::Result<M<Self>>;
    fn delaunay(p: &[[Self; 2]]) -> Vec<[usize; 3]>;
    fn cdt(p: &[[Self; 2]], seg: &[[usize; 2]]) -> Vec<[usize; 3]>;
    fn cdt_batch(p: &[Vec<[Self; 2]>], seg: &[Vec<[usize; 2]>]) -> Vec<Vec<[usize; 3]>>;
}

pub struct Place<'a>(pub &'a dyn Fn([f64; 3], [f64; 3]) -> [f64; 3]);

macro_rules! imp {
    ($t:ty, $n:literal) => {
        impl Placement<$t, 3> for Place<'_> {
            fn place(&self, m: &Mesh<$t, 3>, a: usize, b: usize) -> Point<$t, 3> {
                <$t>::pt((self.0)(<$t>::xyz(&m.vertices[a].position), <$t>::xyz(&m.vertices[b].position)))
            }
        }
        impl Num for $t {
            const NAME: &'static str = $n;
            fn of(x: f64) -> Self {
                <$t as From<f64>>::from(x)
            }
            fn f(&self) -> f64 {
                let r: CgarRational = self.ref_into();
                r.0.to_f64()
            }
            fn rat(&self) -> rug::Rational {
                let r: CgarRational = self.ref_into();
                r.0
            }
            fn from_rat(r: rug::Rational) -> Self {
                <$t as From<rug::Rational>>::from(r)
            }
            fn new_mesh() -> M<Self> {
                Mesh::new()
            }
            fn pt(v: [f64; 3]) -> P<Self> {
                Point::<$t, 3>::from_vals(v)
            }
            fn pt_of(v: [Self; 3]) -> P<Self> {
                Point::<$t, 3>::new(v)
            }
            fn xyz(p: &P<Self>) -> [f64; 3] {
                let c = p.coords();
                [c[0].f(), c[1].f(), c[2].f()]
            }
            fn coord(p: &P<Self>, k: usize) -> &Self {
                &p.coords()[k]
            }
            fn add_vertex(m: &mut M<Self>, v: [f64; 3]) -> usize {
                m.add_vertex(Self::pt(v))
            }
            fn add_vertex_pt(m: &mut M<Self>, v: P<Self>) -> usize {
                m.add_vertex(v)
            }
            fn add_tri(m: &mut M<Self>, t: [usize; 3]) -> usize {
                m.add_triangle(t[0], t[1], t[2])
            }
            fn add_tris(m: &mut M<Self>, t: &[(usize, usize, usize)]) -> Vec<usize> {
                m.add_triangles_deferred(t)
            }
            fn remove_tri(m: &mut M<Self>, f: usize) {
                m.remove_triangle(f)
            }
            fn remove_tris(m: &mut M<Self>, f: &[usize]) {
                let (s, v) = m.remove_triangles_deferred(f);
                m.weld_border_components_from(&s);
                m.fix_vertices_outgoing_for(&v);
            }
            fn flip(m: &mut M<Self>, h: usize) -> Result<(), String> {
                m.flip_edge(h).map_err(|e| e.to_string())
            }
            fn tree(m: &M<Self>) -> Tree<Self> {
                m.build_face_tree()
            }
            fn split_edge(m: &mut M<Self>, t: &mut Tree<Self>, h: usize, p: &P<Self>, update: bool) -> Result<SplitResult, String> {
                m.split_edge(t, h, p, update).map_err(|e| e.to_string())
            }
            fn split_face(m: &mut M<Self>, t: &mut Tree<Self>, f: usize, p: &P<Self>, update: bool) -> Result<SplitResult, String> {
                m.split_face(t, f, p, update).map_err(|e| e.to_string())
            }
            fn collapse(m: &mut M<Self>, keep: usize, gone: usize) -> Result<(), CollapseReject> {
                m.collapse_edge(keep, gone)
            }
            fn plan(m: &M<Self>, keep: usize, gone: usize, pl: &dyn Fn([f64; 3], [f64; 3]) -> [f64; 3]) -> Result<CollapsePlan<Self, 3>, CollapseReject> {
                match m.edge_map.get(&(keep, gone)) {
                    // half of the edges through their half-edge
                    Some(&h) if (keep + gone) % 2 == 0 => m.collapse_edge_begin_he(h, &Place(pl), &CollapseOpts::default()),
                    _ => m.collapse_edge_begin_vertices(keep, gone, &Place(pl), &CollapseOpts::default()),
                }
            }
            fn commit(m: &mut M<Self>, p: CollapsePlan<Self, 3>) -> Result<(), CollapseReject> {
                m.collapse_edge_commit(p)
            }
            fn smooth(m: &mut M<Self>, n: usize, max: f64) -> usize {
                m.smooth_vertices(n, &<$t>::of(max))
            }
            fn remesh(m: &mut M<Self>, target: f64, iters: usize) -> Result<(), String> {
                let mut o = RemeshOptions::new(<$t>::of(target));
                o.max_iterations = iters;
                m.isotropic_remesh(&o).map_err(|e| format!("{e:?}"))
            }
            fn avg_edge(m: &M<Self>) -> f64 {
                m.compute_average_edge_length()
            }
            fn boolean(a: &mut M<Self>, b: &mut M<Self>, op: usize) -> M<Self> {
                a.corefine_and_boolean(b, [BooleanOp::Union, BooleanOp::Intersection, BooleanOp::Difference].into_iter().nth(op).unwrap())
            }
            fn point_in(m: &M<Self>, t: &Tree<Self>, p: &P<Self>) -> PointInMeshResult {
                m.point_in_mesh_3(t, p)
            }
            fn ray(m: &M<Self>, t: &Tree<Self>, o: &P<Self>, d: &P<Self>) -> IntersectionResult<Self> {
                m.cast_ray_3(o, &d.as_vector(), t, &None)
            }
            fn ray_in_tri(m: &M<Self>, f: usize, v: usize, d: [f64; 3], surface: bool) -> String {
                let d = Self::pt(d).as_vector();
                format!("{:?}", if surface { m.cast_ray_from_vertex_in_triangle_3(f, v, &d) } else { m.cast_ray_from_vertex_in_triangle(f, v, &d) })
            }
            fn area(m: &M<Self>, f: usize) -> Self {
                m.face_area(f)
            }
            fn centroid(m: &M<Self>, f: usize) -> [Self; 3] {
                let c = m.face_centroid(f);
                [c.0.coords()[0].clone(), c.0.coords()[1].clone(), c.0.coords()[2].clone()]
            }
            fn cleanup_faces(m: &mut M<Self>) {
                m.remove_invalidated_faces()
            }
            fn cleanup_verts(m: &mut M<Self>) {
                m.remove_unused_vertices()
            }
            fn dedup(m: &mut M<Self>) -> usize {
                m.remove_duplicate_vertices()
            }
            fn get_or_insert(m: &mut M<Self>, p: &P<Self>) -> (usize, bool) {
                m.get_or_insert_vertex(p)
            }
            fn bx(lo: P<Self>, hi: P<Self>) -> Bx<Self> {
                Aabb::new(lo, hi)
            }
            fn tree_build(v: Vec<(Bx<Self>, usize)>) -> Tree<Self> {
                AabbTree::build(v)
            }
            fn tree_insert(t: &mut Tree<Self>, b: Bx<Self>, d: usize) {
                t.insert(b, d)
            }
            fn tree_invalidate(t: &mut Tree<Self>, d: usize) -> usize {
                t.invalidate(&d)
            }
            fn tree_compact(t: &mut Tree<Self>) -> Option<Tree<Self>> {
                t.compact()
            }
            fn tree_hint(t: &Tree<Self>) -> bool {
                t.needs_rebuild()
            }
            fn tree_live(t: &Tree<Self>, b: &Bx<Self>) -> Vec<usize> {
                let mut o = vec![];
                t.query_valid(b, &mut o);
                o.into_iter().copied().collect()
            }
            fn tree_all(t: &Tree<Self>, b: &Bx<Self>) -> Vec<usize> {
                let mut o = vec![];
                t.query(b, &mut o);
                o.into_iter().copied().collect()
            }
            fn tree_box(t: &Tree<Self>, d: usize) -> Option<(P<Self>, P<Self>)> {
                t.get_aabb(d).map(|b| (b.min.clone(), b.max.clone()))
            }
            fn valid_he(m: &M<Self>, h: usize, p: &P<Self>) -> usize {
                m.find_valid_half_edge(h, p)
            }
            fn find_face(m: &M<Self>, f: usize, p: &P<Self>) -> FindFaceResult<Self> {
                m.find_valid_face(f, p)
            }
            fn holding(m: &M<Self>, t: &mut Tree<Self>, p: &P<Self>) -> Vec<usize> {
                m.faces_containing_point_aabb(t, p)
            }
            fn face_box(m: &M<Self>, f: usize) -> (P<Self>, P<Self>) {
                let b = m.face_aabb(f);
                (b.min, b.max)
            }
            fn one_ring(m: &M<Self>, v: usize) -> Vec<usize> {
                m.one_ring_neighbors(v)
            }
            fn faces_at(m: &M<Self>, v: usize) -> Vec<usize> {
                m.faces_around_vertex(v)
            }
            fn incident(m: &M<Self>, v: usize) -> Vec<usize> {
                m.incident_faces(v).into_iter().collect()
            }
            fn border_vertex(m: &M<Self>, v: usize) -> bool {
                m.is_boundary_vertex(v)
            }
            fn border_vertices(m: &M<Self>) -> Vec<usize> {
                m.boundary_vertices()
            }
            fn ring(m: &M<Self>, v: usize) -> (Vec<usize>, Vec<Option<usize>>, bool) {
                let r = m.vertex_ring_ccw(v);
                (r.neighbors_ccw, r.faces_ccw, r.is_border)
            }
            fn adjacent(m: &M<Self>, f: usize) -> Vec<usize> {
                m.adjacent_faces(f).collect()
            }
            fn around_face(m: &M<Self>, f: usize) -> [usize; 3] {
                m.faces_around_face(f)
            }
            fn are_adjacent(m: &M<Self>, f: usize, g: usize) -> bool {
                m.are_faces_adjacent(f, g)
            }
            fn graph(m: &M<Self>) -> Vec<(usize, Vec<usize>)> {
                m.build_face_adjacency_graph().into_iter().collect()
            }
            fn connected(m: &M<Self>, a: usize, b: usize) -> bool {
                m.are_vertices_connected(a, b)
            }
            fn connection(m: &M<Self>, a: usize, b: usize) -> Option<usize> {
                Some(m.vertices_connection(a, b)).filter(|h| *h != usize::MAX)
            }
            fn between(m: &M<Self>, a: usize, b: usize) -> Option<usize> {
                m.half_edge_between(a, b)
            }
            fn edge_pair(m: &M<Self>, a: usize, b: usize) -> Option<(usize, usize)> {
                m.edge_half_edges(a, b)
            }
            fn face_of(m: &M<Self>, t: [usize; 3]) -> Option<usize> {
                Some(m.face_from_vertices(t[0], t[1], t[2])).filter(|f| *f != usize::MAX)
            }
            fn touches(m: &M<Self>, v: usize, f: usize) -> bool {
                m.vertex_touches_face(v, f)
            }
            fn pair(m: &M<Self>, a: usize, b: usize) -> Option<cgar::mesh::basic_types::PairRing> {
                m.ring_pair(a, b)
            }
            fn link_ok(m: &M<Self>, a: usize, b: usize) -> (bool, bool, bool, bool) {
                (m.collapse_link_condition_triangle(a, b), m.check_link_condition_triangle(a, b), m.would_create_duplicate_edges(a, b), m.would_create_2gons(a, b))
            }
            fn border_loops(m: &mut M<Self>) {
                m.build_boundary_loops()
            }
            fn validate(m: &M<Self>) {
                m.validate_connectivity();
                m.validate_half_edges()
            }
            fn corner_list(m: &M<Self>, f: usize) -> ([usize; 3], Vec<usize>, (usize, usize, usize)) {
                (m.face_vertices(f), m.face_half_edges(f).to_vec(), m.face_edges(f))
            }
            fn save(f: Fmt, m: &M<Self>, path: &str) -> io::Result<()> {
                match f {
                    Fmt::Obj => obj::write_obj(m, path),
                    Fmt::Off => off::write_off(m, path),
                    Fmt::Stl => stl::write_stl(m, path),
                }
            }
            fn delaunay(p: &[[Self; 2]]) -> Vec<[usize; 3]> {
                let p: Vec<_> = p.iter().map(|q| Point::<$t, 2>::new(q.clone())).collect();
                Delaunay::build(&p).triangles.iter().map(|t| t.as_array()).collect()
            }
            fn cdt(p: &[[Self; 2]], seg: &[[usize; 2]]) -> Vec<[usize; 3]> {
                let p: Vec<_> = p.iter().map(|q| Point::<$t, 2>::new(q.clone())).collect();
                let m = Mesh::<$t, 3>::new();
                let j = FaceJobUV { face_id: 0, verts_global: (0..p.len()).collect(), points_uv: p.clone(), segments: seg.to_vec() };
                Delaunay::build_with_constraints_bowyer_watson(&p, seg, &m, &j).triangles.iter().map(|t| t.as_array()).collect()
            }
            fn cdt_batch(p: &[Vec<[Self; 2]>], seg: &[Vec<[usize; 2]>]) -> Vec<Vec<[usize; 3]>> {
                let m = Mesh::<$t, 3>::new();
                let jobs: Vec<_> = p.iter().zip(seg).enumerate().map(|(i, (p, s))| FaceJobUV { face_id: i, verts_global: (0..p.len()).collect(), points_uv: p.iter().map(|q| Point::<$t, 2>::new(q.clone())).collect(), segments: s.clone() }).collect();
                Delaunay::build_batch_with_constraints_bowyer_watson(&jobs, &m).iter().map(|d| d.triangles.iter().map(|t| t.as_array()).collect()).collect()
            }
            fn load(f: Fmt, path: &str) -> io::Result<M<Self>> {
                match f {
                    Fmt::Obj => obj::read_obj(path),
                    Fmt::Off => off::read_off(path),
                    Fmt::Stl => stl::read_stl(path),
                }
            }
        }
    };
}
imp!(CgarF64, "f64");
imp!(CgarRational, "rational");
imp!(LazyExact, "lazy");

/// Run a generic workload with the number type chosen by `k` (0 = f64).
#[macro_export]
macro_rules! with_num {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k {
            0 => $f::<cgar::numeric::cgar_f64::CgarF64>($($a),*),
            1 => $f::<cgar::numeric::cgar_rational::CgarRational>($($a),*),
            _ => $f::<cgar::numeric::lazy_exact::LazyExact>($($a),*),
        }
    };
}
