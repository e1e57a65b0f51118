//! Workloads, reference models and checkers. This crate is instrumented
//! together with the library because generic library code is compiled here.
#[path = "gen.rs"]
pub mod gen_mesh;
pub mod boolean;
pub mod console;
pub mod edit;
pub mod inv;
pub mod io;
pub mod lazy;
pub mod locate;
pub mod num;
pub mod measure;
mod plane;
pub mod readers;
pub mod topo;
pub mod tree;
pub mod tri;
pub mod verts;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    /// Executed edges per run before it counts as hanging.
    pub steps: u64,
    /// Warm-up runs per process.
    pub warm: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assume: &'static [&'static str],
}

const IO_REAL: &[&str] = &["cgar io readers and writers", "cgar mesh construction", "std BufReader/BufWriter/File", "number types incl. GMP"];
const IO_STUB: &[&str] = &["kernel file system calls (in-memory disk)", "console", "clock", "hash seeds"];
const IO_ASSUME: &[&str] = &["close() errors are not injected: std ignores them", "a completed write survives process death; the library never asks for more (no fsync)"];

const MESH_REAL: &[&str] = &["cgar mesh, mesh_processing, geometry, kernel and numeric modules", "ahash, smallvec, GMP", "std Mutex"];
const MESH_STUB: &[&str] = &["thread scheduler", "hash seeds", "clock", "console"];
const MESH_ASSUME: &[&str] = &["interleavings are sequentially consistent; GMP calls are atomic"];

pub fn all() -> &'static [Prop] {
    &[
        Prop { id: "C02", run: readers::c02, quick: 120_000, thorough: 600_000, steps: 2_000_000_000, warm: 2, rule: "one run = 2-4 threads reading one mesh and tree; distinct by hash of the interleaved answers", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C03", run: io::c03, quick: 150_000, thorough: 2_000_000, steps: 60_000_000, warm: 2, rule: "one run = one mesh, format, prior file contents and fault plan; non-trivial if a fault fired or the save ran fault-free to completion; distinct by hash of fault positions, outcomes and file contents left behind", real: IO_REAL, stub: IO_STUB, assume: IO_ASSUME },
        Prop { id: "C04", run: io::c04, quick: 150_000, thorough: 2_000_000, steps: 60_000_000, warm: 2, rule: "one run = one stored file (library or foreign layout) and read-fault plan; non-trivial if a fault fired or a fault-free load was compared; distinct by hash of fault positions, outcomes and file contents", real: IO_REAL, stub: IO_STUB, assume: IO_ASSUME },
        Prop { id: "C05", run: io::c05, quick: 100_000, thorough: 1_500_000, steps: 60_000_000, warm: 2, rule: "one run = one save and load with interrupted/short transfers compared with an undisturbed pair; non-trivial if at least one such transfer happened; distinct by hash of fault positions and file contents", real: IO_REAL, stub: IO_STUB, assume: IO_ASSUME },
        Prop { id: "C06", run: io::c06, quick: 200_000, thorough: 3_000_000, steps: 60_000_000, warm: 2, rule: "one run = one saved file and one crash image of it (cut, zeroed, stale, missing, doubled sectors, changed bytes); distinct by image contents and outcome", real: IO_REAL, stub: IO_STUB, assume: IO_ASSUME },
        Prop { id: "C07", run: io::c07, quick: 100_000, thorough: 1_500_000, steps: 200_000_000, warm: 2, rule: "one run = one session of 1-3 process lives over several files with 1-2 processes; non-trivial if a process died at a file operation; distinct by hash of schedule, fault and outcome sequence", real: IO_REAL, stub: IO_STUB, assume: IO_ASSUME },
        Prop { id: "C08", run: boolean::c08, quick: 60_000, thorough: 500_000, steps: 4_000_000_000, warm: 2, rule: "one run = two operands of 0-2 boxes in one straight or leaning frame, or two convex solids turned against each other, 1-3 set operations on each of 1-2 threads sharing or not sharing numbers, under drawn hash seeds; distinct by hash of frame, operations, interleaving and result sizes", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C09", run: edit::c09, quick: 60_000, thorough: 800_000, steps: 2_000_000_000, warm: 2, rule: "one run = one surface remeshed 1-4 times with drawn targets under drawn hash seeds; distinct by hash of the face counts after each round", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C10", run: edit::c10, quick: 60_000, thorough: 800_000, steps: 2_000_000_000, warm: 2, rule: "one run = one start mesh and up to 48 edits; non-trivial with at least two edits; distinct by hash of the edits and their outcomes", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C11", run: edit::c11, quick: 80_000, thorough: 1_000_000, steps: 2_000_000_000, warm: 2, rule: "one run = 1-3 editors planning and committing collapses among other edits; non-trivial if a plan was committed after another edit; distinct by hash of edits and outcomes", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C12", run: tree::c12, quick: 240_000, thorough: 3_000_000, steps: 2_000_000_000, warm: 2, rule: "one run = one history of inserts, invalidations, compactions and queries, with 0-3 concurrent readers between updates; non-trivial if an update preceded a query; distinct by hash of operations and answers", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C13", run: console::c13, quick: 60_000, thorough: 800_000, steps: 2_000_000_000, warm: 2, rule: "one run = one job (set operations, triangulations, edits and queries, file load, remeshing) done twice under equal hash seeds, once with console faults; non-trivial if a console fault fired; distinct by hash of fault positions and results", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C14", run: tri::c14, quick: 300_000, thorough: 4_000_000, steps: 2_000_000_000, warm: 2, rule: "one run = 1-4 point sets triangulated plainly, with prescribed edges or as one batch, on 1-2 threads, under drawn hash seeds; non-trivial with more than one triangle; distinct by hash of inputs, interleaving and triangle counts", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C15", run: verts::c15, quick: 60_000, thorough: 800_000, steps: 2_000_000_000, warm: 2, rule: "one run = 1-3 surfaces torn into pieces, with lookups, merges and clean-ups under drawn hash seeds; non-trivial if vertices were merged; distinct by hash of lookups and merge counts", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C16", run: tree::c16, quick: 60_000, thorough: 500_000, steps: 2_000_000_000, warm: 2, rule: "one run = one history of tree-updating splits with queries in between; non-trivial if a query followed a split; distinct by hash of splits and answers", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C19", run: topo::c19, quick: 60_000, thorough: 800_000, steps: 2_000_000_000, warm: 2, rule: "one run = one start mesh and up to 24 edits with neighbourhood queries in between; non-trivial if a query followed an edit; distinct by hash of edits, outcomes and mesh sizes", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C20", run: locate::c20, quick: 60_000, thorough: 800_000, steps: 2_000_000_000, warm: 2, rule: "one run = one history of splits with points located through handles taken at any earlier time; non-trivial if a handle was outdated; distinct by hash of splits, handles and answers", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C21", run: plane::c21, quick: 60_000, thorough: 800_000, steps: 2_000_000_000, warm: 2, rule: "one run = one planar mesh and up to 30 edits with points located and areas asked in between; non-trivial after at least two edits; distinct by hash of edits and answers", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C22", run: measure::c22, quick: 160_000, thorough: 2_000_000, steps: 2_000_000_000, warm: 2, rule: "one run = one start mesh and up to 20 edits with measures asked in between and by 1-3 readers at the end; non-trivial if an edit was made; distinct by hash of edits, interleaving and questions", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
        Prop { id: "C01", run: lazy::c01, quick: 600_000, thorough: 8_000_000, steps: 2_000_000_000, warm: 2, rule: "one run = one shared expression graph queried by 1-4 threads; non-trivial if at least two queries were compared; distinct by hash of the interleaving, queries and answers", real: MESH_REAL, stub: MESH_STUB, assume: MESH_ASSUME },
    ]
}
