//! Lazy exact numbers: shared expression graphs, any query order, several
//! threads, against rational arithmetic (C01).
use crate::gen_mesh::odd_coord;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::{FromRef, RefInto, Scalar};
use cgar::operations::{Abs, Zero};
use num_traits::ToPrimitive;
use rt::{chance, count, guarded, mark, nontrivial, note, sim, spawn, violated, work};
use rug::Rational;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

#[derive(Clone)]
pub struct N {
    x: LazyExact,
    r: Arc<Rational>,
}

fn leaf() -> N {
    // every way in must give the same number
    let way = work(4);
    let f = |v: f64| N { x: match way { 0 => LazyExact::from_f64(v), 1 => LazyExact::from(CgarF64(v)), 2 => LazyExact::from_ref(&CgarF64(v)), _ => LazyExact::from(v) }, r: Arc::new(Rational::from_f64(v).unwrap_or_default()) };
    let q = |r: Rational| N { x: match way { 0 => LazyExact::from_rug_rational(r.clone()), 1 => LazyExact::from(CgarRational(r.clone())), 2 => LazyExact::from_ref(&CgarRational(r.clone())), _ => LazyExact::from(r.clone()) }, r: Arc::new(r) };
    match work(7) {
        0 => {
            let i = work(9) as i32 - 4;
            N { x: match way { 0 => LazyExact::from_i32(i), 1 => LazyExact::from(i), 2 => LazyExact::from_num_den(i, 1), _ => LazyExact::from_num_den(-2 * i, -2) }, r: Arc::new(Rational::from(i)) }
        }
        1 => f((work(41) as f64 - 20.0) * 0.25),
        2 => f((work(41) as f64 - 20.0) * 0.1),
        3 => q(Rational::from((work(41) as i32 - 20, 1 + work(12) as i32))),
        4 => {
            // as a double and as a fraction: nearly or exactly equal
            let (n, d) = (work(19) as i32 - 9, 1 + work(9) as i32);
            if work(2) == 0 { f(n as f64 / d as f64) } else { q(Rational::from((n, d))) }
        }
        5 => f(odd_coord()),
        _ => {
            // far below or above the range of doubles
            let s = 1u32 << work(11);
            let b = Rational::from(rug::Integer::from(1 + work(5)) << s);
            if work(2) == 0 { q(b) } else { q(b.recip()) }
        }
    }
}

fn pick<'a>(own: &'a [N], shared: &'a [N]) -> &'a N {
    let n = own.len() + shared.len();
    // recent ones more often
    let i = if work(2) == 0 { n - 1 - work(n.min(4)) } else { work(n) };
    if i < shared.len() { &shared[i] } else { &own[i - shared.len()] }
}

fn small(r: &Rational) -> bool {
    r.numer().significant_bits() + r.denom().significant_bits() < 6000
}

fn combine(a: &N, b: &N, k: usize) -> Option<N> {
    let (x, y, p, q) = (&a.x, &b.x, &*a.r, &*b.r);
    let n = |x: LazyExact, r: Rational| Some(N { x, r: Arc::new(r) });
    if !small(p) || !small(q) {
        return None;
    }
    match k {
        0 => n(x + y, Rational::from(p + q)),
        1 => n(x - y, Rational::from(p - q)),
        2 => n(x * y, Rational::from(p * q)),
        3 => {
            if *q == 0 {
                return None;
            }
            n(x / y, Rational::from(p / q))
        }
        4 => n(-x, Rational::from(-p)),
        5 => n(x.abs(), Rational::from(p.abs_ref())),
        6 => n(Scalar::min(x.clone(), y.clone()), if p <= q { p.clone() } else { q.clone() }),
        7 => n(Scalar::max(x.clone(), y.clone()), if p >= q { p.clone() } else { q.clone() }),
        8 => {
            let mut z = x.clone();
            z += y;
            n(z, Rational::from(p + q))
        }
        9 => {
            let mut z = x.clone();
            z -= y;
            n(z, Rational::from(p - q))
        }
        10 => n(x.clone() + y.clone(), Rational::from(p + q)),
        11 => n(x.clone() * y.clone(), Rational::from(p * q)),
        12 => n(x.clone() - y.clone(), Rational::from(p - q)),
        13 => {
            if *q == 0 {
                return None;
            }
            n(x.clone() / y.clone(), Rational::from(p / q))
        }
        14 => n(LazyExact::from_ref(x), p.clone()),
        _ => n(-x.clone(), Rational::from(-p)),
    }
}

fn build(own: &mut Vec<N>, shared: &[N]) {
    let r = guarded(|| match work(12) {
        0 => Some(leaf()),
        1 if own.len() + shared.len() >= 2 => {
            // nearly cancelling: x - (x rounded), (x + y) - x - y, ...
            let a = pick(own, shared).clone();
            let b = pick(own, shared).clone();
            match work(3) {
                0 => {
                    let f = a.r.to_f64();
                    if !f.is_finite() {
                        return None;
                    }
                    let l = N { x: LazyExact::from_f64(f), r: Arc::new(Rational::from_f64(f).unwrap_or_default()) };
                    combine(&a, &l, 1)
                }
                1 => combine(&a, &b, 0).and_then(|s| combine(&s, &a, 1)).and_then(|s| combine(&s, &b, 1)),
                _ => combine(&a, &b, 2).and_then(|s| combine(&s, &b, 3)).and_then(|s| combine(&s, &a, 1)),
            }
        }
        _ if own.len() + shared.len() >= 2 => {
            let k = work(16);
            combine(pick(own, shared), pick(own, shared), k)
        }
        _ => Some(leaf()),
    });
    match r {
        Ok(Some(n)) => {
            note(|| format!("new number {}", show(&n.r)));
            own.push(n)
        }
        Ok(None) => {}
        Err(e) => violated("panic", format!("building an expression: {e}")),
    }
}

/// A chain deeper than the folding limit.
fn deep(own: &mut Vec<N>, shared: &[N]) {
    let mut a = pick(own, shared).clone();
    let b = leaf();
    let n = [200, 700, 1100, 2300][work(4)];
    let k = [0, 1, 4][work(3)];
    for i in 0..n {
        let Some(c) = combine(&a, &b, if k == 4 && i % 2 == 0 { 4 } else { k % 4 }) else { break };
        a = c;
    }
    count("op.deep_chain", 1);
    own.push(a);
}

fn hash_of(x: &LazyExact) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

const NAMES: [&str; 24] = [
    "sign", "is_zero", "is_positive", "is_negative", "is_positive_or_zero", "is_negative_or_zero", "cmp_zero", "partial_cmp", "==", "cmp_ref", "cmp_exact",
    "cmp_fast", "exact", "to rational", "hash", "as_f64_if_exact", "double_interval", "force_exact", "to_f64", "< <= > >=", "zero of difference", "sign of clone", "machine numbers", "approx_eq",
];

fn ask(a: &N, b: &N, k: usize) {
    let (x, y, p, q) = (&a.x, &b.x, &*a.r, &*b.r);
    let sg = match p.cmp0() {
        Ordering::Less => -1i8,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    };
    let cm = p.cmp(q);
    let bad = |what: &str, got: String, want: String| -> ! { violated("answer", format!("{what} gave {got}, exact arithmetic says {want} (values {} and {})", show(p), show(q))) };
    macro_rules! eq {
        ($w:expr, $g:expr, $e:expr) => {{
            let (g, e) = ($g, $e);
            if g != e {
                bad($w, format!("{g:?}"), format!("{e:?}"));
            }
        }};
    }
    match k {
        0 => eq!("sign", Scalar::sign(x), sg),
        1 => eq!("is_zero", x.is_zero(), sg == 0),
        2 => eq!("is_positive", x.is_positive(), sg > 0),
        3 => eq!("is_negative", x.is_negative(), sg < 0),
        4 => eq!("is_positive_or_zero", x.is_positive_or_zero(), sg >= 0),
        5 => eq!("is_negative_or_zero", x.is_negative_or_zero(), sg <= 0),
        6 => eq!("cmp_zero", x.cmp_zero(), p.cmp0()),
        7 => eq!("partial_cmp", x.partial_cmp(y), Some(cm)),
        8 => eq!("equality", x == y, cm == Ordering::Equal),
        9 => eq!("cmp_ref", LazyExact::cmp_ref(x, y), cm),
        10 => eq!("cmp_exact", LazyExact::cmp_exact(x, y), cm as i8),
        11 => {
            if let Some(o) = x.cmp_fast(y) {
                eq!("cmp_fast", o, cm);
            }
        }
        12 => {
            if x.exact().0 != *p {
                bad("exact", show(&x.exact().0), show(p));
            }
        }
        13 => {
            let r: CgarRational = x.ref_into();
            if r.0 != *p {
                bad("conversion to rational", show(&r.0), show(p));
            }
        }
        14 => {
            if cm == Ordering::Equal {
                eq!("hash of equal numbers", hash_of(x), hash_of(y));
            }
            // a fresh number of the same value must hash alike
            eq!("hash against a fresh copy", hash_of(x), hash_of(&LazyExact::from_rug_rational(p.clone())));
        }
        15 => {
            if let Some(v) = x.as_f64_if_exact() {
                if Rational::from_f64(v).as_ref() != Some(p) {
                    bad("as_f64_if_exact", v.to_string(), show(p));
                }
            }
        }
        16 => {
            if let Some((lo, hi)) = x.double_interval() {
                if Rational::from_f64(lo).is_some_and(|l| l > *p) || Rational::from_f64(hi).is_some_and(|h| h < *p) {
                    bad("double_interval", format!("[{lo:e}, {hi:e}]"), show(p));
                }
            }
        }
        17 => {
            x.force_exact();
            eq!("has_exact after force_exact", x.has_exact(), true);
        }
        18 => eq!("to_f64", x.to_f64(), Some(p.to_f64())),
        19 => eq!("comparison operators", (x < y, x <= y, x > y, x >= y), (cm.is_lt(), cm.is_le(), cm.is_gt(), cm.is_ge())),
        20 => eq!("is_exactly_zero of the difference", (x - y).is_zero(), cm == Ordering::Equal),
        22 => {
            let (c, r) = (CgarRational::from(x), CgarRational(p.clone()));
            if c.0 != *p {
                bad("From for the rational", show(&c.0), show(p));
            }
            eq!("to_f32, to_i64, to_u64", (x.to_f32(), x.to_i64(), x.to_u64()), (r.to_f32(), r.to_i64(), r.to_u64()));
        }
        23 => {
            if cm == Ordering::Equal {
                eq!("approx_eq of equal numbers", x.approx_eq(y), true);
            }
        }
        _ => {
            let c = x.clone();
            eq!("sign of a clone", Scalar::sign(&c), sg);
        }
    }
}

fn show(r: &Rational) -> String {
    format!("{:e} ({} bits)", r.to_f64(), r.numer().significant_bits() + r.denom().significant_bits())
}

fn worker(shared: &[N], steps: usize, who: usize) {
    let mut own: Vec<N> = vec![];
    for _ in 0..steps {
        if work(3) == 0 {
            build(&mut own, shared);
        } else {
            let (a, b) = (pick(&own, shared).clone(), pick(&own, shared).clone());
            let k = work(24);
            count("check.query", 1);
            note(|| format!("thread {who} asks {} of {} and {}", NAMES[k], show(&a.r), show(&b.r)));
            mark((who * 32 + k) as u64, a.r.cmp0() as u64);
            if let Err(e) = guarded(|| ask(&a, &b, k)) {
                violated("panic", format!("query {k}: {e}"));
            }
            nontrivial();
        }
    }
}

pub fn c01() {
    let mut shared: Vec<N> = vec![];
    for _ in 0..2 + work(12) {
        build(&mut shared, &[]);
    }
    if shared.is_empty() {
        shared.push(leaf());
    }
    if chance(12) {
        deep(&mut shared, &[]);
    }
    note(|| format!("{} shared numbers", shared.len()));
    let threads = [1, 2, 2, 3, 4][work(5)];
    let steps = 2 + work(24);
    if threads == 1 {
        return worker(&shared, steps, 0);
    }
    // mostly at single-edge granularity: that is where caches are filled
    sim().max_slice = [8, 32, 200, 2000, 1 << 18][work(5)];
    let shared = Arc::new(shared);
    count("op.threads", threads as u64);
    for i in 0..threads {
        let s = shared.clone();
        spawn(move || worker(&s, steps, i));
    }
    rt::join_all();
}
