//! C03: equality, ordering and hashing of persistent vectors depend only on the elements.
use proptest::prelude::*;
use rustica::pvec::PersistentVector as PV;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use vharness::pv::*;
use vharness::runner::*;
use vharness::{ensure, ensure_eq};

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn relate<T: Clone + Ord + Hash + Debug>(a: &PV<T>, b: &PV<T>, ctx: &str) -> Res {
    // Judged on the elements the vectors actually hold.
    let (x, y) = (a.to_vec(), b.to_vec());
    ensure_eq!(a == b, x == y, "{ctx}: ==");
    ensure_eq!(a != b, x != y, "{ctx}: !=");
    ensure_eq!(b == a, x == y, "{ctx}: == (swapped)");
    ensure_eq!(a.cmp(b), x.cmp(&y), "{ctx}: cmp");
    ensure_eq!(b.cmp(a), y.cmp(&x), "{ctx}: cmp (swapped)");
    ensure_eq!(a.partial_cmp(b), x.partial_cmp(&y), "{ctx}: partial_cmp");
    ensure_eq!(a < b, x < y, "{ctx}: <");
    ensure_eq!(a <= b, x <= y, "{ctx}: <=");
    ensure_eq!(a > b, x > y, "{ctx}: >");
    ensure_eq!(a.clone().max(b.clone()).to_vec(), x.clone().max(y.clone()), "{ctx}: max");
    if x == y {
        ensure_eq!(hash(a), hash(b), "{ctx}: hash of equal vectors");
        let mut m = HashMap::new();
        m.insert(a.clone(), 1);
        ensure_eq!(m.get(b), Some(&1), "{ctx}: HashMap lookup by an equal key");
        ensure_eq!(m.insert(b.clone(), 2), Some(1), "{ctx}: HashMap insert of an equal key");
    }
    let hs: HashSet<PV<T>> = [a.clone(), b.clone()].into_iter().collect();
    ensure_eq!(hs.len(), if x == y { 1 } else { 2 }, "{ctx}: HashSet size");
    let bs: BTreeSet<PV<T>> = [a.clone(), b.clone()].into_iter().collect();
    ensure_eq!(bs.len(), if x == y { 1 } else { 2 }, "{ctx}: BTreeSet size");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Same,
    Change(u16, u8),
    Drop(u16),
    Add(u16, u8),
    Swap(u16, u16),
    Prefix(u16),
}
fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        3 => Just(Edit::Same),
        3 => (any::<u16>(), 0u8..4).prop_map(|(a, b)| Edit::Change(a, b)),
        2 => any::<u16>().prop_map(Edit::Drop),
        2 => (any::<u16>(), 0u8..4).prop_map(|(a, b)| Edit::Add(a, b)),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Edit::Swap(a, b)),
        1 => any::<u16>().prop_map(Edit::Prefix),
    ]
    .boxed()
}
fn apply(e: &Edit, xs: &[u8]) -> Vec<u8> {
    let mut v = xs.to_vec();
    let f = |k: u16, n: usize| (n * k as usize) >> 16;
    match e {
        Edit::Same => {}
        Edit::Change(k, x) => {
            if !v.is_empty() {
                let i = f(*k, v.len());
                v[i] = *x;
            }
        }
        Edit::Drop(k) => {
            if !v.is_empty() {
                v.remove(f(*k, v.len()));
            }
        }
        Edit::Add(k, x) => v.insert(f(*k, v.len() + 1), *x),
        Edit::Swap(a, b) => {
            if !v.is_empty() {
                let n = v.len();
                v.swap(f(*a, n), f(*b, n));
            }
        }
        Edit::Prefix(k) => v.truncate(f(*k, v.len() + 1)),
    }
    v
}

fn contents() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => content_len().prop_flat_map(|n| prop::collection::vec(0u8..4, n..=n)),
        1 => content_len().prop_map(|n| (0..n).map(|i| (i % 3) as u8).collect()),
        1 => content_len().prop_map(|n| vec![1u8; n]),
    ]
    .boxed()
}

fn main() {
    let mut s = Suite::new("C03");
    s.check(
        "pairs",
        "the two vectors are built along different recipes, one longer than 64",
        150_000,
        || (contents(), edit(), recipe(), recipe()),
        |(xs, e, r1, r2), obs| {
            let ys = apply(e, xs);
            let a = build(r1, xs, &9);
            let b = build(r2, &ys, &9);
            obs.tag(if *xs == ys { "equal content" } else { "different content" });
            obs.tag_if(xs.len() > 64, "tree");
            obs.nontrivial(xs.len() > 64 && format!("{r1:?}") != format!("{r2:?}"));
            relate(&a, &b, "pair")?;
            relate(&a, &a.clone(), "clone")
        },
    );
    s.check(
        "strings",
        "content along two recipes, owning elements, at least two elements",
        50_000,
        || (prop::collection::vec(vharness::sym::val(), 0..90), edit(), recipe(), recipe()),
        |(xs, e, r1, r2), obs| {
            let idx: Vec<u8> = (0..xs.len() as u8).collect();
            let ys: Vec<String> = apply(e, &idx).iter().map(|i| xs.get(*i as usize).cloned().unwrap_or_default()).collect();
            let z = "zz".to_string();
            obs.nontrivial(xs.len() > 1);
            relate(&build(r1, xs, &z), &build(r2, &ys, &z), "pair")
        },
    );
    s.check(
        "history-versions",
        "all pairs of the last versions of a history, one longer than 64",
        30_000,
        || history(Scale::Small, 25),
        |h, obs| {
            let mut p = Pool::new(h.scale);
            for op in &h.ops {
                if !no_panic(|| p.apply(op).is_ok()).unwrap_or(false) {
                    break;
                }
            }
            let vs: Vec<_> = p.vers.iter().rev().take(7).map(|w| w.v.clone()).collect();
            obs.nontrivial(vs.iter().any(|v| v.len() > 64));
            for a in &vs {
                // an independently built equal vector
                relate(a, &PV::from_slice(&a.to_vec()), "rebuilt")?;
                for b in &vs {
                    relate(a, b, "versions")?;
                }
            }
            Ok(())
        },
    );
    s.check(
        "triples-transitive",
        "three vectors with near-equal contents",
        50_000,
        || (contents(), edit(), edit(), recipe(), recipe(), recipe()),
        |(xs, e1, e2, r1, r2, r3), obs| {
            let ys = apply(e1, xs);
            let zs = apply(e2, &ys);
            let (a, b, c) = (build(r1, xs, &9), build(r2, &ys, &9), build(r3, &zs, &9));
            obs.nontrivial(xs.len() > 1 && (*xs != ys || ys != zs));
            if a == b && b == c {
                ensure!(a == c && hash(&a) == hash(&c), "equality not transitive");
            }
            if a.cmp(&b) != Ordering::Greater && b.cmp(&c) != Ordering::Greater {
                ensure!(a.cmp(&c) != Ordering::Greater, "order not transitive");
            }
            let mut sorted = vec![a.clone(), b.clone(), c.clone()];
            sorted.sort();
            let mut m = vec![a.to_vec(), b.to_vec(), c.to_vec()];
            m.sort();
            ensure_eq!(sorted.iter().map(|v| v.to_vec()).collect::<Vec<_>>(), m, "sorting vectors");
            Ok(())
        },
    );
    s.check(
        "floats-partial",
        "partially ordered elements including NaN",
        40_000,
        || (prop::collection::vec(0u8..5, 0..80), prop::collection::vec(0u8..5, 0..80), recipe(), recipe(), any::<bool>()),
        |(xs, ys, r1, r2, same), obs| {
            let f = |v: &[u8]| -> Vec<f64> { v.iter().map(|k| [0.0, -0.0, 1.5, f64::NAN, f64::INFINITY][*k as usize]).collect() };
            let (fx, fy) = (f(xs), f(if *same { xs } else { ys }));
            let (a, b) = (build(r1, &fx, &7.0), build(r2, &fy, &7.0));
            let (x, y) = (a.to_vec(), b.to_vec());
            obs.nontrivial(xs.contains(&3) || *same);
            ensure_eq!(a == b, x == y, "float ==");
            ensure_eq!(a.partial_cmp(&b), x.partial_cmp(&y), "float partial_cmp");
            Ok(())
        },
    );
    s.main()
}
