//! C09: semigroup and monoid laws, and bulk combination as a left fold.
use proptest::collection::{btree_map, btree_set, vec};
use proptest::option;
use proptest::prelude::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::id::Id;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::monoid::{self, Monoid, MonoidExt};
use rustica::traits::semigroup::{self, Semigroup, SemigroupExt};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use vharness::cont::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

type VS = Vec<S>;
type MapS = BTreeMap<S, S>;

fn cat(a: &S, b: &S) -> S {
    format!("{a}{b}")
}
fn join<T: Clone>(a: &Vec<T>, b: &Vec<T>) -> Vec<T> {
    a.iter().chain(b).cloned().collect()
}
fn merge<V: Clone>(a: &BTreeMap<S, V>, b: &BTreeMap<S, V>, f: impl Fn(&V, &V) -> V) -> BTreeMap<S, V> {
    let mut r = a.clone();
    for (k, v) in b {
        let n = match a.get(k) {
            Some(o) => f(o, v),
            None => v.clone(),
        };
        r.insert(k.clone(), n);
    }
    r
}
fn optc(a: &Option<S>, b: &Option<S>) -> Option<S> {
    match (a, b) {
        (Some(a), Some(b)) => Some(cat(a, b)),
        (a, b) => a.clone().or(b.clone()),
    }
}
fn key() -> BoxedStrategy<S> {
    prop::sample::select(vec!["k", "l", "m", "n", ""]).prop_map(|s| s.to_string()).boxed()
}
fn maps() -> BoxedStrategy<MapS> {
    btree_map(key(), val(), 0..5).boxed()
}

/// Integers whose product never overflows.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Ring(i64);
impl std::ops::Mul for Ring {
    type Output = Ring;
    fn mul(self, o: Ring) -> Ring {
        Ring(self.0.wrapping_mul(o.0))
    }
}
impl From<u8> for Ring {
    fn from(n: u8) -> Ring {
        Ring(n.into())
    }
}

/// Values that are equal without being the same: which one is kept does not depend on the grouping.
macro_rules! keyed_laws {
    ($s:ident, $name:literal, $T:ty, $max:expr, $mk:expr, $full:expr) => {
        $s.check(
            concat!("laws/", $name, " of values equal by a key"),
            "values of two operands are equal and different",
            15_000,
            || {
                let v = || vec(vharness::sym::keyed(), 1usize..$max);
                (v(), v(), v(), list(v(), 4, 10))
            },
            |(a, b, c, more): &(Vec<Keyed>, Vec<Keyed>, Vec<Keyed>, Vec<Vec<Keyed>>), obs: &mut Obs| {
                let mk: fn(&[Keyed]) -> $T = $mk;
                let full: fn(&$T) -> Vec<(u8, S)> = $full;
                let all = |x: &$T| {
                    let mut v = full(x);
                    v.sort();
                    v
                };
                obs.nontrivial([(a, b), (b, c), (a, c)].iter().any(|(a, b)| a.iter().any(|x| b.iter().any(|y| x == y && x.tag != y.tag))));
                let (x, y, z) = (mk(a), mk(b), mk(c));
                let want = x.combine(&y).combine(&z);
                ensure_eq!(all(&x.combine(&y.combine(&z))), all(&want), "(a + b) + c = a + (b + c)");
                ensure_eq!(
                    all(&x.clone().combine_owned(y.clone().combine_owned(z.clone()))),
                    all(&x.clone().combine_owned(y.clone()).combine_owned(z.clone())),
                    "associativity (owned)"
                );
                let ts = || more.iter().map(|v| mk(v)).collect::<Vec<$T>>();
                let want = all(&ts().iter().fold(x.clone(), |p, q| p.combine(q)));
                ensure_eq!(all(&x.clone().combine_all(ts())), want, "combine_all");
                ensure_eq!(all(&semigroup::combine_values(x.clone(), ts())), want, "combine_values");
                let one = std::iter::once(x.clone()).chain(ts()).collect::<Vec<_>>();
                ensure_eq!(semigroup::combine_all_values(one.clone()).map(|t| all(&t)), Some(want.clone()), "combine_all_values");
                ensure_eq!(all(&<$T as SemigroupExt>::combine_all_owned(one)), want, "combine_all_owned");
                Ok(())
            },
        );
    };
}
macro_rules! semi {
    ($s:ident, $name:literal, $M:ty, $T:ty, $strat:expr, $mk:expr, $view:expr, $op:expr) => {
        $s.check(
            concat!("laws/", $name),
            "the operands are not all equal and the combination differs from each of them",
            30_000,
            || ($strat, $strat, $strat),
            |(a, b, c): &($M, $M, $M), obs| {
                let mk: fn($M) -> $T = $mk;
                let view: fn(&$T) -> $M = $view;
                let op: fn(&$M, &$M) -> $M = $op;
                let want = op(a, b);
                obs.nontrivial((a != b || b != c) && (want != *a || want != *b));
                let (x, y, z) = (mk(a.clone()), mk(b.clone()), mk(c.clone()));
                ensure_eq!(view(&x.combine(&y)), want, "combine");
                ensure_eq!(view(&x.clone().combine_owned(y.clone())), want, "combine_owned");
                ensure_eq!(view(&x.combine(&y).combine(&z)), view(&x.combine(&y.combine(&z))), "(a + b) + c = a + (b + c)");
                let l = x.clone().combine_owned(y.clone()).combine_owned(z.clone());
                let r = x.clone().combine_owned(y.clone().combine_owned(z.clone()));
                ensure_eq!(view(&l), view(&r), "associativity (owned)");
                ensure_eq!(view(&l), op(&want, c), "a + b + c");
                ensure_eq!(view(&x.combine(&x)), op(a, a), "a value combined with itself");
                ensure_eq!(view(&x.combine(&x.clone())), op(a, a), "a value combined with its copy");
                ensure_eq!(view(&x), *a, "the first operand itself");
                ensure_eq!(view(&y), *b, "the second operand itself");
                Ok(())
            },
        );
        $s.check(
            concat!("bulk/", $name),
            "at least two values to combine, or a repetition of at least two",
            20_000,
            || ($strat, list($strat, 8, 40), prop_oneof![8 => 0usize..10, 1 => 0usize..80]),
            |(a, vs, n): &($M, Vec<$M>, usize), obs| {
                let mk: fn($M) -> $T = $mk;
                let view: fn(&$T) -> $M = $view;
                let op: fn(&$M, &$M) -> $M = $op;
                obs.nontrivial(vs.len() > 1 || *n > 1);
                obs.tag_if(vs.is_empty(), "no values");
                obs.tag_if(*n > 3, "repetition of more than three");
                let x = mk(a.clone());
                let ts = || vs.iter().map(|v| mk(v.clone())).collect::<Vec<$T>>();
                let want = vs.iter().fold(a.clone(), |p, q| op(&p, q));
                ensure_eq!(view(&x.clone().combine_all(ts())), want, "combine_all");
                ensure_eq!(view(&semigroup::combine_values(x.clone(), ts())), want, "combine_values");
                let all = vs.iter().cloned().reduce(|p, q| op(&p, &q));
                ensure_eq!(semigroup::combine_all_values(ts()).map(|t| view(&t)), all, "combine_all_values");
                if let Some(all) = &all {
                    ensure_eq!(view(&<$T as SemigroupExt>::combine_all_owned(ts())), *all, "combine_all_owned");
                }
                if *n > 0 {
                    let want = (1..*n).fold(a.clone(), |p, _| op(&p, a));
                    ensure_eq!(view(&x.combine_n(n)), want, "combine_n({n})");
                    ensure_eq!(view(&x.clone().combine_n_owned(*n)), want, "combine_n_owned({n})");
                } else {
                    // Without an empty value, zero repetitions can only be the value itself.
                    ensure_eq!(view(&x.combine_n(n)), view(&x.clone().combine_n_owned(0)), "both forms of combine_n(0)");
                }
                ensure_eq!(view(&x), *a, "the value itself");
                Ok(())
            },
        );
    };
}

macro_rules! mono {
    ($s:ident, $name:literal, $M:ty, $T:ty, $strat:expr, $mk:expr, $view:expr, $op:expr, $empty:expr) => {
        semi!($s, $name, $M, $T, $strat, $mk, $view, $op);
        $s.check(
            concat!("monoid/", $name),
            "at least two values to combine, or a repetition of at least two",
            20_000,
            || ($strat, list($strat, 8, 40), prop_oneof![8 => 0usize..10, 1 => 0usize..80]),
            |(a, vs, n): &($M, Vec<$M>, usize), obs| {
                let mk: fn($M) -> $T = $mk;
                let view: fn(&$T) -> $M = $view;
                let op: fn(&$M, &$M) -> $M = $op;
                obs.nontrivial(vs.len() > 1 || *n > 1);
                let x = mk(a.clone());
                let e = <$T as Monoid>::empty();
                let em: $M = $empty;
                ensure_eq!(view(&e), em, "the empty value");
                ensure_eq!(view(&e.combine(&x)), *a, "empty + a");
                ensure_eq!(view(&x.combine(&e)), *a, "a + empty");
                ensure_eq!(view(&e.clone().combine_owned(x.clone())), *a, "empty + a (owned)");
                ensure_eq!(view(&x.clone().combine_owned(e.clone())), *a, "a + empty (owned)");
                ensure_eq!(x.is_empty_monoid(), *a == em, "is_empty_monoid");
                ensure!(e.is_empty_monoid(), "is_empty_monoid of the empty value");
                let ts = || vs.iter().map(|v| mk(v.clone())).collect::<Vec<$T>>();
                let want = vs.iter().fold(em.clone(), |p, q| op(&p, q));
                ensure_eq!(view(&monoid::combine_all::<$T, _>(ts())), want, "combine_all");
                ensure_eq!(view(&monoid::mconcat(&ts())), want, "mconcat");
                let want = (0..*n).fold(em.clone(), |p, _| op(&p, a));
                ensure_eq!(view(&monoid::repeat(x.clone(), *n)), want, "repeat {n}");
                ensure_eq!(view(&monoid::power(x.clone(), *n)), want, "power {n}");
                Ok(())
            },
        );
    };
}

fn keyed() -> BoxedStrategy<(u8, S)> {
    (0u8..5, val()).boxed()
}

fn main() {
    let mut s = Suite::new("C09");
    s.assume("Min claims no neutral element (documented); Max is neutral at zero for types without negative values");
    s.assume("the values inside sums and products are free-monoid words or small numbers without overflow");
    mono!(s, "String", S, S, val(), |a| a, |a| a.clone(), cat, S::new());
    mono!(s, "Vec", VS, VS, vals(9), |a| a, |a| a.clone(), join, vec![]);
    mono!(
        s,
        "PersistentVector",
        Vec<u16>,
        PersistentVector<u16>,
        vec(any::<u16>(), 0..200),
        |a| Md::ok(a).pipe(|m| <PersistentVector<u16> as Repr<u16>>::mk(m)),
        |a| a.to_vec(),
        join,
        vec![]
    );
    mono!(s, "Choice", VS, Choice<S>, vals(6), Choice::of_many, |c| c.iter().cloned().collect(), join, vec![]);
    mono!(s, "Id", VS, Id<VS>, vals(4), Id::new, |a| a.clone().into_inner(), join, vec![]);
    mono!(
        s,
        "Writer",
        (VS, S),
        Writer<VS, S>,
        (vals(4), val()),
        |(l, a)| Writer::new(l, a),
        |w| w.clone().run(),
        |a, b| (join(&a.0, &b.0), cat(&a.1, &b.1)),
        (vec![], S::new())
    );
    mono!(
        s,
        "Validated",
        Result<S, VS>,
        Validated<S, S>,
        md(Kind::Val).prop_map(|m| m.out.map(|v| v[0].clone())),
        |m| Repr::mk(Md { log: vec![], out: m.map(|v| vec![v]) }),
        |v| v.view().out.map(|v| v[0].clone()),
        |a, b| match (a, b) {
            (Err(x), Err(y)) => Err(join(x, y)),
            (Err(_), y) => y.clone(),
            (x, _) => x.clone(),
        },
        Err(vec![])
    );
    mono!(s, "Sum of words", S, Sum<Cat>, val(), |a| Sum(Cat(a)), |a| a.0 .0.clone(), cat, S::new());
    mono!(s, "Sum", i64, Sum<i64>, int().prop_map(|i| i >> 16), Sum, |a| a.0, |a, b| a + b, 0);
    mono!(s, "Product of words", S, Product<Cat>, val(), |a| Product(Cat(a)), |a| a.0 .0.clone(), cat, S::new());
    mono!(s, "Product", i64, Product<Ring>, int(), |a| Product(Ring(a)), |a| a.0 .0, |a, b| a.wrapping_mul(*b), 1);
    mono!(s, "Max", u64, Max<u64>, prop_oneof![4 => 0u64..9, 3 => any::<u64>(), 1 => Just(u64::MAX), 1 => Just(u64::MAX - 1)], Max, |a| a.0, |a, b| *a.max(b), 0);
    mono!(s, "Max of words", S, Max<S>, val(), Max, |a| a.0.clone(), |a, b| a.max(b).clone(), S::new());
    semi!(s, "Max of signed", i64, Max<i64>, int(), Max, |a| a.0, |a, b| *a.max(b));
    semi!(s, "Min", i64, Min<i64>, int(), Min, |a| a.0, |a, b| *a.min(b));
    semi!(s, "Min of words", S, Min<S>, val(), Min, |a| a.0.clone(), |a, b| a.min(b).clone());
    semi!(s, "Min of pairs", (u8, S), Min<(u8, S)>, keyed(), Min, |a| a.0.clone(), |a, b| a.min(b).clone());
    mono!(s, "First", Option<S>, First<S>, option::of(val()), First, |a| a.0.clone(), |a, b| a.clone().or(b.clone()), None);
    mono!(s, "Last", Option<S>, Last<S>, option::of(val()), Last, |a| a.0.clone(), |a, b| b.clone().or(a.clone()), None);
    semi!(s, "Option", Option<S>, Option<S>, option::of(val()), |a| a, |a| a.clone(), optc);
    semi!(s, "Option of lists", Option<VS>, Option<VS>, option::of(vals(3)), |a| a, |a| a.clone(), |a, b| match (a, b) {
        (Some(a), Some(b)) => Some(join(a, b)),
        (a, b) => a.clone().or(b.clone()),
    });
    semi!(s, "BTreeMap", MapS, BTreeMap<S, S>, maps(), |a| a, |a| a.clone(), |a, b| merge(a, b, cat));
    semi!(s, "HashMap", MapS, HashMap<S, S>, maps(), |a| a.into_iter().collect(), |a| a.clone().into_iter().collect(), |a, b| merge(a, b, cat));
    semi!(
        s,
        "nested maps",
        BTreeMap<S, MapS>,
        HashMap<S, BTreeMap<S, S>>,
        btree_map(key(), maps(), 0..4),
        |a| a.into_iter().collect(),
        |a| a.clone().into_iter().collect(),
        |a, b| merge(a, b, |x, y| merge(x, y, cat))
    );
    semi!(
        s,
        "BTreeMap of options",
        BTreeMap<S, Option<S>>,
        BTreeMap<S, Option<S>>,
        btree_map(key(), option::of(val()), 0..5),
        |a| a,
        |a| a.clone(),
        |a, b| merge(a, b, optc)
    );
    semi!(s, "BTreeSet", BTreeSet<S>, BTreeSet<S>, btree_set(val(), 0..6), |a| a, |a| a.clone(), |a, b| a.union(b).cloned().collect());
    semi!(s, "HashSet", BTreeSet<S>, HashSet<S>, btree_set(val(), 0..6), |a| a.into_iter().collect(), |a| a.iter().cloned().collect(), |a, b| {
        a.union(b).cloned().collect()
    });
    keyed_laws!(s, "Min", Min<Keyed>, 2, |v| Min(v[0].clone()), |x| vec![x.0.full()]);
    keyed_laws!(s, "Max", Max<Keyed>, 2, |v| Max(v[0].clone()), |x| vec![x.0.full()]);
    keyed_laws!(s, "BTreeSet", BTreeSet<Keyed>, 8, |v| v.iter().cloned().collect(), |x| x.iter().map(Keyed::full).collect());
    keyed_laws!(s, "HashSet", HashSet<Keyed>, 8, |v| v.iter().cloned().collect(), |x| x.iter().map(Keyed::full).collect());
    keyed_laws!(s, "BTreeMap", BTreeMap<Keyed, S>, 8, |v| v.iter().map(|k| (k.clone(), k.tag.clone())).collect(), |x| {
        x.iter().map(|(k, v)| (k.key, format!("{}={v}", k.tag))).collect()
    });
    keyed_laws!(s, "HashMap", HashMap<Keyed, S>, 8, |v| v.iter().map(|k| (k.clone(), k.tag.clone())).collect(), |x| {
        x.iter().map(|(k, v)| (k.key, format!("{}={v}", k.tag))).collect()
    });
    semi!(s, "pair", (S, VS), (S, VS), (val(), vals(3)), |a| a, |a| a.clone(), |a, b| (cat(&a.0, &b.0), join(&a.1, &b.1)));
    semi!(s, "triple", (S, VS, Option<S>), (S, VS, Option<S>), (val(), vals(3), option::of(val())), |a| a, |a| a.clone(), |a, b| (
        cat(&a.0, &b.0),
        join(&a.1, &b.1),
        optc(&a.2, &b.2)
    ));
    semi!(
        s,
        "quadruple",
        (S, S, VS, Option<S>),
        (S, S, VS, Option<S>),
        (val(), val(), vals(3), option::of(val())),
        |a| a,
        |a| a.clone(),
        |a, b| (cat(&a.0, &b.0), cat(&a.1, &b.1), join(&a.2, &b.2), optc(&a.3, &b.3))
    );
    semi!(
        s,
        "nested pairs",
        ((S, Option<S>), (VS, MapS)),
        ((S, Option<S>), (VS, MapS)),
        ((val(), option::of(val())), (vals(3), maps())),
        |a| a,
        |a| a.clone(),
        |a, b| ((cat(&a.0 .0, &b.0 .0), optc(&a.0 .1, &b.0 .1)), (join(&a.1 .0, &b.1 .0), merge(&a.1 .1, &b.1 .1, cat)))
    );
    s.main()
}

trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl<T> Pipe for T {}
