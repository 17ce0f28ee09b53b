//! C04: bulk operations on persistent vectors equal their list counterparts.
use proptest::prelude::*;
use rustica::pvec::{pvec, PersistentVector as PV};
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use vharness::pv::*;
use vharness::iters;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

/// Content is given as small numbers so that duplicates and runs are frequent; elements are the
/// symbolic strings "v0".."v7".
#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    xs: Vec<u8>,
    r: Recipe,
    f: Fun,
    g: Kl,
    p: Pred,
    k: u16,
}
fn s(n: u8) -> S {
    format!("v{n}")
}
fn contents() -> BoxedStrategy<Vec<u8>> {
    let bounded = prop_oneof![5 => 0usize..12, 3 => 55usize..75, 2 => 120usize..200, 1 => 0usize..400];
    prop_oneof![
        4 => bounded.clone().prop_flat_map(|n| prop::collection::vec(0u8..8, n..=n)),
        // runs, for dedup
        2 => bounded.clone().prop_flat_map(|n| prop::collection::vec((0u8..4, 1usize..5), n / 2..=n / 2))
            .prop_map(|rs| rs.into_iter().flat_map(|(x, k)| std::iter::repeat(x).take(k)).collect()),
        1 => bounded.prop_map(|n| (0..n).map(|i| (i * 7 % 8) as u8).collect()),
    ]
    .boxed()
}
fn input() -> BoxedStrategy<In> {
    (contents(), recipe(), fun(), kl(), pred(), any::<u16>()).prop_map(|(xs, r, f, g, p, k)| In { xs, r, f, g, p, k }).boxed()
}
fn mk(i: &In) -> (PV<S>, Vec<S>) {
    let xs: Vec<S> = i.xs.iter().map(|x| s(*x)).collect();
    let v = build(&i.r, &xs, &"zz".to_string());
    // Judge the bulk operation against the elements actually held (C01 decides what those are).
    let held = v.to_vec();
    (v, held)
}
fn trace<'a, A: ?Sized + ToString, B>(log: &'a RefCell<Vec<S>>, f: impl Fn(&A) -> B + 'a) -> impl Fn(&A) -> B + 'a {
    move |x| {
        log.borrow_mut().push(x.to_string());
        f(x)
    }
}

fn transforms(i: &In, obs: &mut Obs) -> Res {
    let (v, xs) = mk(i);
    obs.nontrivial(xs.len() > 1);
    obs.tag_if(xs.len() > 64, "tree");
    obs.tag_if(xs.is_empty(), "empty");
    let want: Vec<S> = xs.iter().map(|x| i.f.ap(x)).collect();
    let log = RefCell::new(vec![]);
    same(&v.map(trace(&log, |x: &S| i.f.ap(x))), &want, "map")?;
    ensure_eq!(log.take(), xs, "map visits");
    same(&v.fmap(|x| i.f.ap(x)), &want, "fmap")?;
    same(&v.clone().fmap_owned(|x| i.f.ap(&x)), &want, "fmap_owned")?;
    same(&v.replace(&s(9)), &vec![s(9); xs.len()], "replace")?;
    same(&v.clone().replace_owned(s(9)), &vec![s(9); xs.len()], "replace_owned")?;
    same(&v.void(), &vec![(); xs.len()], "void")?;
    same(&v.clone().void_owned(), &vec![(); xs.len()], "void_owned")?;
    let want: Vec<S> = xs.iter().filter(|x| i.p.ok(x)).cloned().collect();
    obs.tag_if(want.len() > 0 && want.len() < xs.len(), "proper filter");
    let log = RefCell::new(vec![]);
    same(&v.filter(trace(&log, |x: &S| i.p.ok(x))), &want, "filter")?;
    ensure_eq!(log.take(), xs, "filter visits");
    let (yes, no) = v.partition(|x| i.p.ok(x));
    same(&yes, &want, "partition.0")?;
    same(&no, &xs.iter().filter(|x| !i.p.ok(x)).cloned().collect::<Vec<_>>(), "partition.1")?;
    let fm = |x: &S| if i.p.ok(x) { Some(i.f.ap(x)) } else { None };
    same(&v.filter_map(fm), &xs.iter().filter_map(fm).collect::<Vec<_>>(), "filter_map")?;
    let fl = |x: &S| i.g.run(x).1;
    same(&v.flat_map(fl), &xs.iter().flat_map(fl).collect::<Vec<_>>(), "flat_map")?;
    let mut d = xs.clone();
    d.dedup();
    obs.tag_if(d.len() < xs.len(), "duplicates");
    same(&v.dedup(), &d, "dedup")?;
    let mut so = xs.clone();
    so.sort();
    same(&v.sorted(), &so, "sorted")?;
    // sorting is stable: pairs ordered by key only
    #[derive(Clone, Debug)]
    struct K(S, usize);
    impl PartialEq for K {
        fn eq(&self, o: &K) -> bool {
            self.0 == o.0
        }
    }
    impl Eq for K {}
    impl PartialOrd for K {
        fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> {
            Some(self.cmp(o))
        }
    }
    impl Ord for K {
        fn cmp(&self, o: &K) -> std::cmp::Ordering {
            self.0.cmp(&o.0)
        }
    }
    let ks: Vec<K> = xs.iter().cloned().enumerate().map(|(n, x)| K(x, n)).collect();
    let mut kss = ks.clone();
    kss.sort();
    let got: Vec<usize> = PV::from(ks.clone()).sorted().iter().map(|k| k.1).collect();
    ensure_eq!(got, kss.iter().map(|k| k.1).collect::<Vec<_>>(), "sorted keeps equal elements in order");
    let mut kd = ks.clone();
    kd.dedup();
    ensure_eq!(
        PV::from(ks).dedup().iter().map(|k| k.1).collect::<Vec<_>>(),
        kd.iter().map(|k| k.1).collect::<Vec<_>>(),
        "dedup keeps the first of a run"
    );
    let size = if i.k % 16 == 15 { far(xs.len(), i.k as usize / 16) } else { (i.k as usize % 80).min(xs.len() + 2) };
    let ch = v.chunk(size);
    let want: Vec<Vec<S>> = if size == 0 { vec![] } else { xs.chunks(size).map(|c| c.to_vec()).collect() };
    ensure_eq!(ch.len(), want.len(), "chunk({size}) count");
    for (n, w) in want.iter().enumerate() {
        same(&ch[n], w, &format!("chunk({size})[{n}]"))?;
    }
    // the original is untouched
    same(&v, &xs, "original afterwards")
}

fn folds(i: &In, obs: &mut Obs) -> Res {
    let (v, xs) = mk(i);
    obs.nontrivial(xs.len() > 1);
    obs.tag_if(xs.len() > 64, "tree");
    let l = |a: &S, x: &S| format!("({a}+{x})");
    let want = xs.iter().fold("i".to_string(), |a, x| l(&a, x));
    ensure_eq!(v.fold("i".to_string(), |a, x| l(&a, x)), want, "fold");
    ensure_eq!(v.fold_left(&"i".to_string(), l), want, "fold_left");
    let r = |x: &S, a: &S| format!("({x}:{a})");
    let want = xs.iter().rev().fold("i".to_string(), |a, x| r(x, &a));
    ensure_eq!(v.fold_right(&"i".to_string(), r), want, "fold_right");
    ensure_eq!(v.length(), xs.len(), "length");
    ensure_eq!(Foldable::is_empty(&v), xs.is_empty(), "Foldable::is_empty");
    ensure_eq!(v.fold_map(|x: &S| i.f.ap(x)), xs.iter().map(|x| i.f.ap(x)).collect::<S>(), "fold_map");
    ensure_eq!(v.fold_monoid::<S>(), xs.concat(), "fold_monoid");
    ensure_eq!(FoldableExt::find(&v, |x: &S| i.p.ok(x)), xs.iter().find(|x| i.p.ok(x)).cloned(), "find");
    ensure_eq!(FoldableExt::all(&v, |x: &S| i.p.ok(x)), xs.iter().all(|x| i.p.ok(x)), "all");
    ensure_eq!(FoldableExt::any(&v, |x: &S| i.p.ok(x)), xs.iter().any(|x| i.p.ok(x)), "any");
    for c in 0..9 {
        ensure_eq!(FoldableExt::contains(&v, &s(c)), xs.contains(&s(c)), "contains");
    }
    ensure_eq!(FoldableExt::to_vec(&v), xs, "FoldableExt::to_vec");
    ensure_eq!(v.maximum(), xs.iter().max().cloned(), "maximum");
    ensure_eq!(v.minimum(), xs.iter().min().cloned(), "minimum");
    ensure_eq!(FoldableExt::is_sorted(&v), xs.windows(2).all(|w| w[0] <= w[1]), "is_sorted");
    ensure_eq!(v.reduce(l), xs.iter().cloned().reduce(|a, x| l(&a, &x)), "reduce");
    let ints: PV<i64> = v.map(|x| x.len() as i64 * 3 + (h(x, 1) % 100) as i64 - 50);
    let iv: Vec<i64> = ints.to_vec();
    ensure_eq!(ints.sum_values(), iv.iter().sum::<i64>(), "sum_values");
    let small: PV<u64> = v.map(|x| h(x, 2) % 2 + 1);
    let sv = small.to_vec();
    if sv.len() < 60 {
        ensure_eq!(small.product_values(), sv.iter().product::<u64>(), "product_values");
    }
    ensure_eq!(v.try_value(), xs.first(), "try_value");
    ensure_eq!(v.clone().try_into_value(), xs.first().cloned(), "try_into_value");
    if let Some(x) = xs.first() {
        ensure_eq!(v.value(), x, "value");
        ensure_eq!(v.clone().into_value(), *x, "into_value");
    } else {
        ensure!(no_panic(|| v.value().clone()).is_err(), "value() of an empty vector returned");
        ensure!(no_panic(|| v.clone().into_value()).is_err(), "into_value() of an empty vector returned");
    }
    Ok(())
}

fn iterators(i: &(In, Vec<u8>), obs: &mut Obs) -> Res {
    let (i, steps) = i;
    let (v, xs) = mk(i);
    obs.nontrivial(xs.len() > 1 && !steps.is_empty());
    obs.tag_if(xs.len() > 64, "tree");
    // step through both iterators with next / nth / partial consumption
    let mut it = v.iter();
    let mut own = v.clone().into_iter();
    let mut ity = (&v).into_iter();
    let mut m = xs.iter();
    for st in steps {
        let n = m.len();
        ensure_eq!(it.len(), n, "iter exact length");
        ensure_eq!(own.len(), n, "into_iter exact length");
        ensure_eq!(it.size_hint(), (n, Some(n)), "iter size_hint");
        ensure_eq!(own.size_hint(), (n, Some(n)), "into_iter size_hint");
        let k = (*st % 5) as usize;
        let want = m.nth(k);
        ensure_eq!(it.nth(k), want, "iter nth({k})");
        ensure_eq!(own.nth(k), want.cloned(), "into_iter nth({k})");
        ensure_eq!(ity.nth(k), want, "&into_iter nth({k})");
    }
    let rest: Vec<S> = m.cloned().collect();
    ensure_eq!(it.size_hint().0, rest.len(), "rest size_hint");
    ensure_eq!(it.cloned().collect::<Vec<_>>(), rest, "iter rest");
    ensure_eq!(own.collect::<Vec<_>>(), rest, "into_iter rest");
    ensure_eq!(v.iter().count(), xs.len(), "count");
    ensure_eq!(v.iter().last(), xs.last(), "last");
    let mut fin = v.iter();
    while fin.next().is_some() {}
    ensure!(fin.next().is_none() && fin.len() == 0, "exhausted iterator stays exhausted");
    let mut n = 0;
    for x in &v {
        ensure!(Some(x) == xs.get(n), "for loop element {n}");
        n += 1;
    }
    ensure_eq!(n, xs.len(), "for loop length");
    Ok(())
}

fn joins(i: &(In, In), obs: &mut Obs) -> Res {
    let ((v, xs), (w, ys)) = (mk(&i.0), mk(&i.1));
    obs.nontrivial(!xs.is_empty() && !ys.is_empty());
    obs.tag_if(xs.len() > 64 && ys.len() > 64, "tree+tree");
    obs.tag_if((xs.len() > 64) != (ys.len() > 64), "inline+tree");
    let cat: Vec<S> = xs.iter().chain(&ys).cloned().collect();
    same(&v.combine(&w), &cat, "combine")?;
    same(&v.clone().combine_owned(w.clone()), &cat, "combine_owned")?;
    same(&PV::<S>::empty().combine(&v), &xs, "empty . v")?;
    same(&v.combine(&PV::empty()), &xs, "v . empty")?;
    let zipped: Vec<(S, S)> = xs.iter().cloned().zip(ys.iter().cloned()).collect();
    same(&v.zip(&w), &zipped, "zip")?;
    let mut e = v.clone();
    e.extend(ys.clone());
    same(&e, &cat, "extend")?;
    let mut e = v.clone();
    e.extend(w.clone());
    same(&e, &cat, "extend by vector")?;
    let c: PV<S> = v.iter().chain(w.iter()).cloned().collect();
    same(&c, &cat, "collect")?;
    same(&PV::from_slice(&cat), &cat, "from_slice")?;
    same(&PV::from(cat.clone()), &cat, "from Vec")?;
    same(&PV::from_slice_with_cache_policy(&cat, ()), &cat, "from_slice_with_cache_policy")?;
    same(&PV::<S>::with_cache_policy(()), &[], "with_cache_policy")?;
    ensure_eq!(Vec::<S>::from(e), cat, "into Vec");
    ensure_eq!(v.clone().into_iter().collect::<Vec<_>>(), xs, "into_iter");
    // associativity with a third operand and mconcat style folding
    let l = v.combine(&w).combine(&v);
    let r = v.combine(&w.combine(&v));
    same(&l, &r.to_vec(), "associativity")?;
    let p: PV<S> = pvec![];
    same(&p, &[], "pvec![]")?;
    let three = [s(1), s(2), s(3)];
    same(&pvec![three[0].clone(), three[1].clone(), three[2].clone()], &three, "pvec![..]")?;
    // each expression is evaluated once, in order; past what a vector holds without a tree
    let n = std::cell::Cell::new(cat.len() as u32);
    let next = || {
        n.set(n.get() + 1);
        n.get()
    };
    macro_rules! ten { (@ [$a:tt $($x:tt)*] [$($y:tt)*]) => { ten!(@ [$($x)*] [$($y)* next(), next(), next(), next(), next(), next(), next(), next(), next(), next(),]) }; (@ [] [$($y:tt)*]) => { pvec![$($y)* next()] }; ($($x:tt)*) => { ten!(@ [$($x)*] []) }; }
    for (many, len) in [(ten!(), 1), (ten!(1 2), 21), (ten!(1 2 3 4 5 6), 61), (ten!(1 2 3 4 5 6 7), 71), (ten!(1 2 3 4 5 6 7 8 9 10 11 12 13), 131)] {
        ensure_eq!(many.len(), len, "the length of pvec![..] of {len} expressions");
        let first = many.first().copied().unwrap_or(0);
        ensure_eq!(many.to_vec(), (first..first + len as u32).collect::<Vec<_>>(), "pvec![..] of {len} counting expressions");
    }
    ensure_eq!(n.get(), cat.len() as u32 + 285, "evaluations of the expressions of pvec![..]");
    Ok(())
}

fn main() {
    let mut su = Suite::new("C04");
    su.check("transforms", "at least two elements", 60_000, input, transforms);
    su.check("folds", "at least two elements", 45_000, input, folds);
    su.check("iterators", "at least two elements and one partial step", 60_000, || (input(), prop::collection::vec(any::<u8>(), 0..12)), iterators);
    su.check(
        "iterators/consumed",
        "at least two elements and one step",
        30_000,
        || (contents(), recipe(), iters::walk(), 0u8..3),
        |(xs, r, w, which), obs| {
            obs.nontrivial(xs.len() > 1 && !w.0.is_empty());
            obs.tag_if(xs.len() > 64, "tree");
            let v = build(r, xs, &77);
            match which {
                0 => iters::follows(v.iter(), xs, |x: &u8| *x, w, "iter"),
                1 => iters::follows((&v).into_iter(), xs, |x: &u8| *x, w, "by reference"),
                _ => iters::follows(v.into_iter(), xs, |x| x, w, "into_iter"),
            }
        },
    );
    su.check("joins", "both operands non-empty", 40_000, || (input(), input()), joins);
    su.main()
}
