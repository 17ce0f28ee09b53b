//! C37: what is taken from an iterator is its elements, whatever it says about their number.
#![allow(deprecated)]
use proptest::prelude::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::io::{IO, IOError};
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::error::{accumulate_context, collect_errors, context_accumulator, ComposableError};
use rustica::pvec::PersistentVector;
use rustica::traits::monoid;
use rustica::traits::semigroup::{self, Semigroup, SemigroupExt};
use rustica::utils::categorical_utils as cu;
use rustica::utils::error_utils as eu;
use rustica::utils::hkt_utils as hu;
use std::collections::{BTreeSet, VecDeque};
use std::fmt::Debug;
use vharness::iters::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

type V = Validated<S, S>;

/// Elements for an iterator and what it says about their number.
fn items(cap: usize) -> BoxedStrategy<(Vec<u32>, u8)> {
    let size = prop_oneof![
        3 => 0usize..10,
        2 => prop::sample::select(vec![0usize, 1, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 1056, 1057, 1088, 2048, 2049]),
        2 => 10usize..100,
        1 => 100usize..1200,
    ];
    (size.prop_map(move |n| n.min(cap)), any::<u64>(), 0..SHAPES)
        .prop_map(|(n, seed, shape)| ((0..n as u64).map(|i| ((seed ^ i.wrapping_mul(0x9e3779b97f4a7c15)).wrapping_mul(0xd6e8feb86659fd93) >> 40) as u32 % 1000).collect(), shape))
        .boxed()
}
fn strs(v: &[u32]) -> Vec<S> {
    v.iter().map(|x| x.to_string()).collect()
}
fn note(v: &[u32], shape: u8, obs: &mut Obs) {
    obs.nontrivial(shape != 0 && v.len() > 1);
    obs.tag_if(v.len() > 8, "more than eight elements");
    obs.tag_if(v.len() > 64, "more than sixty-four elements");
    obs.tag_if(shape == 0, "exact length");
    obs.tag_if(matches!(shape, 1 | 2 | 6), "no lower bound");
    obs.tag_if(matches!(shape, 1 | 3 | 4), "no upper bound");
}
fn all<T: PartialEq + Debug + Clone>(got: &PersistentVector<T>, want: &[T], what: &str) -> Res {
    ensure_eq!(got.len(), want.len(), "{what}: length");
    ensure_eq!(got.iter().cloned().collect::<Vec<_>>(), want, "{what}: iteration");
    for (i, x) in want.iter().enumerate() {
        ensure_eq!(got.get(i), Some(x), "{what}: element {i}");
    }
    ensure_eq!(got.get(want.len()), None, "{what}: past the end");
    Ok(())
}
fn seen(v: &V) -> Result<S, Vec<S>> {
    match v {
        Validated::Valid(x) => Ok(x.clone()),
        Validated::Invalid(e) => Err(e.to_vec()),
    }
}
/// Joins everything a semigroup of strings is given, in order.
fn joined(first: Option<&str>, v: &[u32]) -> S {
    first.unwrap_or("").to_string() + &strs(v).concat()
}
fn nums<T: From<u32>>(v: &[u32]) -> Vec<T> {
    v.iter().map(|x| T::from(*x)).collect()
}
#[derive(Clone, Debug, PartialEq)]
struct Word(S);
impl From<u32> for Word {
    fn from(x: u32) -> Self {
        Word(x.to_string())
    }
}
impl Semigroup for Word {
    fn combine(&self, o: &Self) -> Self {
        Word(format!("{}{}", self.0, o.0))
    }
    fn combine_owned(self, o: Self) -> Self {
        Word(self.0 + &o.0)
    }
}
impl monoid::Monoid for Word {
    fn empty() -> Self {
        Word(S::new())
    }
}

fn main() {
    let mut s = Suite::new("C37");
    s.assume("an iterator's size_hint is true: the lower bound is not above, the upper bound not below the number of elements it yields");
    const RULE: &str = "at least two elements, and the iterator does not give their exact number";
    s.check("vector", RULE, 8_000, || (items(3000), items(300), any::<u8>()), |((v, sh), (w, sh2), f), obs| {
        note(v, *sh, obs);
        let p: PersistentVector<u32> = shaped(v.clone(), *sh).collect();
        all(&p, v, "collect")?;
        all(&PersistentVector::from_iter(shaped(strs(v), *sh)), &strs(v), "collect strings")?;
        let mut q = p.clone();
        q.extend(shaped(w.clone(), *sh2));
        let vw: Vec<u32> = v.iter().chain(w).copied().collect();
        all(&q, &vw, "extend")?;
        all(&p, v, "the vector before extend")?;
        q.extend(shaped(v.iter().take(50).copied(), *sh));
        all(&q, &vw.iter().chain(v.iter().take(50)).copied().collect::<Vec<_>>(), "extend again")?;
        // each element gives a few
        let few = |x: &u32| (0..(*x as usize + *f as usize) % 4).map(|i| x * 10 + i as u32).collect::<Vec<_>>();
        let v = &v[..v.len().min(400)];
        let p: PersistentVector<u32> = v.iter().copied().collect();
        let want: Vec<u32> = v.iter().flat_map(few).collect();
        all(&p.flat_map(|x| shaped(few(x), *sh2)), &want, "flat_map")?;
        all(&p.flat_map(|x| VecDeque::from(few(x))), &want, "flat_map to deques")
    });
    s.check("choice", RULE, 12_000, || (items(1500), items(300), any::<u8>()), |((v, sh), (w, sh2), f), obs| {
        note(v, *sh, obs);
        type C = Choice<u32>;
        let is = |c: &C, want: &[u32], what: &str| -> Res {
            ensure_eq!(Choice::to_vec(c), want, "{what}");
            ensure_eq!((c.len(), c.first(), c.alternatives()), (want.len(), want.first(), want.get(1..).unwrap_or(&[])), "{what}: parts");
            Ok(())
        };
        let c = C::of_many(shaped(v.clone(), *sh));
        is(&c, v, "of_many")?;
        is(&shaped(v.clone(), *sh).collect(), v, "collect")?;
        is(&C::of_many(v.iter().copied().collect::<VecDeque<_>>()), v, "of_many of a deque")?;
        if let Some((p, r)) = v.split_first() {
            is(&C::new(*p, shaped(r.to_vec(), *sh)), v, "new")?;
            is(&C::new(*p, []).add_alternatives(shaped(r.to_vec(), *sh)), v, "add_alternatives")?;
        }
        let vw: Vec<u32> = v.iter().chain(w).copied().collect();
        is(&c.clone().add_alternatives(shaped(w.clone(), *sh2)), &vw, "add_alternatives to many")?;
        let k = 1 + *f as usize % 40;
        let parts: Vec<C> = v.chunks(k).map(|x| C::of_many(x.to_vec())).collect();
        is(&shaped(parts.clone(), *sh).collect(), v, "collect choices")?;
        is(&shaped(parts.clone(), *sh).sum(), v, "sum of choices")?;
        // elements that are collections themselves
        let nested: Choice<Shaped<u32>> = Choice::of_many(v.chunks(k).map(|x| shaped(x.to_vec(), *sh2)));
        if !v.is_empty() {
            is(&nested.flatten(), v, "flatten")?;
            is(&nested.try_flatten().map_err(|e| e.to_string())?, v, "try_flatten")?;
            let mut sorted = v.clone();
            sorted[1..].sort();
            is(&nested.flatten_sorted(), &sorted, "flatten_sorted")?;
        }
        Ok(())
    });
    s.check("validated", RULE, 15_000, || (items(1200), any::<u64>(), 0u8..3), |((v, sh), fails, most), obs| {
        note(v, *sh, obs);
        let es = strs(v);
        if v.is_empty() {
            ensure_eq!(seen(&V::invalid_many(shaped(es.clone(), *sh))), Err(vec![]), "invalid_many of nothing");
            ensure!(no_panic(|| V::invalid_vec(shaped(es.clone(), *sh))).is_err(), "invalid_vec of nothing made up an error");
            ensure_eq!(collect_errors(shaped(es.clone(), *sh)), Validated::Valid(()), "collect_errors of nothing");
        } else {
            ensure_eq!(seen(&V::invalid_many(shaped(es.clone(), *sh))), Err(es.clone()), "invalid_many");
            ensure_eq!(seen(&V::invalid_vec(shaped(es.clone(), *sh))), Err(es.clone()), "invalid_vec");
            match collect_errors(shaped(es.clone(), *sh)) {
                Validated::Valid(()) => return Err("collect_errors lost every error".into()),
                Validated::Invalid(got) => ensure_eq!(got.to_vec(), es, "collect_errors"),
            }
        }
        // some of them failed, with one error or with several
        let bad = |i: usize| match most {
            0 => false,
            1 => (fails >> (i % 64)) & 1 == 1,
            _ => v[i] % 97 == 0,
        };
        let n_err = |i: usize| if fails % 3 == 0 { v[i] as usize % 11 } else { 1 };
        let each: Vec<V> = (0..v.len()).map(|i| if bad(i) { V::invalid_many((0..n_err(i)).map(|j| format!("{i}.{j}"))) } else { V::Valid(es[i].clone()) }).collect();
        let failed = (0..v.len()).any(bad);
        obs.tag_if(failed, "some of them failed");
        let want: Result<Vec<S>, Vec<S>> = if failed {
            Err((0..v.len()).filter(|i| bad(*i)).flat_map(|i| (0..n_err(i)).map(move |j| format!("{i}.{j}"))).collect())
        } else {
            Ok(es.clone())
        };
        fn parts<C>(x: Validated<S, C>) -> Result<C, Vec<S>> {
            match x {
                Validated::Valid(c) => Ok(c),
                Validated::Invalid(e) => Err(e.to_vec()),
            }
        }
        ensure_eq!(parts(V::collect::<_, Vec<S>>(shaped(each.clone(), *sh))), want, "collect");
        ensure_eq!(parts(V::collect_owned::<_, Vec<S>>(shaped(each.clone(), *sh))), want, "collect_owned");
        ensure_eq!(parts(V::collect::<_, VecDeque<S>>(shaped(each.clone(), *sh))), want.clone().map(VecDeque::from), "collect to a deque");
        ensure_eq!(parts(V::collect_owned::<_, BTreeSet<S>>(shaped(each.clone(), *sh))), want.clone().map(|v| v.into_iter().collect()), "collect_owned to a set");
        ensure_eq!(parts(V::collect_owned::<_, S>(shaped(each.clone(), *sh))), want.clone().map(|v| v.concat()), "collect_owned to a string");
        ensure_eq!(parts(V::collect::<_, PersistentVector<S>>(shaped(each.clone(), *sh))).map(|p| p.to_vec()), want, "collect to a persistent vector");
        // the same by traversing
        let run = |i: usize| if bad(i) { Err(format!("{i}.0")) } else { Ok(es[i].clone()) };
        let (ok, err): (Vec<_>, Vec<_>) = (0..v.len()).map(run).partition(|r| r.is_ok());
        let (ok, err): (Vec<S>, Vec<S>) = (ok.into_iter().map(|r| r.unwrap()).collect(), err.into_iter().map(|r| r.unwrap_err()).collect());
        ensure_eq!(parts(eu::traverse_validated(shaped(0..v.len(), *sh), run)), if failed { Err(err.clone()) } else { Ok(ok.clone()) }, "traverse_validated");
        ensure_eq!(eu::traverse(shaped(0..v.len(), *sh), run), if failed { Err(err[0].clone()) } else { Ok(ok) }, "traverse");
        Ok(())
    });
    s.check("combine", RULE, 20_000, || items(1200), |(v, sh), obs| {
        note(v, *sh, obs);
        let it = || shaped(strs(v), *sh);
        let whole = joined(None, v);
        ensure_eq!("x".to_string().combine_all(it()), joined(Some("x"), v), "combine_all onto a first");
        ensure_eq!(semigroup::combine_values("x".to_string(), it()), joined(Some("x"), v), "combine_values");
        ensure_eq!(semigroup::combine_all_values(it()), (!v.is_empty()).then(|| whole.clone()), "combine_all_values");
        ensure_eq!(monoid::combine_all(it()), whole, "monoid combine_all");
        ensure_eq!(cu::fold_with::<_, u32, Word>(shaped(v.clone(), *sh)), Word(whole.clone()), "fold_with");
        match no_panic(|| S::combine_all_owned(it())) {
            Ok(got) => ensure!(!v.is_empty() && got == whole, "combine_all_owned: {got}"),
            Err(e) => ensure!(v.is_empty(), "combine_all_owned: {e}"),
        }
        // the wrappers, as the numbers they wrap
        let ns: Vec<u64> = nums(v);
        ensure_eq!(monoid::combine_all(shaped(ns.iter().map(|x| Sum(*x)), *sh)), Sum(ns.iter().sum()), "sums");
        ensure_eq!(monoid::combine_all(shaped(ns.iter().map(|x| Product(x % 2 + 1)), *sh).take(60)), Product(ns.iter().take(60).map(|x| x % 2 + 1).product()), "products");
        ensure_eq!(monoid::combine_all(shaped(ns.iter().map(|x| Max(*x)), *sh)), Max(ns.iter().copied().max().unwrap_or(0)), "maxima");
        ensure_eq!(semigroup::combine_all_values(shaped(ns.iter().map(|x| Min(*x)), *sh)), ns.iter().copied().min().map(Min), "minima");
        let gaps = || ns.iter().map(|x| (x % 3 == 0).then_some(*x));
        ensure_eq!(monoid::combine_all(shaped(gaps().map(First), *sh)), First(gaps().flatten().next()), "firsts");
        ensure_eq!(monoid::combine_all(shaped(gaps().map(Last), *sh)), Last(gaps().flatten().last()), "lasts");
        Ok(())
    });
    s.check("collections", RULE, 15_000, || (items(1200), pred(), fun()), |((v, sh), p, f), obs| {
        note(v, *sh, obs);
        let es = strs(v);
        let it = || shaped(es.clone(), *sh);
        ensure_eq!(it().collect::<Maybe<S>>(), es.first().cloned().map_or(Maybe::Nothing, Maybe::Just), "collect into a maybe");
        let kept: Vec<S> = es.iter().filter(|x| p.ok(x)).map(|x| f.ap(x)).collect();
        ensure_eq!(hu::filter_map(it(), |x: &S| p.ok(x), |x: S| f.ap(&x)), kept, "filter_map");
        ensure_eq!(cu::filter_map_collect(it(), |x: S| p.ok(&x).then(|| f.ap(&x))), kept, "filter_map_collect");
        // a pipeline of one step per element, ending at the first that refuses
        let steps = |stop: bool| shaped(es.iter().cloned().enumerate().map(move |(i, e)| move |acc: S| (!stop || i < 40 || e != "7").then(|| h(&format!("{acc}{e}"), 0).to_string())), *sh);
        for stop in [false, true] {
            let want = es.iter().enumerate().try_fold("s".to_string(), |acc, (i, e)| (!stop || i < 40 || e != "7").then(|| h(&format!("{acc}{e}"), 0).to_string()));
            ensure_eq!(hu::pipeline_option("s".to_string(), steps(stop)), want, "pipeline_option");
        }
        Ok(())
    });
    s.check("effects", RULE, 2_500, || (items(300), 0u8..3), |((v, sh), most), obs| {
        note(v, *sh, obs);
        let bad = |i: usize| *most > 0 && (v[i] as usize + i) % if *most == 1 { 7 } else { 53 } == 0;
        let es = strs(v);
        ensure_eq!(IO::sequence(shaped(es.iter().map(|e| { let e = e.clone(); IO::new(move || e.clone()) }), *sh)).run(), es, "IO::sequence");
        let ios = (0..v.len()).map(|i| {
            let e = es[i].clone();
            match (bad(i), i % 2) {
                (true, _) => IO::new(move || -> S { panic!("{i}") }),
                (_, 0) => IO::pure(e),
                _ => IO::new(move || e.clone()),
            }
        });
        let failed = (0..v.len()).filter(|i| bad(*i)).count();
        obs.tag_if(failed > 0, "some of them failed");
        match IO::sequence_composable(shaped(ios, *sh)) {
            Ok(got) => ensure!(failed == 0 && got == es, "sequence_composable: {got:?}"),
            Err(errs) => {
                ensure_eq!(errs.len(), failed, "sequence_composable: number of errors");
                for (e, i) in errs.iter().zip((0..v.len()).filter(|i| bad(*i))) {
                    match e.core_error() {
                        IOError::Other(m) => ensure!(m.contains(&i.to_string()), "sequence_composable: error of operation {i}: {m}"),
                        e => return Err(format!("sequence_composable: error of operation {i}: {e:?}").into()),
                    }
                }
            }
        }
        Ok(())
    });
    s.check("contexts", RULE, 10_000, || (items(200), items(20)), |((v, sh), (w, sh2)), obs| {
        note(v, *sh, obs);
        let (a, b) = (strs(v), strs(w));
        // the one added last comes first
        let parts = |e: &ComposableError<S>| (e.core_error().clone(), e.context().iter().map(|c| c.to_string()).collect::<Vec<S>>());
        let want = ("e".to_string(), a.iter().rev().cloned().collect::<Vec<_>>());
        let e = ComposableError::new("e".to_string()).with_contexts(shaped(a.clone(), *sh));
        ensure_eq!(parts(&e), want, "with_contexts");
        ensure_eq!(parts(&accumulate_context("e".to_string(), shaped(a.clone(), *sh))), want, "accumulate_context");
        let f = context_accumulator(shaped(a.clone(), *sh));
        for _ in 0..2 {
            ensure_eq!(parts(&f("e".to_string())), want, "context_accumulator");
        }
        let both = ("e".to_string(), b.iter().rev().chain(a.iter().rev()).cloned().collect::<Vec<_>>());
        ensure_eq!(parts(&e.with_contexts(shaped(b.clone(), *sh2))), both, "with_contexts onto others");
        Ok(())
    });
    s.main()
}
