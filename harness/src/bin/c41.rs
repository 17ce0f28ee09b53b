//! C41: operations over many elements finish on a small stack, with the result that the same operation
//! has on few: nothing recurses once per element.
use proptest::prelude::*;
use rustica::category::function_category::FunctionCategory;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::io::IO;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::sum::Sum;
use rustica::datatypes::writer::Writer;
use rustica::error::*;
use rustica::pvec::PersistentVector as PV;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::functor::{Functor, FunctorExt};
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::monoid;
use rustica::traits::semigroup::{self, Semigroup, SemigroupExt};
use rustica::utils::{categorical_utils as cu, error_utils as eu, hkt_utils as hu, transform_utils as tu};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use vharness::runner::*;
use vharness::{ensure, ensure_eq};

/// The stack every case has: at most 13 bytes for each element.
const STACK: usize = 512 * 1024;

/// The values of a case and a place among them.
#[derive(Debug, Clone)]
struct In {
    xs: Vec<u32>,
    at: usize,
}
impl In {
    fn n(&self) -> usize {
        self.xs.len()
    }
    fn k(&self) -> u32 {
        self.xs[self.at]
    }
    fn pv(&self) -> PV<u32> {
        self.xs.iter().copied().collect()
    }
    fn choice(&self) -> Choice<u32> {
        Choice::of_many(self.xs.clone())
    }
}
fn same<T: PartialEq + std::fmt::Debug>(got: T, want: T, what: &str) -> Result<(), Fail> {
    if got == want {
        return Ok(());
    }
    let (g, w) = (format!("{got:?}"), format!("{want:?}"));
    let at = g.bytes().zip(w.bytes()).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
    let cut = |s: &str| s.get(at.saturating_sub(40)..).unwrap_or("").chars().take(80).collect::<String>();
    Err(Fail::from(format!("{what}: differs at byte {at} of the shown forms: ..{} instead of ..{} (lengths {} and {})", cut(&g), cut(&w), g.len(), w.len())))
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

type Job = (&'static str, fn(&In) -> Result<(), Fail>);

fn pvec() -> Vec<Job> {
    vec![
        ("collect, iterate", |i| {
            let v = i.pv();
            same(v.iter().copied().collect::<Vec<_>>(), i.xs.clone(), "iter")?;
            same((&v).into_iter().count(), i.n(), "&into_iter")?;
            same(v.to_vec(), i.xs.clone(), "to_vec")?;
            same(Vec::from(v.clone()), i.xs.clone(), "Vec::from")?;
            same(v.into_iter().collect::<Vec<_>>(), i.xs.clone(), "into_iter")
        }),
        ("from_slice, From<Vec>, extend", |i| {
            same(PV::from_slice(&i.xs).to_vec(), i.xs.clone(), "from_slice")?;
            same(PV::from(i.xs.clone()).to_vec(), i.xs.clone(), "from")?;
            let mut v = PV::from_slice(&i.xs[..i.at]);
            v.extend(i.xs[i.at..].iter().copied());
            same(v.to_vec(), i.xs.clone(), "extend")
        }),
        ("push, pop", |i| {
            let mut v = PV::new();
            for (k, x) in i.xs.iter().take(4000).enumerate() {
                v = if k % 2 == 0 { v.push_back(*x) } else { v.push_front(*x) };
            }
            let v = v.concat(&i.pv());
            let mut w = v.clone();
            for _ in 0..2000 {
                w = w.pop_back().unwrap().0.pop_front().unwrap().0;
            }
            let all = v.to_vec();
            same(w.to_vec(), all[2000..all.len() - 2000].to_vec(), "pops")
        }),
        ("concat, split, take, skip", |i| {
            let v = i.pv();
            let (a, b) = v.split_at(i.at);
            same((a.to_vec(), b.to_vec()), (i.xs[..i.at].to_vec(), i.xs[i.at..].to_vec()), "split_at")?;
            same(b.concat(&a).to_vec(), [&i.xs[i.at..], &i.xs[..i.at]].concat(), "concat")?;
            same(v.take(i.at).to_vec(), i.xs[..i.at].to_vec(), "take")?;
            same(v.skip(i.at).to_vec(), i.xs[i.at..].to_vec(), "skip")
        }),
        ("insert, remove, update", |i| {
            let v = i.pv();
            let mut w = i.xs.clone();
            w.insert(i.at, 7);
            same(v.insert(i.at, 7).to_vec(), w.clone(), "insert")?;
            w.remove(i.at);
            w[i.at] = 9;
            same(v.update(i.at, 9).to_vec(), w.clone(), "update")?;
            w.remove(i.at);
            same(v.remove(i.at).map(|v| v.to_vec()), Some(w), "remove")
        }),
        ("map, filter, fold", |i| {
            let v = i.pv();
            let odd = |x: &u32| x % 2 == 1;
            same(v.map(|x| x ^ 5).to_vec(), i.xs.iter().map(|x| x ^ 5).collect(), "map")?;
            same(v.filter(odd).to_vec(), i.xs.iter().copied().filter(odd).collect(), "filter")?;
            same(v.filter_map(|x| odd(x).then_some(x / 2)).to_vec(), i.xs.iter().filter(|x| odd(x)).map(|x| x / 2).collect(), "filter_map")?;
            same(v.flat_map(|x| [*x, 1]).to_vec(), i.xs.iter().flat_map(|x| [*x, 1]).collect(), "flat_map")?;
            same(v.fold(3u32, |a, x| a.wrapping_mul(31) ^ x), i.xs.iter().fold(3u32, |a, x| a.wrapping_mul(31) ^ x), "fold")?;
            let (a, b) = v.partition(odd);
            let (c, d): (Vec<_>, Vec<_>) = i.xs.iter().copied().partition(odd);
            same((a.to_vec(), b.to_vec()), (c, d), "partition")
        }),
        ("dedup, sorted, zip, chunk", |i| {
            let v = i.pv();
            let mut w = i.xs.clone();
            w.dedup();
            same(v.dedup().to_vec(), w, "dedup")?;
            let mut w = i.xs.clone();
            w.sort();
            same(v.sorted().to_vec(), w, "sorted")?;
            same(v.zip(&v.skip(1)).to_vec(), i.xs.iter().copied().zip(i.xs[1..].iter().copied()).collect(), "zip")?;
            for size in [3, i.at.max(1)] {
                let got: Vec<Vec<u32>> = v.chunk(size).iter().map(|c| c.to_vec()).collect();
                same(got, i.xs.chunks(size).map(<[u32]>::to_vec).collect(), "chunk")?;
            }
            Ok(())
        }),
        ("compare, hash, show", |i| {
            let v = i.pv();
            let w = PV::from_slice(&i.xs[..i.at]).concat(&PV::from_slice(&i.xs[i.at..]));
            ensure!(v == w && v.cmp(&w).is_eq() && v.partial_cmp(&w) == Some(std::cmp::Ordering::Equal), "equal vectors differ");
            ensure_eq!(hash(&v), hash(&w), "hashes of equal vectors");
            let u = v.update(i.n() - 1, i.xs[i.n() - 1] ^ 1);
            ensure!(u != v && u.cmp(&v) == u.last().cmp(&v.last()), "different vectors agree");
            ensure!(!format!("{v:?}").is_empty(), "nothing shown");
            Ok(())
        }),
    ]
}

fn vecs() -> Vec<Job> {
    vec![
        ("folds", |i| {
            let l = |a: &u32, x: &u32| a.wrapping_mul(31) ^ x;
            let r = |x: &u32, a: &u32| a.wrapping_mul(31) ^ x;
            same(i.xs.fold_left(&3, l), i.xs.iter().fold(3, |a, x| l(&a, x)), "fold_left")?;
            same(i.xs.fold_right(&3, r), i.xs.iter().rev().fold(3, |a, x| r(x, &a)), "fold_right")?;
            let sums: Vec<Sum<u64>> = i.xs.iter().map(|x| Sum(*x as u64)).collect();
            let total = Sum(i.xs.iter().map(|x| *x as u64).sum::<u64>());
            same(sums.fold_monoid::<Sum<u64>>(), total.clone(), "fold_monoid")?;
            same(i.xs.fold_map(|x| Sum(*x as u64)), total, "fold_map")?;
            same(Foldable::length(&i.xs), i.n(), "length")
        }),
        ("searches", |i| {
            let k = i.k();
            same(FoldableExt::find(&i.xs, |x| *x == k), Some(k), "find")?;
            same(FoldableExt::find(&i.xs, |x| *x == u32::MAX), None, "find nothing")?;
            same((FoldableExt::all(&i.xs, |x| *x < u32::MAX), FoldableExt::any(&i.xs, |x| *x == u32::MAX)), (true, false), "all, any")?;
            same(FoldableExt::contains(&i.xs, &k), true, "contains")?;
            same(FoldableExt::contains(&i.xs, &u32::MAX), false, "contains nothing")?;
            same(FoldableExt::maximum(&i.xs), i.xs.iter().max().copied(), "maximum")?;
            same(FoldableExt::minimum(&i.xs), i.xs.iter().min().copied(), "minimum")?;
            same(FoldableExt::reduce(&i.xs, |a, x| a.wrapping_mul(31) ^ x), i.xs.iter().copied().reduce(|a, x| a.wrapping_mul(31) ^ x), "reduce")?;
            let mut s = i.xs.clone();
            s.sort();
            same((FoldableExt::is_sorted(&s), FoldableExt::is_sorted(&i.xs)), (true, i.xs.windows(2).all(|w| w[0] <= w[1])), "is_sorted")?;
            let wide: Vec<u64> = i.xs.iter().map(|x| *x as u64).collect();
            same(FoldableExt::sum_values(&wide), wide.iter().sum(), "sum_values")?;
            same(FoldableExt::fold_option(&i.xs, |x| Some(Sum(*x as u64))), Some(Sum(wide.iter().sum())), "fold_option")
        }),
        ("functor, monad, applicative", |i| {
            let f = |x: &u32| x ^ 5;
            let want: Vec<u32> = i.xs.iter().map(f).collect();
            same(i.xs.fmap(f), want.clone(), "fmap")?;
            same(i.xs.clone().fmap_owned(|x| x ^ 5), want.clone(), "fmap_owned")?;
            same(i.xs.replace(&1).len() + i.xs.replace_owned(1).len() + i.xs.void().len(), 3 * i.n(), "replace, void")?;
            same(FunctorExt::filter_map(&i.xs, |x| (x % 2 == 1).then_some(*x)), i.xs.iter().copied().filter(|x| x % 2 == 1).collect(), "filter_map")?;
            same(i.xs.try_map_or(0, |x| if x % 2 == 1 { Ok(*x) } else { Err(()) }), i.xs.iter().map(|x| x * (x % 2)).collect(), "try_map_or")?;
            same(i.xs.try_map_or_else(|e| *e, |x| if x % 2 == 1 { Ok(*x) } else { Err(1) }), i.xs.iter().map(|x| if x % 2 == 1 { *x } else { 1 }).collect(), "try_map_or_else")?;
            let fs: Vec<fn(&u32) -> u32> = vec![|x| x ^ 5];
            same(fs.apply(&i.xs), want.clone(), "apply")?;
            same(<Vec<u32>>::lift2(|a: &u32, b: &u32| a ^ b, &i.xs, &vec![5]), want.clone(), "lift2")?;
            same(<Vec<u32>>::lift2_owned(|a: u32, b: u32| a ^ b, vec![5], i.xs.clone()), want, "lift2_owned")?;
            same(<Vec<u32>>::sequence_right::<u32, u32>(&vec![1], &i.xs), i.xs.clone(), "sequence_right")
        }),
        ("combining", |i| {
            let ones: Vec<Vec<u32>> = i.xs.iter().map(|x| vec![*x]).collect();
            let short: Vec<String> = i.xs.iter().take(6000).map(u32::to_string).collect();
            same(monoid::combine_all(ones.clone()), i.xs.clone(), "monoid combine_all")?;
            same(vec![].combine_all(ones.clone()), i.xs.clone(), "combine_all")?;
            same(<Vec<u32>>::combine_all_owned(ones.clone()), i.xs.clone(), "combine_all_owned")?;
            same(semigroup::combine_all_values(ones.clone()), Some(i.xs.clone()), "combine_all_values")?;
            same(semigroup::combine_values(vec![], ones), i.xs.clone(), "combine_values")?;
            same(monoid::mconcat(&short), short.concat(), "mconcat")?;
            let sums: Vec<Sum<u64>> = i.xs.iter().map(|x| Sum(*x as u64)).collect();
            let total = Sum(i.xs.iter().map(|x| *x as u64).sum::<u64>());
            same(monoid::mconcat(&sums), total.clone(), "mconcat")?;
            same(cu::fold_with::<_, _, Sum<u64>>(sums.iter().map(|s| s.0)), total, "fold_with")
        }),
        ("repeating", |i| {
            let s = Sum(i.k() as u64);
            let want = Sum(i.k() as u64 * i.n() as u64);
            same(monoid::repeat(s.clone(), i.n()), want.clone(), "repeat")?;
            same(monoid::power(s.clone(), i.n()), want.clone(), "power")?;
            same(s.combine_n(&i.n()), want.clone(), "combine_n")?;
            same(s.combine_n_owned(i.n()), want, "combine_n_owned")
        }),
        ("combining collections", |i| {
            let (a, b) = i.xs.split_at(i.at);
            let all: BTreeSet<u32> = i.xs.iter().copied().collect();
            let (s, t): (BTreeSet<u32>, BTreeSet<u32>) = (a.iter().copied().collect(), b.iter().copied().collect());
            same(s.combine(&t), all.clone(), "BTreeSet combine")?;
            same(s.combine_owned(t), all, "BTreeSet combine_owned")?;
            let all: HashSet<u32> = i.xs.iter().copied().collect();
            let (s, t): (HashSet<u32>, HashSet<u32>) = (a.iter().copied().collect(), b.iter().copied().collect());
            ensure!(s.combine(&t) == all && s.combine_owned(t) == all, "HashSet combine");
            let m = |v: &[u32]| v.iter().map(|x| (*x, Sum(1u64))).collect::<BTreeMap<_, _>>();
            let (s, t) = (m(a), m(b));
            let want: BTreeMap<u32, Sum<u64>> = s.keys().chain(t.keys()).map(|k| (*k, Sum(s.contains_key(k) as u64 + t.contains_key(k) as u64))).collect();
            same(s.combine(&t), want.clone(), "BTreeMap combine")?;
            let h = |m: &BTreeMap<u32, Sum<u64>>| m.iter().map(|(k, v)| (*k, v.clone())).collect::<HashMap<_, _>>();
            ensure!(h(&s).combine(&h(&t)) == h(&want) && h(&s).combine_owned(h(&t)) == h(&want), "HashMap combine");
            same(s.combine_owned(t), want, "BTreeMap combine_owned")
        }),
        ("logs", |i| {
            let w = Writer::new(i.xs.clone(), 1u32).bind(|x| Writer::new(vec![*x; 3], x + 1));
            let (log, v) = w.run();
            same((log.len(), v), (i.n() + 3, 2), "the log")
        }),
    ]
}

fn choices() -> Vec<Job> {
    vec![
        ("build, iterate", |i| {
            same(Vec::from(i.choice()), i.xs.clone(), "of_many")?;
            same(Choice::new(i.xs[0], i.xs[1..].to_vec()).to_vec(), i.xs.clone(), "new")?;
            same(Choice::from(i.xs.clone()).iter().copied().collect(), i.xs.clone(), "From<Vec>")?;
            same(Choice::from(&i.xs[..]).iter_alternatives().copied().collect::<Vec<_>>(), i.xs[1..].to_vec(), "From<&[T]>")?;
            same(i.xs.iter().copied().collect::<Choice<u32>>().into_iter().collect::<Vec<_>>(), i.xs.clone(), "collect")?;
            same((&i.choice()).into_iter().count(), i.n(), "&into_iter")?;
            let parts: Vec<Choice<u32>> = i.xs.chunks(997).map(|c| Choice::of_many(c.to_vec())).collect();
            same(parts.into_iter().collect::<Choice<u32>>().to_vec(), i.xs.clone(), "collect of choices")?;
            let ones: Vec<Choice<u32>> = i.xs.chunks(i.n() / 40).map(|c| Choice::of_many(c.to_vec())).collect();
            same(ones.into_iter().sum::<Choice<u32>>().len(), i.n(), "sum")
        }),
        ("reshape", |i| {
            let c = i.choice();
            let at = i.at.max(1);
            same(c.filter_values(|x| x % 2 == 1).to_vec(), i.xs.iter().copied().filter(|x| x % 2 == 1).collect(), "filter_values")?;
            same(c.filter(|_| true).to_vec(), i.xs.clone(), "filter")?;
            same(c.fmap_alternatives(|x| x ^ 1).len(), i.n(), "fmap_alternatives")?;
            same(c.clone().add_alternatives(i.xs.clone()).len(), 2 * i.n(), "add_alternatives")?;
            let mut w = i.xs.clone();
            w.swap(0, at);
            same(c.clone().swap_with_alternative(at - 1).to_vec(), w, "swap_with_alternative")?;
            let mut w = i.xs.clone();
            w.remove(at);
            same(c.clone().remove_alternative(at - 1).to_vec(), w, "remove_alternative")?;
            let distinct: HashSet<u32> = i.xs.iter().copied().collect();
            same((c.dedup().len(), c.dedup_by_key(|x| *x).len(), c.to_map_with_key(|x| *x).len()), (distinct.len(), distinct.len(), distinct.len()), "dedup")?;
            same(c.find_first(|x| **x == u32::MAX), None, "find_first")
        }),
        ("flatten, sequence", |i| {
            let nested: Choice<Vec<u32>> = Choice::new(i.xs[..5].to_vec(), i.xs[5..].chunks(7).map(<[u32]>::to_vec));
            same(nested.flatten().to_vec(), i.xs.clone(), "flatten")?;
            same(nested.try_flatten().map(|c| c.to_vec()), Ok(i.xs.clone()), "try_flatten")?;
            same(nested.flatten_sorted().len(), i.n(), "flatten_sorted")?;
            let o: Choice<Option<u32>> = i.xs.iter().copied().map(Some).collect();
            same(o.sequence().map(|c| c.to_vec()), Some(i.xs.clone()), "sequence")?;
            let o: Choice<Option<u32>> = i.xs.iter().enumerate().map(|(k, x)| (k != i.at).then_some(*x)).collect();
            same(o.sequence().map(|c| c.len()), None, "sequence with a gap")
        }),
        ("functor, monad, applicative", |i| {
            let c = i.choice();
            let want: Vec<u32> = i.xs.iter().map(|x| x ^ 5).collect();
            same(c.fmap(|x| x ^ 5).to_vec(), want.clone(), "fmap")?;
            same(c.clone().fmap_owned(|x| x ^ 5).to_vec(), want.clone(), "fmap_owned")?;
            let two: Vec<u32> = i.xs.iter().flat_map(|x| [*x, 1]).collect();
            let sorted = |mut v: Vec<u32>| {
                v.sort();
                v
            };
            same(sorted(c.bind(|x| Choice::new(*x, [1])).to_vec()), sorted(two.clone()), "bind")?;
            same(sorted(c.clone().bind_owned(|x| Choice::new(x, [1])).to_vec()), sorted(two.clone()), "bind_owned")?;
            same(sorted(c.bind_lazy(|x| Choice::new(*x, [1])).collect()), sorted(two), "bind_lazy")?;
            let fs: Choice<fn(&u32) -> u32> = Choice::new(|x| x ^ 5, []);
            same(fs.apply(&c).to_vec(), want.clone(), "apply")?;
            same(Choice::<u32>::lift2(|a: &u32, b: &u32| a ^ b, &c, &Choice::new(5, [])).to_vec(), want, "lift2")?;
            let nested: Choice<Choice<u32>> = Choice::new(Choice::of_many(i.xs[..5].to_vec()), i.xs[5..].chunks(7).map(|p| Choice::of_many(p.to_vec())));
            same(nested.join().len(), i.n(), "join")
        }),
        ("folds, combination", |i| {
            let c = i.choice();
            same(c.fold_left(&3u32, |a, x| a.wrapping_mul(31) ^ x), i.xs.iter().fold(3, |a: u32, x| a.wrapping_mul(31) ^ x), "fold_left")?;
            same(c.fold_right(&3u32, |x, a| a.wrapping_mul(31) ^ x), i.xs.iter().rev().fold(3, |a: u32, x| a.wrapping_mul(31) ^ x), "fold_right")?;
            same(c.fold(3u32, |a, x| a.wrapping_mul(31) ^ x), i.xs.iter().fold(3, |a: u32, x| a.wrapping_mul(31) ^ x), "fold")?;
            let twice = [&i.xs[..], &i.xs[..]].concat();
            same(c.combine(&c).to_vec(), twice.clone(), "combine")?;
            same(c.clone().combine_owned(c.clone()).to_vec(), twice.clone(), "combine_owned")?;
            same(c.mplus(&c).to_vec(), twice, "mplus")?;
            same(c.alt(&c).len() >= i.n(), true, "alt")?;
            let d = c.clone();
            ensure!(c == d && hash(&c) == hash(&d) && c.partial_cmp(&d).is_none_or(|o| o.is_eq()), "a copy differs");
            ensure!(!format!("{c:?}").is_empty() && !c.to_string().is_empty(), "nothing shown");
            Ok(())
        }),
    ]
}

type V = Validated<u32, u32>;
fn valids() -> Vec<Job> {
    vec![
        ("many errors", |i| {
            let v: V = Validated::invalid_many(i.xs.clone());
            same(v.errors(), i.xs.clone(), "errors")?;
            same(v.iter_errors().count(), i.n(), "iter_errors")?;
            same(Validated::<u32, u32>::invalid_vec(i.xs.clone()).error_slice().to_vec(), i.xs.clone(), "invalid_vec")?;
            let want: Vec<u32> = i.xs.iter().map(|x| x ^ 5).collect();
            same(v.fmap_invalid(|e| e ^ 5).errors(), want.clone(), "fmap_invalid")?;
            same(v.clone().fmap_invalid_owned(|e| e ^ 5).errors(), want, "fmap_invalid_owned")?;
            let twice = [&i.xs[..], &i.xs[..]].concat();
            same(v.combine_errors(&v).errors(), twice.clone(), "combine_errors")?;
            same(v.clone().combine_errors_owned(v.clone()).errors(), twice, "combine_errors_owned")?;
            same(v.clone().recover_all_at_once(|e| Validated::valid(e.len() as u32)), Validated::valid(i.n() as u32), "recover_all_at_once")?;
            same(v.clone().recover_all(Validated::invalid).errors(), i.xs.clone(), "recover_all")?;
            same(v.clone().recover_with(1), Validated::valid(1), "recover_with")?;
            same(split_validated_errors(v.clone()), i.xs.iter().map(|e| Err(*e)).collect(), "split_validated_errors")?;
            same(v.clone().into_value(), Err(i.xs.iter().copied().collect()), "into_value")?;
            let w = v.clone();
            ensure!(v == w && !format!("{v:?}").is_empty(), "a copy differs");
            Ok(())
        }),
        ("applicative over many errors", |i| {
            let (a, b): (V, V) = (Validated::invalid_many(i.xs[..i.at].to_vec()), Validated::invalid_many(i.xs[i.at..].to_vec()));
            let got: V = V::lift2(|x: &u32, y: &u32| x ^ y, &a, &b);
            same(got.errors(), i.xs.clone(), "lift2")?;
            let got: V = V::lift2_owned(|x: u32, y: u32| x ^ y, a.clone(), b.clone());
            same(got.errors(), i.xs.clone(), "lift2_owned")?;
            same(a.combine(&b).errors().len() >= i.at.min(i.n() - i.at), true, "combine")
        }),
        ("sequence, collect", |i| {
            let all: Vec<V> = i.xs.iter().map(|x| Validated::valid(*x)).collect();
            let refs: Vec<&V> = all.iter().collect();
            same(V::sequence(&refs, &|v: &[u32]| v.to_vec()), Validated::valid(i.xs.clone()), "sequence")?;
            same(V::sequence_owned(all.clone(), |v| v), Validated::valid(i.xs.clone()), "sequence_owned")?;
            same(V::collect::<_, Vec<u32>>(all.clone().into_iter()), Validated::valid(i.xs.clone()), "collect")?;
            same(V::collect_owned::<_, Vec<u32>>(all.into_iter()), Validated::valid(i.xs.clone()), "collect_owned")?;
            let bad = |x: &u32| x % 3 != 0;
            let some: Vec<V> = i.xs.iter().map(|x| if bad(x) { Validated::invalid(*x) } else { Validated::valid(*x) }).collect();
            let want: Vec<u32> = i.xs.iter().copied().filter(|x| bad(x)).collect();
            let refs: Vec<&V> = some.iter().collect();
            same(V::sequence(&refs, &|v: &[u32]| v.to_vec()).errors(), want.clone(), "sequence with errors")?;
            same(V::sequence_owned(some.clone(), |v| v).errors(), want.clone(), "sequence_owned with errors")?;
            same(V::collect::<_, Vec<u32>>(some.clone().into_iter()).errors(), want.clone(), "collect with errors")?;
            same(V::collect_owned::<_, Vec<u32>>(some.into_iter()).errors(), want, "collect_owned with errors")?;
            same(collect_errors(i.xs.clone()).errors(), i.xs.clone(), "collect_errors")
        }),
        ("traverse", |i| {
            let bad = |x: u32| if x % 3 != 0 { Err(x) } else { Ok(x) };
            let want: Vec<u32> = i.xs.iter().copied().filter(|x| x % 3 != 0).collect();
            same(eu::traverse_validated(i.xs.clone(), bad).errors(), want, "traverse_validated")?;
            same(eu::traverse_validated(i.xs.clone(), Ok::<u32, u32>), Validated::valid(i.xs.clone()), "traverse_validated, all good")?;
            same(eu::traverse(i.xs.clone(), Ok::<u32, u32>), Ok(i.xs.clone()), "traverse")?;
            same(eu::sequence(i.xs.iter().map(|x| Ok::<u32, u32>(*x)).collect()), Ok(i.xs.clone()), "sequence")?;
            let oks: Vec<Result<u32, u32>> = i.xs.iter().map(|x| Ok(*x)).collect();
            same(eu::sequence_with_error::<Result<u32, u32>, u32, u32>(oks), Ok(i.xs.clone()), "sequence_with_error")
        }),
    ]
}

fn errors() -> Vec<Job> {
    vec![
        ("contexts", |i| {
            let texts: Vec<String> = i.xs.iter().map(u32::to_string).collect();
            let back: Vec<String> = texts.iter().rev().cloned().collect();
            let e = ComposableError::new(1u32).with_contexts(texts.clone());
            same(e.context(), back.clone(), "with_contexts")?;
            same(e.context_iter().count(), i.n(), "context_iter")?;
            same(accumulate_context(1u32, texts.clone()).context(), back.clone(), "accumulate_context")?;
            same(context_accumulator(texts.clone())(1u32).context(), back.clone(), "context_accumulator")?;
            let one = texts.iter().fold(ComposableError::new(1u32), |e, t| e.with_context(t.clone()));
            same(one.context(), back.clone(), "with_context")?;
            same(extract_context(&one), back, "extract_context")?;
            let p = texts.iter().fold(error_pipeline::<u32, u32>(Err(1)), |p, t| p.with_context(t.clone()));
            same(p.finish().unwrap_err().context().len(), i.n(), "pipeline")?;
            same(one.map_core(|x| x + 1).context().len(), i.n(), "map_core")
        }),
        ("showing", |i| {
            let e = ComposableError::new(1u32).with_contexts(i.xs.iter().map(u32::to_string));
            for s in [format!("{e}"), format!("{e:?}"), e.error_chain(), format_error_chain(&e)] {
                ensure!(s.len() >= i.n(), "the text of {} contexts has {} bytes", i.n(), s.len());
            }
            let f = e.clone();
            ensure!(e == f, "a copy differs");
            Ok(())
        }),
    ]
}

fn utils() -> Vec<Job> {
    vec![
        ("collections", |i| {
            let odd = |x: &u32| x % 2 == 1;
            same(hu::filter_map(i.xs.clone(), odd, |x| x / 2), i.xs.iter().filter(|x| odd(x)).map(|x| x / 2).collect(), "hkt filter_map")?;
            same(hu::zip_with(i.xs.clone(), i.xs.clone(), |a, b| a ^ b), vec![0; i.n()], "zip_with")?;
            same(cu::filter_map_collect(i.xs.clone(), |x| odd(&x).then_some(x)), i.xs.iter().copied().filter(odd).collect(), "filter_map_collect")?;
            same(cu::sequence_options(i.xs.iter().copied().map(Some).collect()), Some(i.xs.clone()), "sequence_options")?;
            same(cu::sequence_results(i.xs.iter().copied().map(Ok::<u32, u32>).collect()), Ok(i.xs.clone()), "sequence_results")?;
            let opts: Vec<Option<u32>> = i.xs.iter().copied().map(Some).collect();
            same(tu::transform_all(&opts, |x: &u32| x ^ 5), i.xs.iter().map(|x| Some(x ^ 5)).collect(), "transform_all")
        }),
        ("many functions", |i| {
            let fs: Vec<_> = i.xs.iter().map(|x| { let x = *x; move |a: u32| a.wrapping_mul(31) ^ x }).collect();
            let want = i.xs.iter().fold(3u32, |a, x| a.wrapping_mul(31) ^ x);
            same(hu::fan_out(3u32, fs.clone()).len(), i.n(), "fan_out")?;
            let os: Vec<_> = fs.iter().map(|f| { let f = *f; move |a: u32| Some(f(a)) }).collect();
            same(hu::pipeline_option(3u32, os), Some(want), "pipeline_option")?;
            let rs: Vec<_> = fs.iter().map(|f| { let f = *f; move |a: u32| Ok::<u32, u32>(f(a)) }).collect();
            same(hu::pipeline_result(3u32, rs.clone()), Ok::<u32, u32>(want), "pipeline_result")?;
            same(hu::try_pipeline(3u32, rs), Ok::<u32, u32>(want), "try_pipeline")?;
            Ok(())
        }),
        ("compose_all", |i| {
            let fs: Vec<Box<dyn Fn(u32) -> u32>> = i.xs.iter().map(|x| { let x = *x; Box::new(move |a: u32| a.wrapping_mul(31) ^ x) as Box<dyn Fn(u32) -> u32> }).collect();
            let f: Box<dyn Fn(u32) -> u32> = hu::compose_all(fs);
            same(f(3), i.xs.iter().fold(3u32, |a, x| a.wrapping_mul(31) ^ x), "compose_all")
        }),
        ("category sequence", |i| {
            let fs: Vec<_> = i.xs.iter().map(|x| { let x = *x; move |a: u32| a.wrapping_mul(31) ^ x }).collect();
            let want = i.xs.iter().fold(3u32, |a, x| a.wrapping_mul(31) ^ x);
            same(FunctionCategory::sequence(fs)(3), want, "sequence")
        }),
    ]
}

fn ios() -> Vec<Job> {
    vec![
        ("sequence", |i| {
            let ios = |xs: &[u32]| xs.iter().enumerate().map(|(k, x)| { let x = *x; if k % 2 == 0 { IO::pure(x) } else { IO::new(move || x) } }).collect::<Vec<_>>();
            same(IO::sequence(ios(&i.xs)).run(), i.xs.clone(), "sequence")?;
            match IO::sequence_composable(ios(&i.xs)) {
                Ok(v) => same(v, i.xs.clone(), "sequence_composable"),
                Err(_) => Err(Fail::from("sequence_composable failed")),
            }
        }),
        ("sequence of failures", |i| {
            let n = i.n().min(3000);
            let ios: Vec<IO<u32>> = i.xs[..n].iter().map(|x| { let x = *x; IO::new(move || if x % 2 == 0 { std::panic::resume_unwind(Box::new("no")) } else { x }) }).collect();
            let bad = i.xs[..n].iter().filter(|x| *x % 2 == 0).count();
            match IO::sequence_composable(ios) {
                Ok(v) => same((bad, v.len()), (0, n), "sequence_composable"),
                Err(e) => same(e.len(), bad, "the errors"),
            }
        }),
    ]
}

fn main() {
    let mut s = Suite::new("C41");
    s.assume("40000 to 80000 elements on a stack of 512 KiB in an unoptimised build; chains of bind or compose nest by construction and are not covered");
    macro_rules! group {
        ($name:literal, $cases:expr, $f:ident) => {
            s.check(
                $name,
                "at least 40000 elements",
                $cases,
                || (40_000usize..80_000, any::<u64>(), 0usize..40_000, 0..$f().len()),
                |(n, seed, at, job), obs| {
                    let mut z = *seed | 1;
                    let width = 1 + (seed >> 60) * 3000;
                    let xs: Vec<u32> = (0..*n)
                        .map(|_| {
                            z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            ((z >> 33) % (width * 1000)) as u32
                        })
                        .collect();
                    let i = In { at: *at * *n / 40_000, xs };
                    let (name, f) = $f()[*job];
                    obs.nontrivial(*n >= 40_000);
                    obs.tag(name);
                    let r = std::thread::Builder::new().stack_size(STACK).spawn(move || no_panic(|| f(&i))).expect("a thread").join();
                    match r {
                        Ok(Ok(r)) => r.map_err(|e| Fail::from(format!("{name}, {n} elements: {}", e.msg))),
                        Ok(Err(p)) => Err(Fail::from(format!("{name}, {n} elements: panicked: {p}"))),
                        Err(_) => Err(Fail::from(format!("{name}, {n} elements: panicked"))),
                    }
                },
            );
        };
    }
    group!("PersistentVector", 200, pvec);
    group!("Vec and collections", 200, vecs);
    group!("Choice", 200, choices);
    group!("Validated", 200, valids);
    group!("errors", 100, errors);
    group!("utilities", 200, utils);
    group!("IO", 100, ios);
    s.main()
}
