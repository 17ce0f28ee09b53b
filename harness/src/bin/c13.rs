//! C13: a choice behaves as a primary value followed by ordered alternatives.
#![allow(deprecated)]
use proptest::collection::vec;
use proptest::prelude::*;
use rustica::datatypes::choice::Choice;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::Functor;
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::monoid::Monoid;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::Semigroup;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use vharness::iters;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

type C = Choice<S>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(Vec<S>),
    Remove(u8),
    TryRemove(u8),
    Swap(u8),
    TrySwap(u8),
    Filter(Pred),
    FilterValues(Pred),
    FmapAlternatives(Fun),
    Fmap(Fun),
    FmapOwned(Fun),
    Dedup,
    DedupByKey(u8),
    Combine(Vec<S>),
    CombineOwned(Vec<S>),
    Before(Vec<S>),
    Mplus(Vec<S>),
    MplusOwned(Vec<S>),
    Alt(Vec<S>),
    Bind(Kl),
    BindOwned(Kl),
    BindLazy(Kl),
    Lift2(Vec<S>, Fun2),
    SequenceLeft(Vec<S>),
    Rebuild(u8),
    Sum(Vec<Vec<S>>),
    Collect(Vec<Vec<S>>),
}
fn small() -> BoxedStrategy<Vec<S>> {
    vals(5)
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => small().prop_map(Op::Add),
        2 => any::<u8>().prop_map(Op::Remove),
        2 => any::<u8>().prop_map(Op::TryRemove),
        2 => any::<u8>().prop_map(Op::Swap),
        2 => any::<u8>().prop_map(Op::TrySwap),
        1 => pred().prop_map(Op::Filter),
        1 => pred().prop_map(Op::FilterValues),
        1 => fun().prop_map(Op::FmapAlternatives),
        1 => fun().prop_map(Op::Fmap),
        1 => fun().prop_map(Op::FmapOwned),
        1 => Just(Op::Dedup),
        1 => any::<u8>().prop_map(Op::DedupByKey),
        1 => small().prop_map(Op::Combine),
        1 => small().prop_map(Op::CombineOwned),
        1 => small().prop_map(Op::Before),
        1 => small().prop_map(Op::Mplus),
        1 => small().prop_map(Op::MplusOwned),
        1 => small().prop_map(Op::Alt),
        1 => kl().prop_map(Op::Bind),
        1 => kl().prop_map(Op::BindOwned),
        1 => kl().prop_map(Op::BindLazy),
        1 => (vals(3), fun2()).prop_map(|(v, f)| Op::Lift2(v, f)),
        1 => vals(3).prop_map(Op::SequenceLeft),
        2 => (0u8..8).prop_map(Op::Rebuild),
        1 => list(small(), 4, 6).prop_map(Op::Sum),
        1 => list(small(), 4, 6).prop_map(Op::Collect),
    ]
    .boxed()
}
fn key(x: &S, k: u8) -> u64 {
    h(x, k) % (1 + k as u64 % 37)
}
fn next(k: &Kl, x: &S) -> Vec<S> {
    let (ok, v) = k.run(x);
    if ok { v } else { vec![] }
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// Every observation of a choice against the list it must stand for.
fn observe(c: &C, v: &[S], what: &str) -> Res {
    ensure_eq!(c.iter().cloned().collect::<Vec<_>>(), v, "{what}: values");
    ensure_eq!(c.len(), v.len(), "{what}: len");
    ensure_eq!(Choice::is_empty(c), v.is_empty(), "{what}: is_empty");
    ensure_eq!(c.first(), v.first(), "{what}: first");
    let alts: &[S] = if v.is_empty() { &[] } else { &v[1..] };
    ensure_eq!(c.alternatives(), alts, "{what}: alternatives");
    ensure_eq!(c.iter_alternatives().cloned().collect::<Vec<_>>(), alts, "{what}: iter_alternatives");
    ensure_eq!(c.has_alternatives(), v.len() > 1, "{what}: has_alternatives");
    ensure_eq!(Choice::to_vec(c), v, "{what}: to_vec");
    Ok(())
}
fn observe_more(c: &C, v: &[S], p: &Pred, k: u8) -> Res {
    ensure_eq!(Vec::from(c.clone()), v, "conversion to a list");
    ensure_eq!(c.clone().into_iter().collect::<Vec<_>>(), v, "into_iter");
    ensure_eq!(c.clone().into_iter().rev().collect::<Vec<_>>(), v.iter().rev().cloned().collect::<Vec<_>>(), "into_iter from the back");
    ensure_eq!(c.clone().into_iter().len(), v.len(), "into_iter length");
    ensure_eq!((c).into_iter().cloned().collect::<Vec<_>>(), v, "borrowed into_iter");
    ensure_eq!(c.find_first(|x| p.ok(x)), v.iter().find(|x| p.ok(x)), "find_first");
    ensure_eq!(Choice::fold(c, S::new(), |a, b| format!("{a}<{b}")), v.iter().fold(S::new(), |a, b| format!("{a}<{b}")), "fold");
    ensure_eq!(c.fold_left(&S::new(), |a, b| format!("{a}<{b}")), v.iter().fold(S::new(), |a, b| format!("{a}<{b}")), "fold_left");
    ensure_eq!(c.fold_right(&S::new(), |b, a| format!("{b}>{a}")), v.iter().rev().fold(S::new(), |a, b| format!("{b}>{a}")), "fold_right");
    let mut map: HashMap<u64, S> = HashMap::new();
    for x in v {
        map.entry(key(x, k)).or_insert(x.clone());
    }
    ensure_eq!(c.to_map_with_key(|x| key(x, k)), map, "to_map_with_key");
    let text = match v.split_first() {
        None => S::new(),
        Some((p, [])) => p.clone(),
        Some((p, alts)) => format!("{p} | {}", alts.join(", ")),
    };
    ensure_eq!(c.to_string(), text, "display");
    ensure_eq!(c.many().into_iter().collect::<Vec<_>>(), v.iter().take(1).map(|x| vec![x.clone()]).collect::<Vec<_>>(), "many");
    // any other way of building it gives an equal choice
    let fresh = C::of_many(v.iter().cloned());
    ensure!(*c == fresh, "equality with a freshly built choice");
    ensure_eq!(hash(c), hash(&fresh), "hash");
    Ok(())
}

/// An element whose equality, order and hash see only its key: which of two equal ones was kept
/// is told by its serial number.
#[derive(Clone, Copy, Debug, Default)]
struct El {
    key: u16,
    nr: u32,
}
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        self.key == o.key
    }
}
impl Eq for El {}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &El) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for El {
    fn cmp(&self, o: &El) -> std::cmp::Ordering {
        self.key.cmp(&o.key)
    }
}
impl Hash for El {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.key.hash(s)
    }
}
type E = Choice<El>;
fn nrs<'a>(i: impl IntoIterator<Item = &'a El>) -> Vec<(u16, u32)> {
    i.into_iter().map(|e| (e.key, e.nr)).collect()
}
/// An iterator that tells nothing about its length.
fn unsized_iter<T>(v: Vec<T>) -> impl Iterator<Item = T> {
    let mut it = v.into_iter();
    std::iter::from_fn(move || it.next())
}
/// The same list as a choice, built in one of the ways there are.
fn build(v: &[El], how: u8, obs: &mut Obs) -> E {
    let alts = || v[1..].to_vec();
    match (how % 16, v.first()) {
        (0, _) => E::of_many(v.to_vec()),
        (1, _) => E::of_many(unsized_iter(v.to_vec())),
        (2, _) => E::from(v.to_vec()),
        (3, _) => E::from(v),
        (4, _) => v.iter().copied().collect(),
        (5, _) => unsized_iter(v.to_vec()).collect(),
        (6, _) => v.iter().map(E::pure).collect(),
        (7, _) => v.iter().map(|e| E::new(*e, [])).sum(),
        (8, _) => v.chunks(37).map(|c| E::of_many(c.to_vec())).collect(),
        (9, _) => v.chunks(53).fold(E::empty(), |a, c| a.combine_owned(E::of_many(c.to_vec()))),
        (10, _) => v.chunks(41).fold(E::new_empty(), |a, c| a.add_alternatives(unsized_iter(c.to_vec()))),
        (_, None) => E::default(),
        (11, Some(p)) => E::new(*p, alts()),
        (12, Some(p)) => E::new(*p, unsized_iter(alts())),
        // a length known only from above
        (13, Some(p)) => E::new(*p, alts().into_iter().filter(|_| true)),
        // ... and only from below
        (14, Some(p)) => {
            let half = v.len() / 2;
            E::new(*p, v[1..half.max(1)].to_vec().into_iter().chain(unsized_iter(v[half.max(1)..].to_vec())))
        }
        (_, Some(p)) => {
            obs.tag("alternatives added one by one");
            alts().into_iter().fold(E::new(*p, []), |c, e| c.add_alternatives([e]))
        }
    }
}

fn main() {
    let mut s = Suite::new("C13");
    s.assume("`filter` and `fmap_alternatives` leave the primary untouched, duplicates keep their first occurrence, as documented");
    s.check(
        "histories",
        "at least three operations on a choice that holds alternatives at some point",
        200_000,
        || (vals(12), vec(op(), 1..12), pred(), any::<u8>()),
        |(init, ops, p, k), obs| {
            let mut v: Vec<S> = init.clone();
            let mut c = C::of_many(init.clone());
            observe(&c, &v, "of_many")?;
            let mut seen = false;
            for (i, op) in ops.iter().enumerate() {
                seen |= v.len() > 1;
                let before = c.clone();
                let old = v.clone();
                let what = format!("step {i} {op:?}");
                match op {
                    Op::Add(x) => {
                        c = c.add_alternatives(x.clone());
                        v.extend(x.iter().cloned());
                    }
                    Op::Remove(_) | Op::Swap(_) | Op::TryRemove(_) | Op::TrySwap(_) => {
                        let (Op::Remove(x) | Op::Swap(x) | Op::TryRemove(x) | Op::TrySwap(x)) = op else { unreachable!() };
                        // indices inside and just outside the alternatives
                        let n = v.len().saturating_sub(1);
                        let at = match x % 16 {
                            15 => [usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32, (1 << 32) + n / 2, (1 << 16) + n / 2, (1 << 8) + n / 2][*x as usize / 16 % 7],
                            _ => *x as usize % (n + 2),
                        };
                        let remove = matches!(op, Op::Remove(_) | Op::TryRemove(_));
                        let tried = match op {
                            Op::Remove(_) => no_panic(|| c.clone().remove_alternative(at)).map_err(|_| ()),
                            Op::Swap(_) => no_panic(|| c.clone().swap_with_alternative(at)).map_err(|_| ()),
                            Op::TryRemove(_) => c.clone().try_remove_alternative(at).map_err(|_| ()),
                            _ => c.clone().try_swap_with_alternative(at).map_err(|_| ()),
                        };
                        ensure_eq!(tried.is_ok(), at < n, "{what}: index {at} of {n} alternatives accepted");
                        if let Ok(t) = tried {
                            c = t;
                            if remove {
                                v.remove(at + 1);
                            } else {
                                v.swap(0, at + 1);
                            }
                            obs.tag("alternative removed or swapped");
                        }
                    }
                    Op::Filter(p) => {
                        c = c.filter(|x| p.ok(x));
                        v = v.iter().enumerate().filter(|(i, x)| *i == 0 || p.ok(x)).map(|(_, x)| x.clone()).collect();
                    }
                    Op::FilterValues(p) => {
                        c = c.filter_values(|x| p.ok(x));
                        v.retain(|x| p.ok(x));
                    }
                    Op::FmapAlternatives(f) => {
                        c = c.fmap_alternatives(|x| f.ap(x));
                        v = v.iter().enumerate().map(|(i, x)| if i == 0 { x.clone() } else { f.ap(x) }).collect();
                    }
                    Op::Fmap(f) => {
                        c = c.fmap(|x| f.ap(x));
                        v = v.iter().map(|x| f.ap(x)).collect();
                    }
                    Op::FmapOwned(f) => {
                        c = c.fmap_owned(|x| f.ap(&x));
                        v = v.iter().map(|x| f.ap(x)).collect();
                    }
                    Op::Dedup => {
                        c = c.dedup();
                        let mut w: Vec<S> = vec![];
                        for x in &v {
                            if !w.contains(x) {
                                w.push(x.clone());
                            }
                        }
                        obs.tag_if(w.len() < v.len(), "duplicates removed");
                        v = w;
                    }
                    Op::DedupByKey(k) => {
                        c = c.dedup_by_key(|x| key(x, *k));
                        let mut w: Vec<S> = vec![];
                        for x in &v {
                            if !w.iter().any(|y| key(y, *k) == key(x, *k)) {
                                w.push(x.clone());
                            }
                        }
                        v = w;
                    }
                    Op::Combine(x) => {
                        c = c.combine(&C::of_many(x.clone()));
                        v.extend(x.iter().cloned());
                    }
                    Op::CombineOwned(x) => {
                        c = c.combine_owned(C::of_many(x.clone()));
                        v.extend(x.iter().cloned());
                    }
                    Op::Before(x) => {
                        c = C::of_many(x.clone()).combine(&c);
                        v = x.iter().chain(&v).cloned().collect();
                    }
                    Op::Mplus(x) => {
                        c = c.mplus(&C::of_many(x.clone()));
                        v.extend(x.iter().cloned());
                    }
                    Op::MplusOwned(x) => {
                        c = c.mplus_owned(C::of_many(x.clone()));
                        v.extend(x.iter().cloned());
                    }
                    Op::Alt(x) => {
                        c = c.alt(&C::of_many(x.clone()));
                        v.extend(x.iter().cloned());
                    }
                    Op::Bind(k) => {
                        c = c.bind(|x| C::of_many(next(k, x)));
                        v = v.iter().flat_map(|x| next(k, x)).take(60).collect();
                        c = C::of_many(c.into_iter().take(60));
                    }
                    Op::BindOwned(k) => {
                        c = c.bind_owned(|x| C::of_many(next(k, &x)));
                        v = v.iter().flat_map(|x| next(k, x)).take(60).collect();
                        c = C::of_many(c.into_iter().take(60));
                    }
                    Op::BindLazy(k) => {
                        let w: Vec<S> = c.bind_lazy(|x| C::of_many(next(k, x))).take(60).collect();
                        c = C::from(w);
                        v = v.iter().flat_map(|x| next(k, x)).take(60).collect();
                    }
                    Op::Lift2(x, f) => {
                        c = C::lift2(|a: &S, b: &S| f.ap(a, b), &c, &C::of_many(x.clone()));
                        v = v.iter().flat_map(|a| x.iter().map(move |b| f.ap(a, b))).take(60).collect();
                        c = C::of_many(c.into_iter().take(60));
                    }
                    Op::SequenceLeft(x) => {
                        c = C::sequence_left(&c, &C::of_many(x.clone()));
                        v = v.iter().flat_map(|a| x.iter().map(move |_| a.clone())).take(60).collect();
                        c = C::of_many(c.into_iter().take(60));
                    }
                    Op::Rebuild(how) => {
                        c = match how {
                            0 => C::from(v.clone()),
                            1 => C::from(v.as_slice()),
                            2 => v.iter().cloned().collect(),
                            3 => v.iter().map(C::pure).collect(),
                            4 => match v.split_first() {
                                None => C::new_empty(),
                                Some((p, r)) => C::new(p.clone(), r.to_vec()),
                            },
                            5 => match v.split_first() {
                                None => C::default(),
                                // alternatives from an iterator of unknown length
                                Some((p, r)) => {
                                    let mut it = r.iter().cloned();
                                    C::new(p.clone(), std::iter::from_fn(move || it.next()))
                                }
                            },
                            6 => match v.split_first() {
                                None => C::empty(),
                                Some((p, r)) => C::new(p.clone(), r.to_vec().into_iter().filter(|_| true)),
                            },
                            _ => C::of_many(c.into_iter()),
                        };
                    }
                    Op::Sum(xs) => {
                        c = std::iter::once(c.clone()).chain(xs.iter().cloned().map(C::of_many)).sum();
                        v.extend(xs.iter().flatten().cloned());
                    }
                    Op::Collect(xs) => {
                        c = xs.iter().cloned().map(C::of_many).chain([c.clone()]).collect();
                        v = xs.iter().flatten().cloned().chain(v).collect();
                    }
                }
                if v.len() > 60 || v.iter().any(|x| x.len() > 400) {
                    v.truncate(4);
                    v.iter_mut().for_each(|x| *x = format!("{}", h(x, 0) % 100));
                    c = C::of_many(v.clone());
                }
                observe(&c, &v, &what)?;
                ensure_eq!(before.iter().cloned().collect::<Vec<_>>(), old, "{what}: the choice before it");
            }
            obs.nontrivial(ops.len() >= 3 && seen);
            obs.tag_if(v.len() > 8, "more values than the inline capacity");
            observe_more(&c, &v, p, *k)
        },
    );
    s.check(
        "flatten",
        "the primary and at least one alternative hold several values",
        40_000,
        || prop_oneof![list(vals(4), 6, 24), vec(vec(val(), 1..4), 0..7)],
        |vv: &Vec<Vec<S>>, obs| {
            let c: Choice<Vec<S>> = Choice::of_many(vv.clone());
            obs.nontrivial(vv.len() > 1 && vv[0].len() > 1);
            let flat: Vec<S> = vv.iter().flatten().cloned().collect();
            let ok = vv.first().is_none_or(|p| !p.is_empty());
            obs.tag_if(!ok, "empty primary");
            let t = c.try_flatten();
            ensure_eq!(t.is_ok(), ok, "try_flatten succeeds");
            let f = no_panic(|| c.flatten());
            let g = no_panic(|| c.flatten_sorted());
            if ok {
                observe(&t.unwrap(), &flat, "try_flatten")?;
                observe(&f.map_err(|e| format!("flatten: {e}"))?, &flat, "flatten")?;
                let mut sorted = flat.clone();
                if !sorted.is_empty() {
                    sorted[1..].sort();
                }
                observe(&g.map_err(|e| format!("flatten_sorted: {e}"))?, &sorted, "flatten_sorted")?;
            } else {
                ensure!(f.is_err() && g.is_err(), "flattening an empty primary invented a value");
            }
            // joining nested choices never fails
            let n: Choice<Choice<S>> = Choice::of_many(vv.iter().map(|v| C::of_many(v.clone())));
            observe(&n.join(), &flat, "join")?;
            observe(&n.clone().join_owned(), &flat, "join_owned")?;
            observe(&n.bind(|x: &C| x.clone()), &flat, "bind with the identity")?;
            // optional values
            let o: Choice<Option<S>> = Choice::of_many(vv.iter().map(|v| v.first().cloned()));
            let want: Option<Vec<S>> = vv.iter().map(|v| v.first().cloned()).collect();
            ensure_eq!(o.sequence().map(|c| c.into_iter().collect::<Vec<_>>()), want, "sequence");
            Ok(())
        },
    );
    s.check(
        "compare",
        "the two choices share a non-empty prefix and differ",
        25_000,
        || (vals(10), vals(10), vals(3)),
        |(a, b, pre), obs| {
            let a: Vec<S> = pre.iter().chain(a).cloned().collect();
            let b: Vec<S> = pre.iter().chain(b).cloned().collect();
            obs.nontrivial(!pre.is_empty() && a != b);
            let (x, y) = (C::of_many(a.clone()), b.iter().fold(C::new_empty(), |c, e| c.add_alternatives([e.clone()])));
            ensure_eq!(x == y, a == b, "equality");
            ensure_eq!(x.cmp(&y), a.cmp(&b), "ordering");
            ensure_eq!(x.partial_cmp(&y), a.partial_cmp(&b), "partial ordering");
            if a == b {
                ensure_eq!(hash(&x), hash(&y), "hash of equal choices");
            }
            Ok(())
        },
    );
    s.check(
        "large",
        "more than sixty values, some of them equal",
        6_000,
        || {
            let size = prop_oneof![
                2 => 0usize..14,
                2 => prop::sample::select(vec![15usize, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 259]),
                2 => 14usize..140,
                2 => 140usize..700,
            ];
            (size, 1u16..2000, any::<u64>(), any::<u8>(), any::<u8>(), any::<u16>())
        },
        |&(n, keys, seed, how, other, at), obs| {
            let v: Vec<El> = (0..n as u32).map(|nr| El { key: (hash(&(seed, nr)) % keys as u64) as u16, nr }).collect();
            let distinct = v.iter().map(|e| e.key).collect::<std::collections::HashSet<_>>().len();
            obs.nontrivial(n > 60 && distinct < n);
            let c = build(&v, how, obs);
            let ok = |e: &El| hash(&(e.nr, seed)) % 8 < 5;
            let same = |got: &E, want: &[El], what: &str| -> Res {
                ensure_eq!(nrs(got.iter()), nrs(want), "{what}");
                ensure_eq!(got.len(), want.len(), "{what}: len");
                ensure_eq!(got.first().map(|e| e.nr), want.first().map(|e| e.nr), "{what}: first");
                ensure_eq!(nrs(got.alternatives()), nrs(want.get(1..).unwrap_or(&[])), "{what}: alternatives");
                Ok(())
            };
            same(&c, &v, "construction")?;
            // another choice of the same keys, overlapping or not
            let w: Vec<El> = (0..(seed % 300) as u32).map(|i| El { key: (hash(&(seed, i, 1)) % keys as u64) as u16, nr: 10_000 + i }).collect();
            let d = build(&w, other, obs);
            same(&d, &w, "construction")?;
            let vw: Vec<El> = v.iter().chain(&w).copied().collect();
            same(&c.combine(&d), &vw, "combine")?;
            same(&c.clone().combine_owned(d.clone()), &vw, "combine_owned")?;
            same(&c.mplus(&d), &vw, "mplus")?;
            same(&c.clone().mplus_owned(d.clone()), &vw, "mplus_owned")?;
            same(&c.alt(&d), &vw, "alt")?;
            same(&[c.clone(), d.clone(), c.clone()].into_iter().sum(), &vw.iter().chain(&v).copied().collect::<Vec<_>>(), "sum")?;
            same(&unsized_iter(vec![c.clone(), d.clone(), c.clone()]).collect(), &vw.iter().chain(&v).copied().collect::<Vec<_>>(), "collecting choices")?;
            if n > 0 {
                same(&c.clone().add_alternatives(unsized_iter(w.clone())), &vw, "add_alternatives")?;
            }
            // equality, order and hash see what the elements' own do
            let e = E::of_many(v.iter().map(|e| El { key: e.key, nr: 77 }));
            ensure!(c == e && hash(&c) == hash(&e), "choices of equal elements are equal");
            ensure_eq!(c.cmp(&d), v.cmp(&w), "ordering");
            ensure_eq!(c == d, v == w, "equality");
            // the first of equal values is the one that is kept
            let kept = |key: &dyn Fn(&El) -> u16| {
                let mut seen = std::collections::HashSet::new();
                v.iter().filter(|e| seen.insert(key(e))).copied().collect::<Vec<_>>()
            };
            same(&c.clone().dedup(), &kept(&|e| e.key), "dedup")?;
            let m = 1 + (at % 300);
            same(&c.clone().dedup_by_key(|e| e.key % m), &kept(&|e| e.key % m), "dedup_by_key")?;
            let mut map = HashMap::new();
            v.iter().for_each(|e| {
                map.entry(e.key).or_insert(e.nr);
            });
            ensure_eq!(c.to_map_with_key(|e| e.key).into_iter().map(|(k, e)| (k, e.nr)).collect::<HashMap<_, _>>(), map, "to_map_with_key");
            // filtering and mapping
            let want: Vec<El> = v.iter().enumerate().filter(|(i, e)| *i == 0 || ok(e)).map(|(_, e)| *e).collect();
            same(&c.clone().filter(ok), &want, "filter")?;
            same(&c.clone().filter_values(ok), &v.iter().filter(|e| ok(e)).copied().collect::<Vec<_>>(), "filter_values")?;
            ensure_eq!(c.find_first(|e| ok(e)).map(|e| e.nr), v.iter().find(|e| ok(e)).map(|e| e.nr), "find_first");
            let f = |e: &El| El { key: e.key ^ 5, nr: e.nr + 1 };
            let mapped: Vec<El> = v.iter().map(f).collect();
            same(&c.fmap(f), &mapped, "fmap")?;
            same(&c.clone().fmap_owned(|e| f(&e)), &mapped, "fmap_owned")?;
            same(&c.clone().fmap_alternatives(f), &v.iter().take(1).copied().chain(mapped.iter().skip(1).copied()).collect::<Vec<_>>(), "fmap_alternatives")?;
            let twice = |e: &El| E::of_many((0..e.nr % 3).map(|i| El { key: e.key, nr: e.nr * 3 + i }));
            let bound: Vec<El> = v.iter().flat_map(|e| (0..e.nr % 3).map(move |i| El { key: e.key, nr: e.nr * 3 + i })).collect();
            same(&c.bind(twice), &bound, "bind")?;
            same(&c.clone().bind_owned(|e| twice(&e)), &bound, "bind_owned")?;
            same(&c.bind_lazy(twice).collect(), &bound, "bind_lazy")?;
            let nested = Choice::of_many(v.chunks(29).map(|c| E::of_many(c.to_vec())));
            same(&nested.join(), &v, "join")?;
            same(&nested.clone().join_owned(), &v, "join_owned")?;
            if n > 0 {
                same(&nested.flatten(), &v, "flatten")?;
                same(&nested.try_flatten().map_err(|e| e.to_string())?, &v, "try_flatten")?;
                // which of two equal values comes first is not promised
                let mut sorted = v.clone();
                sorted[1..].sort();
                let got = nested.flatten_sorted();
                ensure_eq!(got.iter().map(|e| e.key).collect::<Vec<_>>(), sorted.iter().map(|e| e.key).collect::<Vec<_>>(), "flatten_sorted");
                let (mut a, mut b) = (nrs(got.iter()), nrs(&v));
                ensure_eq!(a[0], b[0], "flatten_sorted: the primary");
                a.sort();
                b.sort();
                ensure_eq!(a, b, "flatten_sorted: a value lost or repeated");
            }
            // folding and leaving
            ensure_eq!(c.fold_left(&vec![], |acc, e| [&acc[..], &[e.nr]].concat()), v.iter().map(|e| e.nr).collect::<Vec<_>>(), "fold_left");
            ensure_eq!(c.fold_right(&vec![], |e, acc| [&acc[..], &[e.nr]].concat()), v.iter().rev().map(|e| e.nr).collect::<Vec<_>>(), "fold_right");
            ensure_eq!(nrs(&Vec::from(c.clone())), nrs(&v), "to a list");
            ensure_eq!(nrs(&Choice::to_vec(&c)), nrs(&v), "to_vec");
            ensure_eq!(nrs(&c.clone().into_iter().collect::<Vec<_>>()), nrs(&v), "into_iter");
            let o: Choice<Option<El>> = Choice::of_many(v.iter().map(|e| Some(*e)));
            same(&o.sequence().ok_or("sequence of present values is absent")?, &v, "sequence")?;
            if n > 0 {
                let i = at as usize % n;
                let mut holes: Vec<Option<El>> = v.iter().map(|e| Some(*e)).collect();
                holes[i] = None;
                ensure!(Choice::of_many(holes).sequence().is_none(), "sequence ignored the absent value {i} of {n}");
            }
            // one alternative removed or made the primary, anywhere
            if n > 1 {
                let i = at as usize % (n - 1);
                let (mut r, mut x) = (v.clone(), v.clone());
                r.remove(i + 1);
                x.swap(0, i + 1);
                same(&c.clone().remove_alternative(i), &r, "remove_alternative")?;
                same(&c.clone().try_remove_alternative(i).map_err(|e| e.to_string())?, &r, "try_remove_alternative")?;
                same(&c.clone().swap_with_alternative(i), &x, "swap_with_alternative")?;
                same(&c.clone().try_swap_with_alternative(i).map_err(|e| e.to_string())?, &x, "try_swap_with_alternative")?;
            }
            // products
            let few: Vec<El> = w.iter().take(4).copied().collect();
            let g = E::of_many(few.clone());
            let both = |a: &El, b: &El| El { key: a.key ^ b.key, nr: a.nr * 31 + b.nr };
            let prod: Vec<El> = v.iter().flat_map(|a| few.iter().map(move |b| both(a, b))).collect();
            same(&E::lift2(both, &c, &g), &prod, "lift2")?;
            let back: Vec<El> = few.iter().flat_map(|a| v.iter().map(move |b| both(a, b))).collect();
            same(&E::lift2(both, &g, &c), &back, "lift2 the other way round")?;
            same(&c, &v, "the choice after everything")
        },
    );
    s.check(
        "iterators",
        "at least two elements and one step",
        20_000,
        || (list(val(), 6, 30), iters::walk(), 0u8..4),
        |(xs, w, which), obs| {
            obs.nontrivial(xs.len() > 1 && !w.0.is_empty());
            let c: Choice<S> = xs.iter().cloned().collect();
            let by = |x: &S| x.clone();
            match which {
                0 => iters::follows(c.iter(), xs, by, w, "iter"),
                1 => iters::follows((&c).into_iter(), xs, by, w, "by reference"),
                2 => iters::follows(c.into_iter(), xs, |x| x, w, "into_iter"),
                _ => iters::follows(c.iter_alternatives(), xs.get(1..).unwrap_or(&[]), by, w, "iter_alternatives"),
            }
        },
    );
    s.main()
}
