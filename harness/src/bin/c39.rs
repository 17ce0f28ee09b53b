//! C39: what an operation does with the values it holds does not depend on their type.
//! Every program runs twice: with values of a type of some shape and with values of the
//! reference type holding the same codes; what comes out must look the same.
#![allow(deprecated)]
use proptest::prelude::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min};
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector as PV;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::functor::{Functor, FunctorExt};
use rustica::traits::monad::Monad;
use rustica::traits::monad_error::{ErrorMapper, MonadError};
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::monoid::Monoid;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::{Semigroup, SemigroupExt};
use serde::{Deserialize, Serialize};
use smallvec::SmallVec;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use vharness::elems::*;
use vharness::ensure_eq;
use vharness::runner::*;

#[path = "c39/comp.rs"]
mod comp;
#[path = "c39/misc.rs"]
mod misc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct In {
    pub xs: Vec<u8>,
    pub ys: Vec<u8>,
    pub es: Vec<u8>,
    pub k: u8,
    pub at: usize,
    /// which of up to three arguments are there
    pub ok: u8,
}
impl In {
    pub fn x<T: El>(&self) -> Vec<T> {
        self.xs.iter().map(|c| T::of(*c)).collect()
    }
    pub fn y<T: El>(&self) -> Vec<T> {
        self.ys.iter().map(|c| T::of(*c)).collect()
    }
    pub fn e<T: El>(&self) -> Vec<T> {
        self.es.iter().map(|c| T::of(*c)).collect()
    }
}
pub type Seen = Vec<(&'static str, String)>;
#[macro_export]
macro_rules! see {
    ($o:ident, $($name:literal => $e:expr),+ $(,)?) => { $($o.put($name, &$e);)+ };
}
pub trait Put {
    fn put(&mut self, name: &'static str, v: &dyn Debug);
}
impl Put for Seen {
    #[inline(never)]
    fn put(&mut self, name: &'static str, v: &dyn Debug) {
        self.push((name, format!("{v:?}")));
    }
}
fn input(max: usize) -> BoxedStrategy<In> {
    let codes = move |lo: usize| prop_oneof![3 => prop::collection::vec(0u8..5, lo..6), 1 => prop::collection::vec(any::<u8>(), lo..max)];
    (codes(0), codes(0), codes(1), any::<u8>(), 0usize..max + 2, 0u8..8).prop_map(|(xs, ys, es, k, at, ok)| In { xs, ys, es, k, at, ok }).boxed()
}
/// How a container is made from several values (it takes what it can hold), errors and whether
/// it is a success.
fn opt<T: Clone, E>(v: Vec<T>, _: &[E], ok: bool) -> Option<T> {
    v.into_iter().next().filter(|_| ok)
}
fn res<T: Clone, E: El>(v: Vec<T>, e: &[E], ok: bool) -> Result<T, E> {
    opt(v, e, ok).ok_or_else(|| e[0].clone())
}
fn ei<T: Clone, E: El>(v: Vec<T>, e: &[E], ok: bool) -> Either<E, T> {
    match opt(v, e, ok) {
        Some(x) => Either::right(x),
        None => Either::left(e[0].clone()),
    }
}
fn may<T: Clone, E>(v: Vec<T>, e: &[E], ok: bool) -> Maybe<T> {
    Maybe::from_option(opt(v, e, ok))
}
fn val<T: Clone, E: El>(v: Vec<T>, e: &[E], ok: bool) -> Validated<E, T> {
    match opt(v, e, ok) {
        Some(x) => Validated::Valid(x),
        None => Validated::Invalid(SmallVec::from_vec(e.to_vec())),
    }
}
fn ch<T: Clone, E>(v: Vec<T>, _: &[E], ok: bool) -> Choice<T> {
    if ok { Choice::of_many(v) } else { Choice::new_empty() }
}
fn many<T: Clone, E>(v: Vec<T>, _: &[E], ok: bool) -> Vec<T> {
    if ok { v } else { vec![] }
}
fn functions<A: El, B: El>(n: usize) -> Vec<fn(&A) -> B> {
    let fs: [fn(&A) -> B; 3] = [|a| a.to(1), |a| a.to(2), |a| a.to(3)];
    (0..n).map(|i| fs[i % 3]).collect()
}
fn functions_owned<A: El, B: El>(n: usize) -> Vec<fn(A) -> B> {
    let fs: [fn(A) -> B; 3] = [|a| a.to(1), |a| a.to(2), |a| a.to(3)];
    (0..n).map(|i| fs[i % 3]).collect()
}

macro_rules! functor {
    ($o:ident, $k:ident, $C:ident, $A:ident, $B:ident, $x:expr) => {{
        let x = $x;
        see!($o,
            "the container" => x,
            "fmap" => <$C!($A) as Functor>::fmap(&x, |a: &$A| a.to::<$B>($k)),
            "fmap_owned" => <$C!($A) as Functor>::fmap_owned(x.clone(), |a: $A| a.to::<$B>($k)),
            "replace" => <$C!($A) as Functor>::replace(&x, &$B::of($k)),
            "void" => <$C!($A) as Functor>::void(&x),
            "void_owned" => <$C!($A) as Functor>::void_owned(x.clone()),
        );
    }};
}
macro_rules! applicative {
    ($o:ident, $i:ident, $C:ident, $mk:ident, $A:ident, $B:ident, $e:expr) => {{
        let (k, e) = ($i.k, $e);
        let (o1, o2, o3) = ($i.ok & 1 != 0, $i.ok & 2 != 0, $i.ok & 4 != 0);
        let (a, b, c): ($C!($A), $C!($B), $C!($A)) = ($mk($i.x(), e, o1), $mk($i.y(), e, o2), $mk($i.e(), &e[e.len() - 1..], o3));
        functor!($o, k, $C, $A, $B, a.clone());
        let f2 = |a: &$A, b: &$B| a.with::<$B, $B>(b, k);
        let f3 = |a: &$A, b: &$B, c: &$A| c.with::<$B, $A>(&a.with::<$B, $B>(b, k), k);
        let (fr, fo): ($C!(fn(&$A) -> $B), $C!(fn($A) -> $B)) = ($mk(functions($i.ys.len()), e, o2), $mk(functions_owned($i.ys.len()), e, o2));
        see!($o,
            "pure" => <$C!($A) as Pure>::pure(&$B::of(k)),
            "pure_owned" => <$C!($A) as Pure>::pure_owned($B::of(k)),
            "apply" => fr.apply::<$A, $B>(&a),
            "apply_owned" => fo.apply_owned::<$A, $B>(a.clone()),
            "lift2" => <$C!($A)>::lift2::<$A, $B, $B, _>(f2, &a, &b),
            "lift2 the other way" => <$C!($A)>::lift2::<$B, $A, $A, _>(|b: &$B, a: &$A| b.with(a, k), &b, &a),
            "lift2 of pairs" => <$C!($A)>::lift2::<$A, $B, ($A, $B), _>(|a: &$A, b: &$B| (a.clone(), b.clone()), &a, &b),
            "lift2_owned" => <$C!($A)>::lift2_owned::<$A, $B, $B, _>(|a: $A, b: $B| f2(&a, &b), a.clone(), b.clone()),
            "lift2_owned the other way" => <$C!($A)>::lift2_owned::<$B, $A, $A, _>(|b: $B, a: $A| b.with(&a, k), b.clone(), a.clone()),
            "lift2_owned of units" => <$C!($A)>::lift2_owned::<$A, $B, (), _>(|_: $A, _: $B| (), a.clone(), b.clone()),
            "lift3" => <$C!($A)>::lift3::<$A, $B, $A, $A, _>(f3, &a, &b, &c),
            "lift3_owned" => <$C!($A)>::lift3_owned::<$A, $B, $A, $A, _>(|a: $A, b: $B, c: $A| f3(&a, &b, &c), a.clone(), b.clone(), c.clone()),
            "sequence_right" => <$C!($A)>::sequence_right(&a, &b),
            "sequence_left" => <$C!($A)>::sequence_left(&a, &b),
            "sequence_right_owned" => <$C!($A)>::sequence_right_owned(a.clone(), b.clone()),
            "sequence_left_owned" => <$C!($A)>::sequence_left_owned(b.clone(), a.clone()),
        );
        (a, b, c)
    }};
}
macro_rules! monad {
    ($o:ident, $i:ident, $C:ident, $mk:ident, $A:ident, $B:ident, $e:expr) => {{
        let (k, e) = ($i.k, $e);
        let (a, b, c): ($C!($A), $C!($B), $C!($A)) = applicative!($o, $i, $C, $mk, $A, $B, e);
        let step = |a: &$A| -> $C!($B) { $mk($i.y::<$B>().iter().map(|b| a.with(b, k)).collect(), e, a.holds(k)) };
        let nested: $C!($C!($B)) = $mk($i.x::<$A>().iter().map(|a| step(a)).collect(), e, $i.ok & 1 != 0);
        see!($o,
            "bind" => a.bind::<$B, _>(step),
            "bind_owned" => a.clone().bind_owned::<$B, _>(|a: $A| step(&a)),
            "flat_map" => a.flat_map::<$B, _>(step),
            "flat_map_owned" => a.clone().flat_map_owned::<$B, _>(|a: $A| step(&a)),
            "bind to units" => a.bind::<(), _>(|a: &$A| <$C!($B) as Functor>::void(&step(a))),
            "bind_owned to units" => a.clone().bind_owned::<(), _>(|a: $A| <$C!($B) as Functor>::void(&step(&a))),
            "join" => nested.join::<$B>(),
            "join_owned" => nested.clone().join_owned::<$B>(),
            "map_and_pure" => a.map_and_pure(|a: &$A| a.to::<$B>(k)),
            "try_bind" => a.try_bind(&$B::of(k), |a: &$A| if a.holds(k) { Ok(step(a)) } else { Err(()) }),
            "bind back" => b.bind::<$A, _>(|b: &$B| { let cs: Vec<$A> = $i.e::<$A>().iter().map(|c| b.with(c, k)).collect(); $mk(cs, e, b.holds(k)) }),
        );
        (a, b, c)
    }};
}
macro_rules! foldable {
    ($o:ident, $k:ident, $A:ident, $B:ident, $x:expr) => {{
        let x = $x;
        see!($o,
            "fold_left" => x.fold_left(&$B::of($k), |b: &$B, a: &$A| b.with(a, $k)),
            "fold_right" => x.fold_right(&$B::of($k), |a: &$A, b: &$B| a.with(b, $k)),
            "fold_map" => x.fold_map(|a: &$A| vec![a.clone()]),
            "fold_map to its own kind" => x.fold_map(|a: &$A| a.to::<$B>($k)),
            "length" => x.length(),
            "is_empty" => Foldable::is_empty(&x),
            "find" => x.find(|a: &$A| a.holds($k)),
            "all" => x.all(|a: &$A| a.holds($k)),
            "any" => x.any(|a: &$A| a.holds($k)),
            "contains" => FoldableExt::contains(&x, &$A::of($k)),
            "fold_option" => x.fold_option(|a: &$A| a.holds($k).then(|| vec![a.clone()])),
            "is_sorted" => FoldableExt::is_sorted(&x),
            "to_vec" => FoldableExt::to_vec(&x),
            "maximum" => x.maximum(),
            "minimum" => x.minimum(),
            "reduce" => x.reduce(|a: &$A, b: &$A| a.with::<$A, $A>(b, $k)),
        );
    }};
}
macro_rules! semigroup {
    ($o:ident, $at:expr, $a:expr, $b:expr, $c:expr) => {{
        let (a, b, c) = ($a, $b, $c);
        see!($o,
            "combine" => a.combine(&b),
            "combine_owned" => a.clone().combine_owned(b.clone()),
            "combine three" => a.clone().combine_owned(b.clone()).combine_owned(c.clone()),
            "combine_n" => SemigroupExt::combine_n(&a, &($at % 5)),
            "combine_n_owned" => a.clone().combine_n_owned($at % 5),
        );
    }};
}
fn sorted<K: Ord + Clone, V: Clone>(m: &HashMap<K, V>) -> BTreeMap<K, V> {
    m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

/// Containers that hold at most one value.
fn single<A: El, B: El, E: El>(i: &In) -> Seen {
    let mut o: Seen = vec![];
    let k = i.k;
    let e: Vec<E> = i.e();
    macro_rules! Opt { ($t:ty) => { Option<$t> }; }
    macro_rules! Res { ($t:ty) => { Result<$t, E> }; }
    macro_rules! Ei { ($t:ty) => { Either<E, $t> }; }
    macro_rules! May { ($t:ty) => { Maybe<$t> }; }
    macro_rules! Val { ($t:ty) => { Validated<E, $t> }; }
    macro_rules! IdC { ($t:ty) => { Id<$t> }; }
    macro_rules! BoxC { ($t:ty) => { Box<$t> }; }
    let to_f = |e: &E| e.to::<B>(k);
    {
        let (a, b, c) = monad!(o, i, Opt, opt, A, B, &e);
        semigroup!(o, i.at, a.clone(), c.clone(), a.clone());
        foldable!(o, k, A, B, a.clone());
        see!(o,
            "alt" => a.alt(&c), "many" => a.many(), "mplus" => a.mplus(&c), "mplus_owned" => a.clone().mplus_owned(c.clone()),
            "catch" => a.catch(|_| Some(A::of(k))), "catch_owned" => a.clone().catch_owned(|_| Some(A::of(k))),
            "map_error_to" => a.map_error_to(|_| E::of(k)), "map_error_to_owned" => a.clone().map_error_to_owned(|_| E::of(k)),
            "try_map_or" => a.try_map_or(B::of(k), |a: &A| if a.holds(k) { Ok(a.to::<B>(k)) } else { Err(()) }),
            "filter_map" => FunctorExt::filter_map(&a, |a: &A| a.holds(k).then(|| a.to::<B>(k))),
        );
        let _ = b;
    }
    {
        let (a, _, c) = monad!(o, i, Res, res, A, B, &e);
        foldable!(o, k, A, B, a.clone());
        see!(o,
            "mplus" => a.mplus(&c), "mplus_owned" => a.clone().mplus_owned(c.clone()),
            "catch" => a.catch(|e: &E| if e.holds(k) { Ok(e.to(k)) } else { Err(e.to(k)) }),
            "catch_owned" => a.clone().catch_owned(|e: E| if e.holds(k) { Ok(e.to(k)) } else { Err(e.to(k)) }),
            "map_error_to" => a.map_error_to(|e: &E| e.to::<B>(k)), "map_error_to_owned" => a.clone().map_error_to_owned(|e: E| e.to::<B>(k)),
            "try_map_or" => a.try_map_or(B::of(k), |a: &A| if a.holds(k) { Ok(a.to::<B>(k)) } else { Err(()) }),
        );
    }
    {
        let (a, _, c) = monad!(o, i, Ei, ei, A, B, &e);
        see!(o,
            "alt" => a.alt(&c), "many" => a.many(), "mplus" => a.mplus(&c), "mplus_owned" => a.clone().mplus_owned(c.clone()),
            "first" => Bifunctor::first(&a, |a: &A| a.to::<B>(k)), "second" => Bifunctor::second(&a, to_f), "bimap" => a.bimap(|a: &A| a.to::<B>(k), to_f),
            "fmap_left" => a.clone().fmap_left(|e| to_f(&e)), "fmap_right" => a.clone().fmap_right(|a| a.to::<B>(k)),
            "right_or" => a.clone().right_or(A::of(k)), "left_or" => a.clone().left_or(E::of(k)), "unwrap_or" => a.clone().unwrap_or(A::of(k)),
            "right_option" => a.clone().right_option(), "left_option" => a.clone().left_option(), "to_result" => a.clone().to_result(),
            "iter" => a.clone().into_iter().collect::<Vec<A>>(), "iter of a reference" => (&a).into_iter().cloned().collect::<Vec<A>>(),
            "left_iter" => a.clone().left_iter().collect::<Vec<E>>(), "left_iter_ref" => a.left_iter_ref().cloned().collect::<Vec<E>>(),
        );
    }
    {
        let (a, _, c) = monad!(o, i, May, may, A, B, &e);
        see!(o,
            "alt" => a.alt(&c), "many" => a.many(), "mplus" => a.mplus(&c), "mplus_owned" => a.clone().mplus_owned(c.clone()),
            "to_option" => a.clone().to_option(), "to_result" => a.clone().to_result(E::of(k)), "unwrap_or" => a.clone().unwrap_or(A::of(k)),
            "filter" => a.clone().filter(|a| a.holds(k)), "fmap_or" => a.clone().fmap_or(B::of(k), |a| a.to::<B>(k)), "to_vec" => a.clone().to_vec(),
            "iter" => a.iter().cloned().collect::<Vec<A>>(), "when" => Maybe::when(i.ok & 2 != 0, A::of(k)), "collect" => i.x::<A>().into_iter().collect::<Maybe<A>>(),
        );
    }
    {
        let (a, b, c) = monad!(o, i, Val, val, A, B, &e);
        semigroup!(o, i.at, a.clone(), c.clone(), a.clone());
        foldable!(o, k, A, B, a.clone());
        let list: Vec<Validated<E, A>> = i.xs.iter().zip(0u8..).map(|(x, n)| if (i.ok >> (n % 3)) & 1 == 0 { val(vec![], &[E::of(*x), E::of(n)][..1 + (x & 1) as usize], false) } else { Validated::Valid(A::of(*x)) }).collect();
        see!(o,
            "alt" => a.alt(&c), "many" => a.many(), "mplus" => a.mplus(&c), "mplus_owned" => a.clone().mplus_owned(c.clone()),
            "first" => Bifunctor::first(&a, |a: &A| a.to::<B>(k)), "second" => Bifunctor::second(&a, to_f), "bimap" => a.bimap(|a: &A| a.to::<B>(k), to_f),
            "map_second_owned" => a.clone().fmap_invalid_owned(|e: E| to_f(&e)), "fmap_invalid" => a.fmap_invalid(to_f),
            "errors" => a.errors(), "error_slice" => a.error_slice().to_vec(), "to_option" => a.to_option(), "unwrap_or" => a.unwrap_or(&A::of(k)),
            "recover_with" => a.clone().recover_with(A::of(k)),
            "recover_all" => a.clone().recover_all(|e| Validated::Invalid([e.clone(), e.to(k)].into_iter().collect())),
            "recover_all_at_once" => a.clone().recover_all_at_once(|es| Validated::Invalid(es.into_iter().rev().collect())),
            "sequence" => Validated::sequence(&list.iter().collect::<Vec<_>>(), &|v: &[A]| v.to_vec()), "sequence_owned" => Validated::sequence_owned(list.clone(), |v: Vec<A>| v),
            "collect" => Validated::collect::<_, Vec<A>>(list.clone().into_iter()), "collect_owned" => Validated::collect_owned::<_, Vec<A>>(list.clone().into_iter()),
            "invalid_many" => Validated::<E, A>::invalid_many(e.clone()), "invalid_vec" => Validated::<E, A>::invalid_vec(e.clone()),
            "from_option" => Validated::from_option(&opt(i.x::<A>(), &e, true), &e[0]), "from_result" => Validated::from_result(&res(i.x::<A>(), &e, true)),
        );
        if a.is_invalid() || c.is_invalid() {
            see!(o, "combine_errors" => a.combine_errors(&c), "combine_errors_owned" => a.clone().combine_errors_owned(c.clone()));
        }
        let _ = b;
    }
    {
        let mk = |v: Vec<A>| Id::new(v.into_iter().next().unwrap_or_default());
        fn id<T: Clone, E>(v: Vec<T>, _: &[E], _: bool) -> Id<T> {
            Id::new(v.into_iter().next().expect("a value"))
        }
        if !i.xs.is_empty() && !i.ys.is_empty() {
            let (a, b, c) = monad!(o, i, IdC, id, A, B, &e);
            semigroup!(o, i.at, a.clone(), c.clone(), a.clone());
            see!(o, "then" => a.clone().then(b.clone()), "unwrap" => a.clone().unwrap(), "as_ref" => a.as_ref(), "into_iter" => a.clone().into_iter().collect::<Vec<_>>(),
                "extend" => rustica::traits::comonad::Comonad::extend(&a, |w: &Id<A>| w.as_ref().to::<B>(k)), "duplicate" => rustica::traits::comonad::Comonad::duplicate(&a));
            foldable!(o, k, A, B, a.clone());
            let _ = mk;
        }
    }
    let _ = Box::new(0u8) as BoxC!(u8);
    // the simple wrappers
    {
        let v: Vec<A> = i.x();
        let w = |n: usize| First(v.get(n).cloned());
        let l = |n: usize| Last(v.get(n).cloned());
        semigroup!(o, i.at, w(0), w(1), w(2));
        semigroup!(o, i.at, l(0), l(1), l(2));
        functor!(o, k, FirstC, A, B, w(i.at % 3));
        functor!(o, k, LastC, A, B, l(i.at % 3));
        if v.len() > 2 {
            semigroup!(o, i.at, Min(v[0].clone()), Min(v[1].clone()), Min(v[2].clone()));
            semigroup!(o, i.at, Max(v[0].clone()), Max(v[1].clone()), Max(v[2].clone()));
            functor!(o, k, MinC, A, B, Min(v[0].clone()));
            functor!(o, k, MaxC, A, B, Max(v[1].clone()));
            see!(o, "tuple" => (v[0].clone(), B::of(k)).combine(&(v[1].clone(), B::of(1))), "tuple_owned" => (v[0].clone(), v[1].clone(), B::of(0)).combine_owned((v[1].clone(), v[2].clone(), B::of(k))));
        }
    }
    o
}
macro_rules! FirstC { ($t:ty) => { First<$t> }; }
macro_rules! LastC { ($t:ty) => { Last<$t> }; }
macro_rules! MinC { ($t:ty) => { Min<$t> }; }
macro_rules! MaxC { ($t:ty) => { Max<$t> }; }
use {FirstC, LastC, MaxC, MinC};

/// Containers that hold several values.
fn several<A: El, B: El>(i: &In) -> Seen {
    let mut o: Seen = vec![];
    let k = i.k;
    let e: Vec<Ref<2>> = i.e();
    macro_rules! Ch { ($t:ty) => { Choice<$t> }; }
    macro_rules! VecC { ($t:ty) => { Vec<$t> }; }
    {
        let (a, _, c) = applicative!(o, i, VecC, many, A, B, &e);
        semigroup!(o, i.at, a.clone(), c.clone(), a.clone());
        foldable!(o, k, A, B, a.clone());
        see!(o, "alt" => a.alt(&c), "many" => Alternative::many(&a), "combine_all" => c.clone().combine_all(vec![a.clone(), c.clone()]),
            "filter_map" => FunctorExt::filter_map(&a, |a: &A| a.holds(k).then(|| a.to::<B>(k))),
            "try_map_or" => a.try_map_or(B::of(k), |a: &A| if a.holds(k) { Ok(a.to::<B>(k)) } else { Err(()) }));
    }
    {
        let (a, b, c) = monad!(o, i, Ch, ch, A, B, &e);
        semigroup!(o, i.at, a.clone(), c.clone(), a.clone());
        foldable!(o, k, A, B, a.clone());
        see!(o,
            "alt" => a.alt(&c), "many" => a.many(), "mplus" => a.mplus(&c), "mplus_owned" => a.clone().mplus_owned(c.clone()),
            "first" => Choice::first(&a), "alternatives" => a.alternatives(), "len" => a.len(), "to_vec" => Choice::to_vec(&a), "find_first" => a.find_first(|a| a.holds(k)),
            "dedup_by_key" => a.dedup_by_key(|a| a.to::<B>(k)),
            "fold" => a.fold(B::of(k), |b, a| b.with(a, k)), "to_map" => sorted(&a.to_map_with_key(|a| a.to::<B>(k))),
            "filter" => a.filter(|a| a.holds(k)), "filter_values" => a.filter_values(|a| a.holds(k)), "add_alternatives" => a.clone().add_alternatives(i.e::<A>()),
            "try_remove_alternative" => a.clone().try_remove_alternative(i.at), "try_swap" => a.clone().try_swap_with_alternative(i.at),
            "bind_lazy" => a.bind_lazy(|a: &A| i.y::<B>().into_iter().map(|b| a.with::<B, B>(&b, k)).collect::<Choice<B>>()).collect::<Vec<B>>(),
            "sequence" => Choice::of_many(i.x::<A>().into_iter().map(|a| a.holds(0).then_some(a))).sequence(),
            "iter" => a.iter().cloned().collect::<Vec<_>>(), "iter_alternatives" => a.iter_alternatives().cloned().collect::<Vec<_>>(), "into_iter" => a.clone().into_iter().collect::<Vec<_>>(),
            "of_many" => i.x::<A>().into_iter().collect::<Choice<A>>(), "from a list" => Choice::from(i.x::<A>()), "from a slice" => Choice::from(&i.x::<A>()[..]), "into a list" => Vec::from(a.clone()),
            "of choices" => [a.clone(), c.clone(), a.clone()].into_iter().collect::<Choice<A>>(), "sum" => [a.clone(), c.clone(), a.clone()].into_iter().sum::<Choice<A>>(),
            "empty" => Choice::<A>::default(), "equal" => (a == c, a.cmp(&c)),
        );
        if !a.is_empty() {
            see!(o, "fmap_alternatives" => a.fmap_alternatives(|a| a.to(k)), "dedup" => a.dedup());
        }
        let lists: Choice<Vec<A>> = Choice::new(i.x(), vec![i.e(), i.y::<A>()]);
        see!(o, "try_flatten" => lists.try_flatten::<A>());
        if !i.xs.is_empty() {
            see!(o, "flatten" => lists.flatten::<A>(), "flatten_sorted" => lists.flatten_sorted::<A>());
        }
        let _ = b;
    }
    {
        let (a, c): (PV<A>, PV<A>) = (i.x().into_iter().collect(), i.e().into_iter().collect());
        vectors::<A, B>(&a, &c, i, &mut o);
        foldable!(o, k, A, B, a.clone());
        semigroup!(o, i.at, a.clone(), c.clone(), a.clone());
        functor!(o, k, PvC, A, B, a.clone());
    }
    {
        let m = |v: Vec<A>| -> HashMap<B, A> { v.into_iter().map(|a| (a.to::<B>(1), a)).collect() };
        let t = |v: Vec<A>| -> BTreeMap<B, A> { v.into_iter().map(|a| (a.to::<B>(1), a)).collect() };
        let s = |v: Vec<A>| -> BTreeSet<A> { v.into_iter().collect() };
        let h = |v: Vec<A>| -> HashSet<A> { v.into_iter().collect() };
        see!(o,
            "maps" => sorted(&m(i.x()).combine(&m(i.e()))), "maps, owned" => sorted(&m(i.x()).combine_owned(m(i.e()))),
            "trees" => t(i.x()).combine(&t(i.e())), "trees, owned" => t(i.x()).combine_owned(t(i.e())),
            "sets" => s(i.x()).combine(&s(i.e())), "sets, owned" => s(i.x()).combine_owned(s(i.e())),
            "hash sets" => h(i.x()).combine(&h(i.e())).into_iter().collect::<BTreeSet<_>>(), "hash sets, owned" => h(i.x()).combine_owned(h(i.e())).into_iter().collect::<BTreeSet<_>>(),
        );
    }
    o
}
macro_rules! PvC { ($t:ty) => { PV<$t> }; }
use PvC;

/// Persistent vectors of any length.
fn vectors<A: El, B: El>(a: &PV<A>, c: &PV<A>, i: &In, o: &mut Seen) {
    let k = i.k;
    let n = a.len();
    let at = if n == 0 { 0 } else { i.at * 7919 % (n + 1) };
    let (l, r) = a.split_at(at);
    let joined = l.push_back(A::of(k)).concat(&r.push_front(A::of(1))).concat(c);
    see!(o,
        "vector" => a, "len" => a.len(), "push_back" => a.push_back(A::of(k)), "push_front" => a.push_front(A::of(k)), "update" => a.update(at, A::of(k)), "try_update" => a.try_update(at, A::of(k)),
        "pop_back" => a.pop_back(), "pop_front" => a.pop_front(), "concat" => a.concat(c), "split_at" => (&l, &r), "joined" => joined.to_vec(), "take" => a.take(at), "skip" => a.skip(at),
        "insert" => a.insert(at, A::of(k)), "remove" => a.remove(at), "get" => a.get(at), "first" => a.first(), "last" => a.last(), "map" => a.map(|a| a.to::<B>(k)), "filter" => a.filter(|a| a.holds(k)),
        "filter_map" => a.filter_map(|a| a.holds(k).then(|| a.to::<B>(k))), "flat_map" => a.flat_map(|a| [a.to::<B>(k), B::of(1)]), "dedup" => joined.dedup(), "sorted" => joined.sorted(),
        "fold" => a.fold(B::of(k), |b, a| b.with(a, k)), "zip" => a.zip(&c.map(|a| a.to::<B>(k))), "partition" => a.partition(|a| a.holds(k)), "chunk" => a.chunk(1 + i.at % 7), "to_vec" => a.to_vec(),
        "into_iter" => joined.clone().into_iter().collect::<Vec<_>>(), "iter" => joined.iter().cloned().collect::<Vec<_>>(), "order" => (joined == *a, joined.cmp(a), a.partial_cmp(c)),
        "repeated" => joined.update(at, A::of(k)).concat(&joined).take(n + at).to_vec(),
    );
    let mut w = joined.clone();
    w.extend(i.y::<A>());
    see!(o, "extend" => w.to_vec(), "the vector after all that" => a.to_vec());
}

/// Writers over logs and values of any shape.
fn writers<A: El, B: El, W: Log>(i: &In) -> Seen {
    let mut o: Seen = vec![];
    let k = i.k;
    macro_rules! Wr { ($t:ty) => { Writer<W, $t> }; }
    fn log<W: Log>(v: &[u8]) -> W {
        v.iter().take(3).fold(W::empty(), |w, c| w.combine_owned(W::msg(*c)))
    }
    // the "errors" are the codes of the messages
    fn wr<T: Clone, W: Log>(v: Vec<T>, e: &[u8], ok: bool) -> Writer<W, T> {
        Writer::new(if ok { log(e) } else { W::msg(v.len() as u8) }, v.into_iter().next().expect("a value"))
    }
    let mut i = i.clone();
    i.xs.push(k);
    i.ys.push(k);
    let i = &i;
    let (a, b, c) = monad!(o, i, Wr, wr, A, B, &i.es[..]);
    semigroup!(o, i.at, a.clone(), c.clone(), a.clone());
    let told: Writer<W, ()> = Writer::<W, ()>::tell(log(&i.es));
    see!(o,
        "run" => a.clone().run(), "log" => a.clone().log(), "empty" => Writer::<W, A>::empty(),
        "tell before" => <Wr!(A)>::lift2_owned::<(), B, B, _>(|_: (), b: B| b, told.clone(), b.clone()), "tell after" => <Wr!(A)>::lift2_owned::<B, (), B, _>(|b: B, _: ()| b, b.clone(), told.clone()),
        "tell before, borrowed" => <Wr!(A)>::lift2::<(), B, B, _>(|_: &(), b: &B| b.clone(), &told, &b), "tell after, borrowed" => <Wr!(A)>::lift2::<B, (), B, _>(|b: &B, _: &()| b.clone(), &b, &told),
        "tell between" => <Wr!(A)>::lift3::<A, (), B, A, _>(|a: &A, _: &(), b: &B| a.with::<B, A>(b, k), &a, &told, &b), "tell between, owned" => <Wr!(A)>::lift3_owned::<A, (), B, A, _>(|a: A, _: (), b: B| a.with::<B, A>(&b, k), a.clone(), told.clone(), b.clone()),
        "tell and go on" => <Wr!(A)>::sequence_right(&told, &b), "tell and go on, owned" => <Wr!(A)>::sequence_right_owned(told.clone(), b.clone()), "go on and tell, owned" => <Wr!(A)>::sequence_left_owned(b.clone(), told.clone()),
        "tell, then bind" => told.bind::<A, _>(|_| a.clone()), "tell, then bind, owned" => told.clone().bind_owned::<A, _>(|_| a.clone()), "bind, then tell" => a.bind::<(), _>(|_| told.clone()), "bind, then tell, owned" => a.clone().bind_owned::<(), _>(|_| told.clone()),
        "both tell" => told.combine_units(&told),
    );
    o
}
trait CombineUnits: Sized {
    fn combine_units(&self, o: &Self) -> Self;
}
impl<W: Log> CombineUnits for Writer<W, ()> {
    fn combine_units(&self, o: &Self) -> Self {
        Writer::<W, ()>::lift2_owned(|_: (), _: ()| (), self.clone(), o.clone())
    }
}

pub fn same(types: &str, got: Seen, want: Seen) -> Res {
    for ((n, a), (_, b)) in got.iter().zip(&want) {
        if a != b {
            return Err(Fail::from(format!("{types}: {n}: got {}, with the reference type {}", clip(a), clip(b))));
        }
    }
    ensure_eq!(got.len(), want.len(), "number of observations");
    Ok(())
}
macro_rules! pairs {
    ($i:expr, $f:ident: $(($a:ident $b:ident))*) => { $( reference([$a::mask(), $b::mask(), 255]); same(concat!(stringify!($a), " ", stringify!($b)), $f::<$a, $b>($i), $f::<Ref<0>, Ref<1>>($i))?; )* };
}
pub(crate) use pairs;
macro_rules! triples {
    ($i:expr, $f:ident: $(($a:ident $b:ident $c:ident))*) => { $( reference([$a::mask(), $b::mask(), $c::mask()]); same(concat!(stringify!($a), " ", stringify!($b), " ", stringify!($c)), $f::<$a, $b, $c>($i), $f::<Ref<0>, Ref<1>, Ref<2>>($i))?; )* };
}
pub(crate) use triples;
macro_rules! logs {
    ($i:expr, $f:ident: $(($a:ident $b:ident $w:ident))*) => { $( reference([$a::mask(), $b::mask(), $w::keeps() as u8]); same(concat!(stringify!($a), " ", stringify!($b), " ", stringify!($w)), $f::<$a, $b, $w>($i), $f::<Ref<0>, Ref<1>, RefLog>($i))?; )* };
}

fn big<A: El, B: El>(i: &In) -> Seen {
    let mut o: Seen = vec![];
    let n = i.at;
    let a: PV<A> = (0..n).map(|j| A::of(mix(j as u8, (j >> 8) as u8))).collect();
    let b: PV<A> = (0..n / 3).map(|j| A::of(mix(j as u8, i.k))).collect();
    vectors::<A, B>(&a, &b, i, &mut o);
    let c: Choice<A> = a.iter().cloned().collect();
    see!(o, "choice" => c, "choice fmap" => c.fmap_owned(|a: A| a.to::<B>(i.k)));
    o
}

fn main() {
    let mut s = Suite::new("C39");
    s.assume("equality, ordering, hashing and combining of the element types agree on the codes");
    let rule = "a container holds at least two values or errors";
    s.check("single", rule, 1_500, || input(24), |i, obs| {
        obs.nontrivial(i.xs.len() > 1 || i.es.len() > 1);
        triples!(i, single: (Unit Byte Shared) (Byte Unit Flag) (Token Token Token) (Flag Boxed Unit) (Big Word Byte) (Wide Big Boxed) (Shared Wide Big));
        Ok(())
    });
    s.check("several", rule, 1_000, || input(24), |i, obs| {
        obs.nontrivial(i.xs.len() > 1 || i.es.len() > 1);
        obs.tag_if(i.xs.len() > 8, "more than eight");
        pairs!(i, several: (Unit Byte) (Byte Unit) (Token Flag) (Flag Token) (Wide Boxed) (Big Word) (Shared Big));
        Ok(())
    });
    s.check("long", rule, 60, || (prop_oneof![0usize..300, 0usize..5000], any::<u8>(), prop::collection::vec(any::<u8>(), 0..200)), |(n, k, y), obs| {
        obs.nontrivial(*n > 1);
        let i = &In { xs: vec![], ys: y.clone(), es: vec![], k: *k, at: *n, ok: 7 };
        pairs!(i, big: (Unit Byte) (Byte Unit) (Token Flag) (Wide Boxed) (Big Word) (Shared Big));
        Ok(())
    });
    s.check("writers", "at least two messages are told", 3_000, || input(12), |i, obs| {
        obs.nontrivial(i.es.len() > 1);
        logs!(i, writers: (Unit Byte PlainLog) (Byte Unit SharedLog) (Token Token PlainLog) (Flag Boxed NoLog) (Wide Big SharedLog) (Shared Word PlainLog));
        Ok(())
    });
    comp::checks(&mut s, input);
    misc::checks(&mut s, input);
    s.main()
}
