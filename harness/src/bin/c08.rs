//! C08: the consuming and the borrowing form of an operation agree.
use proptest::collection::vec;
use proptest::prelude::*;
use rustica::datatypes::async_monad::AsyncM;
use rustica::datatypes::io::IO;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, predicate::Predicate, product::Product, sum::Sum, thunk::Thunk};
use rustica::traits::applicative::Applicative;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use rustica::traits::functor::Functor;
use rustica::traits::hkt::BinaryHKT;
use rustica::traits::monad::Monad;
use rustica::traits::monad_error::{ErrorMapper, MonadError};
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::natural_transformation::{identity_nat, NaturalTransformation};
use rustica::traits::pure::{Pure, PureExt, PureType};
use rustica::traits::semigroup::{Semigroup, SemigroupExt};
use rustica::utils::transform_utils::Pipeline;
use smallvec::SmallVec;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use vharness::cont::*;
use vharness::user::*;
use vharness::prog::{emit, trace};
use vharness::runner::*;
use vharness::sym::*;
use vharness::ensure_eq;

fn fr(f: Fun) -> impl Fn(&S) -> S + Clone {
    move |a: &S| f.ap(a)
}
fn fo(f: Fun) -> impl Fn(S) -> S + Clone {
    move |a: S| f.ap(&a)
}
/// The container may have several values, or an error, or a log: something to lose.
fn rich<A>(m: &Md<A>) -> bool {
    !m.is_ok() || m.values().len() > 1 || !m.log.is_empty()
}
/// What an operation yields, a panic included.
fn out<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    no_panic(f).map_err(|_| ())
}

macro_rules! functor {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("map/", $name),
            "the function is not the identity",
            30_000,
            || (md(<$C<S> as Repr<S>>::KIND), fun(), val()),
            |(m, f, c), obs| {
                type C = $C<S>;
                let x = C::mk(m.clone());
                obs.nontrivial(!f.is_id());
                obs.tag_if(rich(m), "several values, an error or a log");
                ensure_eq!(x.clone().fmap_owned(|a: S| f.ap(&a)).view(), x.fmap(|a: &S| f.ap(a)).view(), "fmap");
                ensure_eq!(x.clone().fmap_owned(|a: S| a.len()).view(), x.fmap(|a: &S| a.len()).view(), "fmap to another type");
                ensure_eq!(x.replace_owned(c.clone()).view(), x.replace(c).view(), "replace");
                ensure_eq!(x.clone().void_owned().view(), x.void().view(), "void");
                ensure_eq!(Pipeline::new(x.clone()).map_owned(|a: S| f.ap(&a)).extract().view(), Pipeline::new(x.clone()).map(|a: &S| f.ap(a)).extract().view(), "Pipeline::map");
                let nat = identity_nat::<C>();
                ensure_eq!(nat.transform_owned::<S>(x.clone()).view(), nat.transform::<S>(&x).view(), "transform");
                Ok(())
            },
        );
    };
}
macro_rules! applicative {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("apply/", $name),
            "several values, an error or a log in one of the operands (an identity: operands that differ)",
            30_000,
            || {
                let k = <$C<S> as Repr<S>>::KIND;
                (md_of(k, fun(), 4), md(k), md_of(k, val(), 4), md_of(k, val(), 4), fun2(), fun3())
            },
            |(u, a, b, c, f, g), obs| {
                type C = $C<S>;
                obs.nontrivial(rich(u) || rich(a) || rich(b) || C::KIND == Kind::One && a != b);
                obs.tag_if(!u.is_ok() && !a.is_ok(), "both fail");
                let (x, y, z) = (C::mk(a.clone()), C::mk(b.clone()), C::mk(c.clone()));
                let cr: $C<_> = Repr::mk(u.map(|f| fr(f.clone())));
                let co: $C<_> = Repr::mk(u.map(|f| fo(f.clone())));
                ensure_eq!(co.apply_owned(x.clone()).view(), cr.apply(&x).view(), "apply");
                ensure_eq!(C::lift2_owned(|a: S, b: S| f.ap(&a, &b), x.clone(), y.clone()).view(), C::lift2(|a: &S, b: &S| f.ap(a, b), &x, &y).view(), "lift2");
                ensure_eq!(
                    C::lift3_owned(|a: S, b: S, c: S| g.ap(&a, &b, &c), x.clone(), y.clone(), z.clone()).view(),
                    C::lift3(|a: &S, b: &S, c: &S| g.ap(a, b, c), &x, &y, &z).view(),
                    "lift3"
                );
                ensure_eq!(C::sequence_left_owned(x.clone(), y.clone()).view(), C::sequence_left(&x, &y).view(), "sequence_left");
                ensure_eq!(C::sequence_right_owned(x.clone(), y.clone()).view(), C::sequence_right(&x, &y).view(), "sequence_right");
                Ok(())
            },
        );
    };
}
macro_rules! pure {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("pure/", $name),
            "any value",
            2_000,
            || val(),
            |a, obs| {
                type C = $C<S>;
                obs.nontrivial(true);
                let p = <C as Pure>::pure(a);
                ensure_eq!(<C as Pure>::pure_owned(a.clone()).view(), p.view(), "pure");
                ensure_eq!(a.clone().to_pure_owned::<C>().view(), a.to_pure::<C>().view(), "to_pure");
                ensure_eq!(PureType::<C, S>::lift_owned(a.clone()).view(), PureType::<C, S>::lift(a).view(), "lift");
                Ok(())
            },
        );
    };
}
macro_rules! monad {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("bind/", $name),
            "the container holds a value, and the container or the step has several values, an error or a log",
            40_000,
            || {
                let k = <$C<S> as Repr<S>>::KIND;
                (md(k), kl(), md_of(k, md_of(k, val(), 5), 4))
            },
            |(m, k, n), obs| {
                type C = $C<S>;
                const K: Kind = <$C<S> as Repr<S>>::KIND;
                let x = C::mk(m.clone());
                let km = |a: &S| kl_md(K, k, a);
                let kc = |a: &S| C::mk(km(a));
                obs.nontrivial(!m.values().is_empty() && (K == Kind::One || rich(m) || m.values().iter().any(|a| rich(&km(a)))) || rich(n));
                ensure_eq!(x.clone().bind_owned(|a: S| kc(&a)).view(), x.bind(|a: &S| kc(a)).view(), "bind");
                ensure_eq!(x.clone().flat_map_owned(|a: S| kc(&a)).view(), x.flat_map(|a: &S| kc(a)).view(), "flat_map");
                ensure_eq!(x.clone().bind_owned(|a: S| kc(&a).fmap_owned(|b: S| b.len())).view(), x.bind(|a: &S| kc(a).fmap(|b: &S| b.len())).view(), "bind to another type");
                let nested: $C<C> = Repr::mk(n.map(|i| C::mk(i.clone())));
                ensure_eq!(nested.clone().join_owned::<S>().view(), nested.join::<S>().view(), "join");
                Ok(())
            },
        );
    };
}
macro_rules! plus {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("mplus/", $name),
            "one of the operands fails or has several values",
            30_000,
            || (md(<$C<S> as Repr<S>>::KIND), md(<$C<S> as Repr<S>>::KIND)),
            |(a, b), obs| {
                type C = $C<S>;
                obs.nontrivial(rich(a) || rich(b));
                let (x, y) = (C::mk(a.clone()), C::mk(b.clone()));
                ensure_eq!(x.clone().mplus_owned(y.clone()).view(), x.mplus(&y).view(), "mplus");
                Ok(())
            },
        );
    };
}
macro_rules! second {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("map_second/", $name),
            "the container holds an error and the function is not the identity",
            20_000,
            || (md(<$C<S> as Repr<S>>::KIND), fun()),
            |(a, f), obs| {
                obs.nontrivial(!a.is_ok() && !f.is_id());
                let x = <$C<S>>::mk(a.clone());
                ensure_eq!(x.clone().map_second_owned(|e: S| f.ap(&e)).view(), x.map_second(|e: &S| f.ap(e)).view(), "map_second");
                Ok(())
            },
        );
    };
}
macro_rules! combine {
    ($s:ident, $name:literal, $T:ty, $M:ty, $strat:expr, $mk:expr) => {
        $s.check(
            concat!("combine/", $name),
            "the operands differ",
            20_000,
            || ($strat, $strat, 0usize..9),
            |(a, b, n): &($M, $M, usize), obs| {
                let mk: fn($M) -> $T = $mk;
                obs.nontrivial(a != b);
                obs.tag_if(*n > 2, "repetition of more than two");
                let (x, y) = (mk(a.clone()), mk(b.clone()));
                ensure_eq!(x.clone().combine_owned(y.clone()), x.combine(&y), "combine");
                ensure_eq!(x.clone().combine_n_owned(*n), x.combine_n(n), "combine_n({n})");
                Ok(())
            },
        );
    };
}
/// Values that are equal without being the same: both forms keep the same one of them.
macro_rules! combine_keyed {
    ($s:ident, $name:literal, $T:ty, $max:expr, $mk:expr, $full:expr) => {
        $s.check(
            concat!("combine/", $name, " of values equal by a key"),
            "a value of the one operand equals a different one of the other",
            10_000,
            || (vec(keyed(), 1..$max), vec(keyed(), 1..$max), 1usize..4),
            |(a, b, n): &(Vec<Keyed>, Vec<Keyed>, usize), obs| {
                let mk: fn(&[Keyed]) -> $T = $mk;
                let full: fn($T) -> Vec<(u8, S)> = $full;
                let all = |x: $T| {
                    let mut v = full(x);
                    v.sort();
                    v
                };
                obs.nontrivial(a.iter().any(|x| b.iter().any(|y| x == y && x.tag != y.tag)));
                obs.tag_if(a.len() < b.len(), "the second operand is larger");
                let (x, y) = (mk(a), mk(b));
                ensure_eq!(all(x.clone().combine_owned(y.clone())), all(x.combine(&y)), "combine");
                ensure_eq!(all(x.clone().combine_n_owned(*n)), all(x.combine_n(n)), "combine_n({n})");
                Ok(())
            },
        );
    };
}
macro_rules! wrapper {
    ($s:ident, $W:ident, $A:ty, $strat:expr, $mk:expr) => {
        $s.check(
            concat!("map/", stringify!($W)),
            "the function is not the identity",
            10_000,
            || ($strat, fun(), val()),
            |(a, f, c): &($A, Fun, S), obs| {
                obs.nontrivial(!f.is_id());
                let x: $W<Cat> = $mk(a.clone());
                ensure_eq!(x.clone().fmap_owned(|a: Cat| Cat(f.ap(&a.0))), x.fmap(|a: &Cat| Cat(f.ap(&a.0))), "fmap");
                ensure_eq!(x.clone().fmap_owned(|a: Cat| a.0.len()), x.fmap(|a: &Cat| a.0.len()), "fmap to another type");
                ensure_eq!(x.replace_owned(c.clone()), x.replace(c), "replace");
                ensure_eq!(x.clone().void_owned(), x.void(), "void");
                let nat = identity_nat::<$W<Cat>>();
                ensure_eq!(nat.transform_owned::<Cat>(x.clone()), nat.transform::<Cat>(&x), "transform");
                Ok(())
            },
        );
    };
}
fn ocat(a: Option<S>) -> Option<Cat> {
    a.map(Cat)
}
fn validated(m: &Result<S, Vec<S>>) -> Validated<S, S> {
    Repr::mk(Md { log: vec![], out: m.clone().map(|v| vec![v]) })
}
fn validateds() -> BoxedStrategy<Result<S, Vec<S>>> {
    md(Kind::Val).prop_map(|m| m.out.map(|v| v[0].clone())).boxed()
}

fn main() {
    let mut s = Suite::new("C08");
    s.assume("functions given to both forms are pure and equal; an operation that panics is compared by the fact that it panics");
    functor!(s, "Option", COpt);
    functor!(s, "Result", CRes);
    functor!(s, "Maybe", CMay);
    functor!(s, "Either", CEi);
    functor!(s, "Validated", CVal);
    functor!(s, "Choice", CCh);
    functor!(s, "Vec", CVec);
    functor!(s, "Id", CId);
    functor!(s, "Writer", CWr);
    functor!(s, "PersistentVector", CPv);
    functor!(s, "a list of the user's", CUl);
    functor!(s, "a log of the user's", CUt);
    wrapper!(s, First, Option<S>, prop::option::of(val()), |a| First(ocat(a)));
    wrapper!(s, Last, Option<S>, prop::option::of(val()), |a| Last(ocat(a)));
    wrapper!(s, Min, S, val(), |a| Min(Cat(a)));
    wrapper!(s, Max, S, val(), |a| Max(Cat(a)));
    wrapper!(s, Sum, S, val(), |a| Sum(Cat(a)));
    wrapper!(s, Product, S, val(), |a| Product(Cat(a)));
    applicative!(s, "Option", COpt);
    applicative!(s, "Result", CRes);
    applicative!(s, "Maybe", CMay);
    applicative!(s, "Either", CEi);
    applicative!(s, "Validated", CVal);
    applicative!(s, "Choice", CCh);
    applicative!(s, "Vec", CVec);
    applicative!(s, "Id", CId);
    applicative!(s, "Writer", CWr);
    applicative!(s, "a list of the user's", CUl);
    applicative!(s, "a log of the user's", CUt);
    pure!(s, "Option", COpt);
    pure!(s, "Result", CRes);
    pure!(s, "Maybe", CMay);
    pure!(s, "Either", CEi);
    pure!(s, "Validated", CVal);
    pure!(s, "Choice", CCh);
    pure!(s, "Vec", CVec);
    pure!(s, "Id", CId);
    pure!(s, "Writer", CWr);
    pure!(s, "a list of the user's", CUl);
    monad!(s, "Option", COpt);
    monad!(s, "Result", CRes);
    monad!(s, "Maybe", CMay);
    monad!(s, "Either", CEi);
    monad!(s, "Validated", CVal);
    monad!(s, "Choice", CCh);
    monad!(s, "Id", CId);
    monad!(s, "Writer", CWr);
    monad!(s, "a list of the user's", CUl);
    monad!(s, "a log of the user's", CUt);
    plus!(s, "Option", COpt);
    plus!(s, "Result", CRes);
    plus!(s, "Maybe", CMay);
    plus!(s, "Either", CEi);
    plus!(s, "Validated", CVal);
    plus!(s, "Choice", CCh);
    second!(s, "Either", CEi);
    second!(s, "Validated", CVal);

    combine!(s, "String", S, S, val(), |a| a);
    combine!(s, "Vec", Vec<S>, Vec<S>, vals(6), |a| a);
    combine!(s, "PersistentVector", CPv<u16>, Vec<u16>, vec(any::<u16>(), 0..150), |a| Repr::mk(Md::ok(a)));
    combine!(s, "Choice", CCh<S>, Vec<S>, vals(6), rustica::datatypes::choice::Choice::of_many);
    combine!(s, "Id", CId<Vec<S>>, Vec<S>, vals(4), CId::new);
    combine!(s, "Writer", CWr<S>, (Vec<S>, S), (vals(4), val()), |(l, a)| CWr::new(l, a));
    combine!(s, "Validated", Validated<S, S>, Result<S, Vec<S>>, validateds(), |m| validated(&m));
    combine!(s, "Sum", Sum<Cat>, S, val(), |a| Sum(Cat(a)));
    combine!(s, "Product", Product<Cat>, S, val(), |a| Product(Cat(a)));
    combine!(s, "Min", Min<S>, S, val(), Min);
    combine!(s, "Max", Max<S>, S, val(), Max);
    combine!(s, "First", First<S>, Option<S>, prop::option::of(val()), First);
    combine!(s, "Last", Last<S>, Option<S>, prop::option::of(val()), Last);
    combine!(s, "Option", Option<S>, Option<S>, prop::option::of(val()), |a| a);
    combine!(s, "BTreeMap", BTreeMap<u8, S>, Vec<(u8, S)>, list((0u8..40, val()), 6, 40), |a| a.into_iter().collect());
    combine!(s, "HashMap", HashMap<u8, S>, Vec<(u8, S)>, list((0u8..40, val()), 6, 40), |a| a.into_iter().collect());
    combine!(s, "BTreeSet", BTreeSet<S>, Vec<S>, vals(6), |a| a.into_iter().collect());
    combine!(s, "HashSet", HashSet<S>, Vec<S>, vals(6), |a| a.into_iter().collect());
    combine_keyed!(s, "Min", Min<Keyed>, 2, |v| Min(v[0].clone()), |x| vec![x.0.full()]);
    combine_keyed!(s, "Max", Max<Keyed>, 2, |v| Max(v[0].clone()), |x| vec![x.0.full()]);
    combine_keyed!(s, "BTreeSet", BTreeSet<Keyed>, 8, |v| v.iter().cloned().collect(), |x| x.iter().map(Keyed::full).collect());
    combine_keyed!(s, "HashSet", HashSet<Keyed>, 8, |v| v.iter().cloned().collect(), |x| x.iter().map(Keyed::full).collect());
    combine_keyed!(s, "BTreeMap", BTreeMap<Keyed, S>, 8, |v| v.iter().map(|k| (k.clone(), k.tag.clone())).collect(), |x| {
        x.iter().map(|(k, v)| (k.key, format!("{}={v}", k.tag))).collect()
    });
    combine_keyed!(s, "HashMap", HashMap<Keyed, S>, 8, |v| v.iter().map(|k| (k.clone(), k.tag.clone())).collect(), |x| {
        x.iter().map(|(k, v)| (k.key, format!("{}={v}", k.tag))).collect()
    });
    combine!(s, "pair", (S, Option<S>), (S, Option<S>), (val(), prop::option::of(val())), |a| a);
    combine!(s, "triple", (S, Vec<S>, S), (S, Vec<S>, S), (val(), vals(3), val()), |a| a);
    combine!(s, "quadruple", (S, Vec<S>, S, Option<S>), (S, Vec<S>, S, Option<S>), (val(), vals(3), val(), prop::option::of(val())), |a| a);
    s.check(
        "combine/Predicate",
        "the predicates differ on a value",
        20_000,
        || (pred(), pred(), vals(6), 0usize..5),
        |(p, q, xs, n), obs| {
            obs.nontrivial(xs.iter().any(|x| p.ok(x) != q.ok(x)));
            let mk = |p: &Pred| {
                let p = p.clone();
                Predicate::new(move |x: &S| p.ok(x))
            };
            let (a, b) = (mk(p), mk(q));
            let (o, r) = (a.clone().combine_owned(b.clone()), a.combine(&b));
            let (on, rn) = (a.clone().combine_n_owned(*n), a.combine_n(n));
            for x in xs {
                ensure_eq!(o.contains(x), r.contains(x), "combine on {x:?}");
                ensure_eq!(on.contains(x), rn.contains(x), "combine_n on {x:?}");
            }
            Ok(())
        },
    );
    s.check(
        "errors/Result",
        "the computation fails",
        30_000,
        || (md(Kind::Res), kl(), fun()),
        |(m, h, f), obs| {
            obs.nontrivial(!m.is_ok());
            let x: Result<S, S> = Repr::mk(m.clone());
            let hc = |e: &S| <Result<S, S> as Repr<S>>::mk(kl_md(Kind::Res, h, e));
            ensure_eq!(x.clone().catch_owned(|e: S| hc(&e)), x.catch(|e: &S| hc(e)), "catch");
            ensure_eq!(x.clone().map_error_to_owned(|e: S| f.ap(&e)), x.map_error_to(|e: &S| f.ap(e)), "map_error_to");
            ensure_eq!(x.clone().map_error_to_owned(|e: S| e.len()), x.map_error_to(|e: &S| e.len()), "map_error_to another type");
            let o: Option<S> = x.clone().ok();
            let r: Option<S> = hc(&"o".to_string()).ok();
            ensure_eq!(o.clone().catch_owned(|_: ()| r.clone()), o.catch(|_: &()| r.clone()), "catch of an option");
            ensure_eq!(o.clone().map_error_to_owned(|_: ()| f.ap(&"e".into())), o.map_error_to(|_: &()| f.ap(&"e".into())), "map_error_to of an option");
            Ok(())
        },
    );
    s.check(
        "validated",
        "at least two errors in all",
        40_000,
        || (validateds(), validateds(), list(validateds(), 5, 20), fun(), val(), prop::option::of(val())),
        |(a, b, ms, f, e, o), obs| {
            type V = Validated<S, S>;
            let errs = |m: &Result<S, Vec<S>>| m.as_ref().err().map_or(0, |e| e.len());
            obs.nontrivial(errs(a) + errs(b) > 1);
            let (x, y) = (validated(a), validated(b));
            ensure_eq!(x.clone().fmap_invalid_owned(|e: S| f.ap(&e)), x.fmap_invalid(|e: &S| f.ap(e)), "fmap_invalid");
            ensure_eq!(out(|| x.clone().combine_errors_owned(y.clone())), out(|| x.combine_errors(&y)), "combine_errors");
            ensure_eq!(out(|| x.clone().unwrap_owned()), out(|| x.unwrap()), "unwrap");
            ensure_eq!(out(|| x.clone().unwrap_invalid_owned().into_vec()), out(|| x.unwrap_invalid()), "unwrap_invalid");
            ensure_eq!(V::from_option_owned(o.clone(), e.clone()), V::from_option(o, e), "from_option");
            let calls = std::cell::Cell::new(0);
            let ef = || {
                calls.set(calls.get() + 1);
                e.clone()
            };
            let r = V::from_option_with(o, &ef);
            let rc = calls.take();
            ensure_eq!(V::from_option_with_owned(o.clone(), ef), r, "from_option_with");
            ensure_eq!(calls.take(), rc, "evaluations of the error");
            let res = a.clone().map_err(|es| es.first().cloned().unwrap_or_default());
            ensure_eq!(V::from_result_owned(res.clone()), V::from_result(&res), "from_result");
            ensure_eq!(out(|| x.clone().to_result_owned()), out(|| x.to_result()), "to_result");
            let vs: Vec<V> = ms.iter().map(validated).collect();
            let refs: Vec<&V> = vs.iter().collect();
            ensure_eq!(V::sequence_owned(vs.clone(), |v: Vec<S>| v.join(";")), V::sequence(&refs, &|v: &[S]| v.join(";")), "sequence");
            let (o, r): (Validated<S, Vec<S>>, Validated<S, Vec<S>>) = (V::collect_owned(vs.iter().cloned()), V::collect(vs.iter().cloned()));
            ensure_eq!(o, r, "collect");
            // the same errors in another internal representation are the same errors
            if let Validated::Invalid(es) = &x {
                let heap = V::Invalid(SmallVec::from_vec(es.to_vec()));
                ensure_eq!(out(|| heap.clone().combine_errors_owned(y.clone())), out(|| x.combine_errors(&y)), "combine_errors of a spilled list");
            }
            Ok(())
        },
    );
    s.check(
        "evaluate",
        "the functions are not the identity",
        20_000,
        || (val(), val(), fun(), fun(), fun2(), pred()),
        |(a, b, f, g, h, p), obs| {
            obs.nontrivial(!f.is_id() && !g.is_id());
            macro_rules! both {
                ($x:expr, $y:expr, $w:expr) => {{
                    let (mk, other): (&dyn Fn() -> _, &dyn Fn() -> _) = (&|| $x, &|| $y);
                    let seen = |r: S| {
                        let t = trace();
                        (r, t)
                    };
                    trace();
                    let x = mk();
                    ensure_eq!(seen(mk().evaluate_owned()), seen(x.evaluate()), "evaluate {}", $w);
                    ensure_eq!(seen(mk().fmap_evaluate_owned(|a| f.ap(&a))), seen(x.fmap_evaluate(|a| f.ap(&a))), "fmap_evaluate {}", $w);
                    ensure_eq!(seen(mk().map_evaluate_owned(|a| f.ap(&a))), seen(x.map_evaluate(|a| f.ap(&a))), "map_evaluate {}", $w);
                    let k = |a: S| {
                        let g = g.clone();
                        Thunk::new(move || {
                            emit(format!("k {a}"));
                            g.ap(&a)
                        })
                    };
                    ensure_eq!(seen(mk().bind_evaluate_owned(k)), seen(x.bind_evaluate(k)), "bind_evaluate {}", $w);
                    ensure_eq!(seen(mk().and_then_evaluate_owned(k)), seen(x.and_then_evaluate(k)), "and_then_evaluate {}", $w);
                    ensure_eq!(seen(mk().combine_evaluate_owned(other(), |a, b| h.ap(&a, &b))), seen(x.combine_evaluate(&other(), |a, b| h.ap(&a, &b))), "combine_evaluate {}", $w);
                    let flt = |a: &S| p.ok(a);
                    ensure_eq!(mk().filter_evaluate_owned(flt), x.filter_evaluate(flt), "filter_evaluate {}", $w);
                    ensure_eq!(trace().len(), 2, "evaluations by filter_evaluate {}", $w);
                }};
            }
            let eff = |a: &S| {
                let a = a.clone();
                move || {
                    emit(format!("run {a}"));
                    a.clone()
                }
            };
            both!(Thunk::new(eff(a)), IO::new(eff(b)), "of a thunk");
            both!(IO::new(eff(a)), Thunk::new(eff(b)), "of an effect");
            Ok(())
        },
    );
    s.check(
        "async",
        "the function is not the identity",
        10_000,
        || (val(), val(), fun(), fun2(), any::<[bool; 2]>()),
        |(a, b, f, g, pure), obs| {
            obs.nontrivial(!f.is_id());
            let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
            let mk = |v: &S, pure: bool| {
                let v = v.clone();
                if pure {
                    return AsyncM::pure(v);
                }
                AsyncM::new(move || {
                    let v = v.clone();
                    async move {
                        emit(format!("run {v}"));
                        v
                    }
                })
            };
            let seen = |m: AsyncM<S>| {
                let r = rt.block_on(m.try_get());
                (r, trace())
            };
            trace();
            let x = mk(a, pure[0]);
            let map = || {
                let f = f.clone();
                move |a: S| {
                    let f = f.clone();
                    async move { f.ap(&a) }
                }
            };
            ensure_eq!(seen(x.clone().fmap_owned(map())), seen(x.fmap(map())), "fmap");
            let k = || {
                let (f, p) = (f.clone(), pure[1]);
                move |a: S| {
                    let v = f.ap(&a);
                    async move {
                        if p {
                            AsyncM::pure(v)
                        } else {
                            AsyncM::new(move || {
                                let v = v.clone();
                                async move {
                                    emit(format!("step {v}"));
                                    v
                                }
                            })
                        }
                    }
                }
            };
            ensure_eq!(seen(x.clone().bind_owned(k())), seen(x.bind(k())), "bind");
            let fs = || {
                let (g, b) = (g.clone(), b.clone());
                let h = move |a: S| g.ap(&a, &b);
                if pure[1] {
                    AsyncM::pure(h)
                } else {
                    AsyncM::new(move || {
                        let h = h.clone();
                        async move {
                            emit("function");
                            h
                        }
                    })
                }
            };
            ensure_eq!(seen(x.clone().apply_owned(fs())), seen(x.apply(fs())), "apply");
            Ok(())
        },
    );
    s.main()
}
