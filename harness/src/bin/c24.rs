//! C24: conversions between result-like types.
#![allow(deprecated)]
use proptest::collection::vec;
use proptest::prelude::*;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::{Maybe, MaybeError, MaybeExt};
use rustica::datatypes::validated::Validated;
use rustica::datatypes::writer::Writer;
use rustica::error as er;
use rustica::error::{ComposableError, ErrorCategory, ErrorOps};
use rustica::traits::alternative::Alternative;
use rustica::traits::identity::Identity;
use rustica::utils::error_utils as eu;
use rustica::utils::error_utils::{ResultExt, WithError};
use serde::{Deserialize, Serialize};
use smallvec::SmallVec;
use std::cell::{Cell, RefCell};
use vharness::iters::{follows, walk};
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

type Ct = ComposableError<S>;

/// A value in one of the result-like types.
#[derive(Clone, Debug, PartialEq)]
enum Any {
    O(Option<S>),
    M(Maybe<S>),
    R(Result<S, S>),
    E(Either<S, S>),
    V(Validated<S, S>),
    C(Result<S, Ct>),
    B(Result<S, Box<Ct>>),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Ty {
    O,
    M,
    R,
    E,
    V,
    C,
    B,
}
/// What it says: the value, or the errors it can hold (none for the optional types).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Model {
    ty: Ty,
    /// contexts are kept for the error of `C` and `B` only
    out: Result<S, Vec<S>>,
    ctx: Vec<S>,
}
fn mk(m: &Model) -> Any {
    let e = || m.out.clone().unwrap_err().into_iter().next().unwrap();
    let comp = || m.ctx.iter().rev().fold(ComposableError::new(e()), |c: Ct, s| c.with_context(s.clone()));
    let ok = m.out.clone().ok();
    match (m.ty, ok) {
        (Ty::O, ok) => Any::O(ok),
        (Ty::M, Some(a)) => Any::M(Maybe::Just(a)),
        (Ty::M, None) => Any::M(Maybe::Nothing),
        (Ty::R, Some(a)) => Any::R(Ok(a)),
        (Ty::R, None) => Any::R(Err(e())),
        (Ty::E, Some(a)) => Any::E(Either::Right(a)),
        (Ty::E, None) => Any::E(Either::Left(e())),
        (Ty::V, Some(a)) => Any::V(Validated::Valid(a)),
        (Ty::V, None) => Any::V(Validated::Invalid(m.out.clone().unwrap_err().into_iter().collect())),
        (Ty::C, Some(a)) => Any::C(Ok(a)),
        (Ty::C, None) => Any::C(Err(comp())),
        (Ty::B, Some(a)) => Any::B(Ok(a)),
        (Ty::B, None) => Any::B(Err(Box::new(comp()))),
    }
}
fn see(a: &Any) -> Model {
    let m = |ty, out| Model { ty, out, ctx: vec![] };
    let c = |ty, r: &Result<S, &Ct>| Model {
        ty,
        out: r.clone().map_err(|e| vec![e.core_error().clone()]),
        ctx: r.clone().err().map(|e| e.context().iter().map(|x| x.to_string()).collect()).unwrap_or_default(),
    };
    match a {
        Any::O(o) => m(Ty::O, o.clone().ok_or(vec![])),
        Any::M(Maybe::Just(a)) => m(Ty::M, Ok(a.clone())),
        Any::M(Maybe::Nothing) => m(Ty::M, Err(vec![])),
        Any::R(r) => m(Ty::R, r.clone().map_err(|e| vec![e])),
        Any::E(Either::Right(a)) => m(Ty::E, Ok(a.clone())),
        Any::E(Either::Left(a)) => m(Ty::E, Err(vec![a.clone()])),
        Any::V(Validated::Valid(a)) => m(Ty::V, Ok(a.clone())),
        Any::V(Validated::Invalid(e)) => m(Ty::V, Err(e.to_vec())),
        Any::C(r) => c(Ty::C, &r.as_ref().map(|a| a.clone())),
        Any::B(r) => c(Ty::B, &r.as_ref().map(|a| a.clone()).map_err(|e| &**e)),
    }
}
fn model() -> BoxedStrategy<Model> {
    let ty = prop::sample::select(vec![Ty::O, Ty::M, Ty::R, Ty::E, Ty::V, Ty::V, Ty::C, Ty::B]);
    (ty, prop::bool::weighted(0.4), val(), vec(val(), 1..=12), vec(val(), 0..4))
        .prop_map(|(ty, ok, a, e, ctx)| {
            let out = if ok {
                Ok(a)
            } else {
                Err(match ty {
                    Ty::O | Ty::M => vec![],
                    Ty::V => e,
                    _ => vec![e[0].clone()],
                })
            };
            let ctx = if out.is_err() && matches!(ty, Ty::C | Ty::B) { ctx } else { vec![] };
            Model { ty, out, ctx }
        })
        .boxed()
}

/// One conversion: the result and what it must say. `d` is the error or fallback to use.
fn convert(a: Any, m: &Model, pick: u8, d: &S) -> Result<(Any, Model, &'static str), String> {
    let to = |ty| Model { ty, out: m.out.clone(), ctx: vec![] };
    let none = |ty| Model { ty, out: m.out.clone().map_err(|_| vec![]), ctx: vec![] };
    let fill = |ty, e: &str| Model { ty, out: m.out.clone().map_err(|_| vec![e.to_string()]), ctx: vec![] };
    let first = |ty| Model { ty, out: m.out.clone().map_err(|e| e[..1].to_vec()), ctx: vec![] };
    let calls = Cell::new(0);
    let err = || {
        calls.set(calls.get() + 1);
        d.clone()
    };
    let absent = "Attempted to access a value in a Nothing";
    type V = Validated<S, S>;
    let pick = pick as usize;
    let r = match a {
        Any::O(o) => match pick % 9 {
            0 => (Any::M(Maybe::from_option(o)), none(Ty::M), "Maybe::from_option"),
            1 => (Any::M(Maybe::from(o)), none(Ty::M), "Maybe::from"),
            2 => (Any::M(o.into()), none(Ty::M), "into Maybe"),
            3 => (Any::M(o.into_iter().collect()), none(Ty::M), "collect to Maybe"),
            4 => (Any::V(V::from_option(&o, d)), fill(Ty::V, d), "Validated::from_option"),
            5 => (Any::V(V::from_option_owned(o, d.clone())), fill(Ty::V, d), "Validated::from_option_owned"),
            6 | 7 => {
                let v = if pick % 9 == 6 { V::from_option_with(&o, &err) } else { V::from_option_with_owned(o, err) };
                if calls.get() != m.out.is_err() as usize {
                    return Err(format!("the error function ran {} times", calls.get()));
                }
                (Any::V(v), fill(Ty::V, d), "Validated::from_option_with")
            }
            _ => (Any::M(Maybe::when(o.is_some(), o.unwrap_or_default())), none(Ty::M), "Maybe::when"),
        },
        Any::M(x) => match pick % 14 {
            0 => (Any::O(x.to_option()), none(Ty::O), "to_option"),
            1 => (Any::O(x.into()), none(Ty::O), "into Option"),
            2 => (Any::O(x.as_option().cloned()), none(Ty::O), "as_option"),
            3 => (Any::O(x.as_ref().cloned()), none(Ty::O), "as_ref"),
            4 => (Any::O(x.to_vec().pop()), none(Ty::O), "to_vec"),
            5 => (Any::O(x.into_iter().next()), none(Ty::O), "into_iter"),
            6 => (Any::O(x.try_value().cloned()), none(Ty::O), "try_value"),
            7 => (Any::O(x.try_into_value()), none(Ty::O), "try_into_value"),
            8 => (Any::R(x.to_result(d.clone())), fill(Ty::R, d), "to_result"),
            9 => (Any::R(MaybeExt::to_result(x, d.clone())), fill(Ty::R, d), "MaybeExt::to_result"),
            10 => (Any::R(x.to_standard_result().map_err(|e| e.to_string())), fill(Ty::R, absent), "to_standard_result"),
            11 => (Any::R(WithError::to_result(x).map_err(|e: MaybeError| e.to_string())), fill(Ty::R, absent), "WithError::to_result"),
            n => {
                let r = if n == 12 { x.try_unwrap() } else { MaybeExt::try_unwrap(x) };
                let ctx: Vec<S> = r.as_ref().err().map(|e| e.context().iter().map(|x| x.to_string()).collect()).unwrap_or_default();
                let mut w = fill(Ty::C, "Cannot unwrap Nothing value");
                if w.out.is_err() {
                    w.ctx = vec!["Called `try_unwrap()` on a `Nothing` value".to_string()];
                }
                let r = r.map_err(|e| ctx.iter().rev().fold(ComposableError::new(e.core_error().to_string()), |c, s| c.with_context(s.clone())));
                (Any::C(r), w, "try_unwrap")
            }
        },
        Any::R(r) => match pick % 15 {
            0 => (Any::M(Maybe::from(r)), none(Ty::M), "Maybe::from a result"),
            1 => (Any::E(er::result_to_either(r)), to(Ty::E), "result_to_either"),
            2 => (Any::E(eu::result_to_either(r)), to(Ty::E), "error_utils::result_to_either"),
            3 => (Any::E(Either::from_result(r)), to(Ty::E), "Either::from_result"),
            4 => (Any::E(ResultExt::to_either(r)), to(Ty::E), "ResultExt::to_either"),
            5 => (Any::V(er::result_to_validated(r)), to(Ty::V), "result_to_validated"),
            6 => (Any::V(V::from_result(&r)), to(Ty::V), "Validated::from_result"),
            7 => (Any::V(V::from_result_owned(r)), to(Ty::V), "Validated::from_result_owned"),
            8 => (Any::V(ResultExt::to_validated(r)), to(Ty::V), "ResultExt::to_validated"),
            9 => (Any::C(er::wrap_in_composable_result(r)), to(Ty::C), "wrap_in_composable_result"),
            10 => (Any::B(er::wrap_in_composable_result_boxed(r)), to(Ty::B), "wrap_in_composable_result_boxed"),
            11 => (Any::R(WithError::to_result(r)), to(Ty::R), "WithError::to_result of a result"),
            12 => (Any::C(r.map_err(er::core_to_composable)), to(Ty::C), "core_to_composable"),
            13 => {
                let v = eu::traverse_validated([r], |x| x);
                (Any::V(v.fmap_owned_first()), to(Ty::V), "traverse_validated")
            }
            _ => match r {
                Ok(a) => (Any::E(<Either<S, ()> as ErrorCategory<S>>::lift(a)), to(Ty::E), "ErrorCategory::lift"),
                Err(e) => (Any::E(<Either<S, ()> as ErrorCategory<S>>::handle_error(e)), to(Ty::E), "ErrorCategory::handle_error"),
            },
        },
        Any::E(e) => match pick % 9 {
            0 => (Any::R(er::either_to_result(e)), to(Ty::R), "either_to_result"),
            1 => (Any::R(eu::either_to_result(e)), to(Ty::R), "error_utils::either_to_result"),
            2 => (Any::R(e.to_result()), to(Ty::R), "Either::to_result"),
            3 => (Any::R(WithError::to_result(e)), to(Ty::R), "WithError::to_result of an either"),
            4 => (Any::V(er::either_to_validated(e)), to(Ty::V), "either_to_validated"),
            5 => (Any::O(e.right_option()), none(Ty::O), "right_option"),
            6 => (Any::O(e.try_into_value()), none(Ty::O), "try_into_value"),
            7 => (Any::O(e.into_iter().next()), none(Ty::O), "into_iter"),
            _ => {
                let w = Model { ty: Ty::O, out: m.out.clone().map_or_else(|e| Ok(e[0].clone()), |_| Err(vec![])), ctx: vec![] };
                (Any::O(e.left_option()), w, "left_option")
            }
        },
        Any::V(v) => match pick % 14 {
            0 => (Any::R(er::validated_to_result(v)), first(Ty::R), "validated_to_result"),
            1 => (Any::R(V::to_result(&v)), first(Ty::R), "Validated::to_result"),
            2 => (Any::R(v.to_result_owned()), first(Ty::R), "Validated::to_result_owned"),
            3 => (Any::R(WithError::to_result(v)), first(Ty::R), "WithError::to_result of a validated"),
            4 => (Any::E(er::validated_to_either(v)), first(Ty::E), "validated_to_either"),
            5 => (Any::O(v.to_option()), none(Ty::O), "to_option"),
            6 => (Any::O(V::as_ref(&v).cloned()), none(Ty::O), "as_ref"),
            7 => (Any::O(v.into_iter().next()), none(Ty::O), "into_iter"),
            8 => (Any::O(v.try_value().cloned()), none(Ty::O), "try_value"),
            9 | 10 => {
                let split = er::split_validated_errors(v);
                let bad = m.out.as_ref().err().map_or(0, |e| e.len());
                if split.len() != bad.max(1) || split.iter().filter(|r| r.is_err()).count() != bad {
                    return Err(format!("split_validated_errors gave {split:?}"));
                }
                let v = if pick % 14 == 9 { eu::traverse_validated(split, |x| x).fmap_owned_first() } else { Validated::<S, Vec<S>>::collect_first(split) };
                (Any::V(v), to(Ty::V), "split and put together")
            }
            11 => {
                let w = match v.into_value() {
                    Ok(a) => Validated::valid(a),
                    Err(e) => V::invalid_many(e),
                };
                (Any::V(w), to(Ty::V), "into_value")
            }
            12 => {
                let w = match v.into_error_payload() {
                    Ok(e) => V::invalid_vec(e),
                    Err(a) => V::valid(a),
                };
                (Any::V(w), to(Ty::V), "into_error_payload")
            }
            _ => {
                let w = match v.error_payload() {
                    Some(e) => er::collect_errors(e.clone()),
                    None => Validated::Valid(()),
                };
                let back = match w {
                    Validated::Valid(()) => V::Valid(v.unwrap_or(d)),
                    Validated::Invalid(e) => V::Invalid(e),
                };
                (Any::V(back), to(Ty::V), "collect_errors")
            }
        },
        Any::C(r) => match pick % 4 {
            0 => (Any::R(er::flatten_composable_result(r)), to(Ty::R), "flatten_composable_result"),
            1 => (Any::R(r.map_err(er::composable_to_core)), to(Ty::R), "composable_to_core"),
            2 => (Any::C(WithError::to_result(r)), m.clone(), "WithError::to_result of a composable"),
            _ => (Any::B(r.map_err(Box::new)), Model { ty: Ty::B, ..m.clone() }, "boxing"),
        },
        Any::B(r) => match pick % 2 {
            0 => (Any::R(r.map_err(|e| er::composable_to_core(*e))), to(Ty::R), "composable_to_core of a box"),
            _ => (Any::C(r.map_err(|e| *e)), Model { ty: Ty::C, ..m.clone() }, "unboxing"),
        },
    };
    Ok(r)
}
trait First {
    fn fmap_owned_first(self) -> Validated<S, S>;
    fn collect_first(rs: Vec<Result<S, S>>) -> Validated<S, S>;
}
impl First for Validated<S, Vec<S>> {
    fn fmap_owned_first(self) -> Validated<S, S> {
        match self {
            Validated::Valid(mut v) => Validated::Valid(v.remove(0)),
            Validated::Invalid(e) => Validated::Invalid(e),
        }
    }
    fn collect_first(rs: Vec<Result<S, S>>) -> Validated<S, S> {
        Validated::<S, S>::collect::<_, Vec<S>>(rs.into_iter().map(|r| Validated::from_result_owned(r))).fmap_owned_first()
    }
}

/// A default that is not the neutral text.
#[derive(Clone, Debug, PartialEq)]
struct Dft(S);
impl Default for Dft {
    fn default() -> Self {
        Dft("default".into())
    }
}

fn main() {
    let mut s = Suite::new("C24");
    s.assume("an invalid value with no error at all has no first error and is not converted");
    s.assume("converting to an optional type forgets the error; converting several errors to one keeps the first, as documented");
    s.assume("mapping the error of a maybe: the code maps the (absent) error into the success side; not part of this property");
    s.check(
        "walk",
        "at least three conversions",
        500_000,
        || (model(), vec((any::<u8>(), val()), 1..10)),
        |(m0, steps), obs| {
            obs.nontrivial(steps.len() >= 3);
            let mut m = m0.clone();
            let mut a = mk(&m);
            ensure_eq!(see(&a), m, "harness");
            let mut path: Vec<&'static str> = vec![];
            for (p, d) in steps {
                // there is no error to convert: give it one
                if m.out.as_ref().is_err_and(|e| e.is_empty()) && !matches!(m.ty, Ty::O | Ty::M) {
                    break;
                }
                let (b, w, how) = no_panic(|| convert(a.clone(), &m, *p, d)).and_then(|r| r).map_err(|e| Fail::with_sig("panic", format!("{e} converting {a:?}")))?;
                path.push(how);
                ensure_eq!(see(&b), w, "{how} (after {path:?})");
                a = b;
                m = w;
            }
            obs.tag_if(m.ty == m0.ty && m == *m0, "round trip to the original");
            obs.tag_if(m0.out.is_err(), "a failure");
            Ok(())
        },
    );
    s.check(
        "maybe",
        "the maybe holds a value and the function is not the identity",
        150_000,
        || (prop::option::weighted(0.7, val()), fun(), pred(), val(), vals(6)),
        |(o, f, p, d, xs), obs| {
            obs.nontrivial(o.is_some() && !f.is_id());
            let m: Maybe<S> = o.clone().into();
            ensure_eq!(o.clone().map_or(Maybe::none(), Maybe::some), m, "some and none");
            ensure_eq!(m.is_just(), o.is_some(), "is_just");
            ensure_eq!(m.is_nothing(), o.is_none(), "is_nothing");
            ensure_eq!(no_panic(|| m.clone().unwrap()).ok(), *o, "unwrap");
            ensure_eq!(no_panic(|| m.clone().into_value()).ok(), *o, "into_value");
            ensure_eq!(no_panic(|| m.value().clone()).ok(), *o, "value");
            ensure_eq!(m.clone().unwrap_or(d.clone()), o.clone().unwrap_or(d.clone()), "unwrap_or");
            let n = Cell::new(0);
            let lazy = || {
                n.set(n.get() + 1);
                d.clone()
            };
            ensure_eq!(m.clone().unwrap_or_else(lazy), o.clone().unwrap_or(d.clone()), "unwrap_or_else");
            ensure_eq!(n.get(), o.is_none() as i32, "calls of the default");
            ensure_eq!(m.clone().fmap_or(d.clone(), |x| f.ap(&x)), o.as_ref().map_or(d.clone(), |x| f.ap(x)), "fmap_or");
            ensure_eq!(m.clone().filter(|x| p.ok(x)).to_option(), o.clone().filter(|x| p.ok(x)), "filter");
            let seen = RefCell::new(vec![]);
            ensure_eq!(m.clone().tap(|x| seen.borrow_mut().push(x.clone())).to_option(), *o, "tap");
            ensure_eq!(seen.take(), o.iter().cloned().collect::<Vec<_>>(), "seen by tap");
            let list: Vec<S> = o.iter().cloned().collect();
            ensure_eq!(m.iter().cloned().collect::<Vec<_>>(), list, "iter");
            ensure_eq!((&m).into_iter().cloned().collect::<Vec<_>>(), list, "borrowed into_iter");
            ensure_eq!(m.clone().into_iter().collect::<Vec<_>>(), list, "into_iter");
            ensure_eq!(m.clone().to_vec(), list, "to_vec");
            let mapped = o.as_ref().map(|x| f.ap(x));
            let mut w = m.clone();
            w.iter_mut().for_each(|x| *x = f.ap(x));
            ensure_eq!(w.to_option(), mapped, "iter_mut");
            let mut w = m.clone();
            for x in &mut w {
                *x = f.ap(x);
            }
            ensure_eq!(w.to_option(), mapped, "&mut into_iter");
            ensure_eq!(xs.iter().cloned().collect::<Maybe<S>>().to_option(), xs.first().cloned(), "collect takes the first");
            let b = p.ok(d);
            ensure_eq!(Maybe::when(b, d.clone()).to_option(), b.then(|| d.clone()), "when");
            ensure_eq!(Maybe::<S>::guard(b).to_option(), b.then_some(()), "guard");
            ensure_eq!(Maybe::<S>::default().to_option(), None, "default");
            ensure_eq!(MaybeError::Custom(d.clone()).to_string(), *d, "custom error text");
            ensure_eq!(MaybeError::Custom(d.clone()) == MaybeError::Custom(f.ap(d)), *d == f.ap(d), "custom errors equal");
            // equality and order agree with options, with absence at its own end
            let n = Maybe::<S>::Nothing;
            ensure_eq!(m == n, o.is_none(), "equals nothing");
            let other = Maybe::Just(d.clone());
            if let Some(x) = o {
                ensure_eq!(m.cmp(&other), x.cmp(d), "order of values");
                ensure_eq!(m == other, x == d, "equality of values");
            }
            ensure_eq!(m.to_option(), *o, "the maybe itself");
            Ok(())
        },
    );
    s.check(
        "either",
        "the mapped functions are not the identity",
        150_000,
        || (any::<bool>(), val(), fun(), fun(), val(), val()),
        |(right, x, f, g, dl, dr), obs| {
            obs.nontrivial(!f.is_id() && !g.is_id());
            let e: Either<S, S> = if *right { Either::right(x.clone()) } else { Either::left(x.clone()) };
            let (l, r) = if *right { (None, Some(x.clone())) } else { (Some(x.clone()), None) };
            ensure_eq!(e.is_left(), l.is_some(), "is_left");
            ensure_eq!(e.is_right(), r.is_some(), "is_right");
            let both = |e: &Either<S, S>| match e {
                Either::Left(a) => (Some(a.clone()), None),
                Either::Right(a) => (None, Some(a.clone())),
            };
            ensure_eq!(both(&e.clone().fmap_left(|a: S| f.ap(&a))), (l.as_ref().map(|a| f.ap(a)), r.clone()), "fmap_left");
            ensure_eq!(both(&e.clone().fmap_right(|a: S| g.ap(&a))), (l.clone(), r.as_ref().map(|a| g.ap(a))), "fmap_right");
            ensure_eq!(no_panic(|| e.clone().unwrap_left()).ok(), l, "unwrap_left");
            ensure_eq!(no_panic(|| e.clone().left_value()).ok(), l, "left_value");
            ensure_eq!(no_panic(|| e.left_ref().clone()).ok(), l, "left_ref");
            ensure_eq!(no_panic(|| e.clone().unwrap_right()).ok(), r, "unwrap_right");
            ensure_eq!(no_panic(|| e.clone().unwrap()).ok(), r, "unwrap");
            ensure_eq!(no_panic(|| e.clone().right_value()).ok(), r, "right_value");
            ensure_eq!(no_panic(|| e.right_ref().clone()).ok(), r, "right_ref");
            ensure_eq!(no_panic(|| e.value().clone()).ok(), r, "value");
            ensure_eq!(no_panic(|| e.clone().into_value()).ok(), r, "into_value");
            ensure_eq!(e.try_value().cloned(), r, "try_value");
            ensure_eq!(e.clone().unwrap_or(dr.clone()), r.clone().unwrap_or(dr.clone()), "unwrap_or");
            ensure_eq!(e.clone().right_or(dr.clone()), r.clone().unwrap_or(dr.clone()), "right_or");
            ensure_eq!(e.clone().left_or(dl.clone()), l.clone().unwrap_or(dl.clone()), "left_or");
            ensure_eq!(e.clone().left_option(), l, "left_option");
            ensure_eq!(e.clone().right_option(), r, "right_option");
            let (ll, rl): (Vec<S>, Vec<S>) = (l.iter().cloned().collect(), r.iter().cloned().collect());
            ensure_eq!(e.clone().left_iter().collect::<Vec<_>>(), ll, "left_iter");
            ensure_eq!(e.left_iter_ref().cloned().collect::<Vec<_>>(), ll, "left_iter_ref");
            ensure_eq!((&e).into_iter().cloned().collect::<Vec<_>>(), rl, "borrowed into_iter");
            ensure_eq!(e.clone().into_iter().collect::<Vec<_>>(), rl, "into_iter");
            let mut w = e.clone();
            w.left_iter_mut().for_each(|a| *a = f.ap(a));
            ensure_eq!(both(&w), (l.as_ref().map(|a| f.ap(a)), r.clone()), "left_iter_mut");
            let mut w = e.clone();
            (&mut w).into_iter().for_each(|a| *a = g.ap(a));
            ensure_eq!(both(&w), (l.clone(), r.as_ref().map(|a| g.ap(a))), "&mut into_iter");
            let mut w = e.clone();
            let ok = no_panic(|| {
                let a = w.left_mut();
                *a = f.ap(a);
            })
            .is_ok();
            ensure_eq!(ok, l.is_some(), "left_mut");
            ensure_eq!(both(&w), (l.as_ref().map(|a| f.ap(a)), r.clone()), "left_mut");
            let fe = WithError::fmap_error(e.clone(), |a: S| f.ap(&a));
            ensure_eq!(both(&fe), (l.as_ref().map(|a| f.ap(a)), r.clone()), "fmap_error");
            // a left and a right holding the same differ
            ensure_eq!(e == Either::Right(x.clone()), *right, "equality of sides");
            ensure_eq!(e.to_result(), r.clone().ok_or_else(|| l.clone().unwrap()), "to_result");
            Ok(())
        },
    );
    s.check(
        "result",
        "the functions of the occupied side is not the identity",
        150_000,
        || (prop::bool::ANY, val(), fun(), fun(), kl(), vec(val(), 0..12)),
        |(ok, x, f, g, k, es), obs| {
            obs.nontrivial(if *ok { !f.is_id() } else { !g.is_id() });
            let r: Result<S, S> = if *ok { Ok(x.clone()) } else { Err(x.clone()) };
            let want: Result<S, S> = if *ok { Ok(f.ap(x)) } else { Err(g.ap(x)) };
            let (cf, cg) = (|a: S| f.ap(&a), |e: S| g.ap(&e));
            ensure_eq!(ResultExt::bimap(r.clone(), cf, cg), want, "bimap");
            ensure_eq!(ErrorOps::bimap_result(r.clone(), cf, cg), want, "bimap_result");
            let e: Either<S, S> = er::result_to_either(r.clone());
            ensure_eq!(ErrorOps::bimap_result(e.clone(), cf, cg), want, "bimap_result of an either");
            let werr: Result<S, S> = if *ok { r.clone() } else { Err(g.ap(x)) };
            ensure_eq!(WithError::fmap_error(r.clone(), cg), werr, "fmap_error");
            let t: Result<Dft, S> = r.clone().map(Dft);
            ensure_eq!(ResultExt::unwrap_or_default(t), r.clone().map_or(Dft("default".into()), Dft), "unwrap_or_default");
            // recovery runs only on failures, on exactly the failure
            let step = |e: S| -> Result<S, S> {
                let (ok, mut v) = k.run(&e);
                let y = v.pop().unwrap_or(e);
                if ok { Ok(y) } else { Err(y) }
            };
            let n = Cell::new(0);
            let want = r.clone().or_else(step);
            let got = ErrorOps::recover(r.clone(), |e| {
                n.set(n.get() + 1);
                step(e)
            });
            ensure_eq!(got, want, "recover");
            ensure_eq!(n.get(), !ok as i32, "calls of the recovery");
            ensure_eq!(ErrorOps::recover(e.clone(), |e| er::result_to_either(step(e))).to_result(), want, "recover of an either");
            // lifting and failing
            ensure_eq!(<Result<(), S> as ErrorCategory<S>>::lift(x.clone()), Ok(x.clone()), "Result lift");
            ensure_eq!(<Result<(), S> as ErrorCategory<S>>::handle_error::<S>(x.clone()), Err(x.clone()), "Result handle_error");
            ensure_eq!(<Validated<S, ()> as ErrorCategory<S>>::lift(x.clone()), Validated::Valid(x.clone()), "Validated lift");
            ensure_eq!(<Validated<S, ()> as ErrorCategory<S>>::handle_error::<S>(x.clone()).errors(), vec![x.clone()], "Validated handle_error");
            // lists of errors, from iterators that know their length exactly, roughly or not at all
            let hint = |lo: usize, hi: Option<usize>| Hinted { it: es.clone().into_iter(), lo, hi };
            for (lo, hi) in [(es.len(), Some(es.len())), (0, Some(es.len())), (0, Some(es.len() + 7)), (es.len() / 2, None), (0, None), (0, Some(usize::MAX)), (0, Some(1 << 62))] {
                let many = no_panic(|| Validated::<S, S>::invalid_many(hint(lo, hi))).map_err(|p| Fail::with_sig("invalid_many hint", format!("invalid_many with size hint ({lo}, {hi:?}): {p}")))?;
                ensure_eq!(many.errors(), *es, "invalid_many with size hint ({lo}, {hi:?})");
                let c = no_panic(|| er::collect_errors(hint(lo, hi))).map_err(|p| Fail::with_sig("collect_errors hint", p))?;
                ensure_eq!(c.errors(), *es, "collect_errors with size hint ({lo}, {hi:?})");
                ensure_eq!(c.is_valid(), es.is_empty(), "collect_errors of no errors");
                if !es.is_empty() {
                    let v = no_panic(|| Validated::<S, S>::invalid_vec(hint(lo, hi))).map_err(|p| Fail::with_sig("invalid_vec hint", p))?;
                    ensure_eq!(v.errors(), *es, "invalid_vec with size hint ({lo}, {hi:?})");
                }
            }
            let spilled: SmallVec<[S; 8]> = es.iter().cloned().collect();
            ensure_eq!(Validated::<S, S>::Invalid(spilled).error_slice().to_vec(), *es, "error_slice");
            ensure!(r.is_ok() == *ok, "the result itself");
            Ok(())
        },
    );
    s.check(
        "iterators",
        "the iterator has an element, and is not only exhausted",
        30_000,
        || (vals(3), any::<u8>(), walk()),
        |(xs, which, w), obs| {
            let (one, k) = (xs.first().cloned(), *which % 22);
            let list: Vec<S> = one.iter().cloned().collect();
            obs.nontrivial(!xs.is_empty() && !w.0.is_empty());
            let m = || Maybe::from(one.clone());
            // the other side holds something whenever this one does not
            let right = || one.clone().map_or(Either::left(S::from("other")), Either::right);
            let left = || one.clone().map_or(Either::right(S::from("other")), Either::left);
            let mut va: Validated<S, S> = one.clone().map_or(Validated::invalid(S::from("other")), Validated::valid);
            let mut ve: Validated<S, S> = if xs.is_empty() { Validated::valid(S::from("other")) } else { Validated::invalid_many(xs.clone()) };
            let (own, by, by_mut) = (|x: S| x, |x: &S| x.clone(), |x: &mut S| x.clone());
            let always = S::from_iter(xs.iter().map(|x| x.as_str()));
            let mut id = Id::new(always.clone());
            let mut wr: Writer<Vec<S>, S> = Writer::new(xs.clone(), always.clone());
            let always = [always];
            match k {
                0 => follows(m().into_iter(), &list, own, w, "maybe, into_iter"),
                1 => follows((&m()).into_iter(), &list, by, w, "maybe, by reference"),
                2 => follows((&mut m()).into_iter(), &list, by_mut, w, "maybe, by mutable reference"),
                3 => follows(m().iter(), &list, by, w, "maybe, iter"),
                4 => follows(m().iter_mut(), &list, by_mut, w, "maybe, iter_mut"),
                5 => follows(right().into_iter(), &list, own, w, "either, into_iter"),
                6 => follows((&right()).into_iter(), &list, by, w, "either, by reference"),
                7 => follows((&mut right()).into_iter(), &list, by_mut, w, "either, by mutable reference"),
                8 => follows(left().left_iter(), &list, own, w, "left_iter"),
                9 => follows(left().left_iter_ref(), &list, by, w, "left_iter_ref"),
                10 => follows(left().left_iter_mut(), &list, by_mut, w, "left_iter_mut"),
                11 => follows(va.into_iter(), &list, own, w, "validated, into_iter"),
                12 => follows((&va).into_iter(), &list, by, w, "validated, by reference"),
                13 => follows((&mut va).into_iter(), &list, by_mut, w, "validated, by mutable reference"),
                14 => follows(va.iter(), &list, by, w, "validated, iter"),
                15 => follows(va.iter_mut(), &list, by_mut, w, "validated, iter_mut"),
                16 => follows(ve.iter_errors(), xs, by, w, "iter_errors"),
                17 => follows(ve.iter_errors_mut(), xs, by_mut, w, "iter_errors_mut"),
                18 => follows(id.clone().into_iter(), &always, own, w, "id, into_iter").and_then(|()| follows((&id).into_iter(), &always, by, w, "id, by reference")),
                19 => follows((&mut id).into_iter(), &always, by_mut, w, "id, by mutable reference"),
                20 => follows(wr.clone().into_iter(), &always, own, w, "writer, into_iter").and_then(|()| follows((&wr).into_iter(), &always, by, w, "writer, by reference")),
                _ => follows((&mut wr).into_iter(), &always, by_mut, w, "writer, by mutable reference"),
            }
        },
    );
    s.main()
}

/// An iterator with a correct size hint that need not be tight.
struct Hinted {
    it: std::vec::IntoIter<S>,
    lo: usize,
    hi: Option<usize>,
}
impl Iterator for Hinted {
    type Item = S;
    fn next(&mut self) -> Option<S> {
        self.lo = self.lo.saturating_sub(1);
        self.hi = self.hi.map(|h| h.saturating_sub(1));
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo, self.hi)
    }
}
