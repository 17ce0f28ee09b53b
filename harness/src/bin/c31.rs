//! C31: extraction, evaluation and natural transformations are coherent.
#![allow(deprecated)]
use rustica::datatypes::id::Id;
use rustica::datatypes::io::IO;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::wrapper::first::First;
use rustica::datatypes::wrapper::last::Last;
use rustica::datatypes::wrapper::max::Max;
use rustica::datatypes::wrapper::min::Min;
use rustica::datatypes::wrapper::product::Product;
use rustica::datatypes::wrapper::sum::Sum;
use rustica::datatypes::wrapper::thunk::Thunk;
use rustica::traits::comonad::Comonad;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use rustica::traits::functor::Functor;
use rustica::traits::hkt::HKT;
use rustica::traits::identity::Identity;
use rustica::traits::natural_transformation::{identity_nat, NaturalTransformation};
use rustica::traits::pure::{PureExt, PureType};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use vharness::cont::*;
use vharness::user::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

/// identity_nat leaves the container unchanged and commutes with fmap.
macro_rules! nat {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            $name,
            "the container holds a value and the mapped function is not the identity",
            60_000,
            || (md(<$C<S> as Repr<S>>::KIND), fun()),
            |(m, f), obs| {
                type C = $C<S>;
                obs.nontrivial(!f.is_id() && !m.values().is_empty());
                let x = C::mk(m.clone());
                let n = identity_nat::<C>();
                ensure_eq!(n.transform::<S>(&x).view(), *m, "transform");
                ensure_eq!(n.transform_owned::<S>(C::mk(m.clone())).view(), *m, "transform_owned");
                let want = m.map(|a| f.ap(a));
                let fm: $C<S> = n.transform::<S>(&x).fmap(|a: &S| f.ap(a));
                ensure_eq!(fm.view(), want, "fmap f . transform");
                let mapped: $C<S> = x.fmap(|a: &S| f.ap(a));
                ensure_eq!(n.transform::<S>(&mapped).view(), want, "transform . fmap f");
                let lens: $C<usize> = x.fmap(|a: &S| a.len());
                ensure_eq!(n.transform::<usize>(&lens).view(), m.map(|a| a.len()), "transform at another type");
                ensure_eq!(n.transform_owned::<usize>(lens).view(), m.map(|a| a.len()), "transform_owned at another type");
                ensure_eq!(x.view(), *m, "the container itself");
                Ok(())
            },
        );
    };
}

/// Value accessors: the first held value, or absence.
macro_rules! accessors {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            $name,
            "always (the container holds a value or reports its absence)",
            60_000,
            || md(<$C<S> as Repr<S>>::KIND),
            |m, obs| {
                type C = $C<S>;
                obs.nontrivial(true);
                let want = m.values().first().cloned();
                obs.tag(if want.is_some() { "holds a value" } else { "holds none" });
                let x = C::mk(m.clone());
                check_identity(&x, want, || C::mk(m.clone()))?;
                ensure_eq!(x.view(), *m, "the container itself");
                Ok(())
            },
        );
    };
}
fn check_identity<C: Identity<Source = T>, T: Clone + PartialEq + std::fmt::Debug>(
    x: &C,
    want: Option<T>,
    again: impl Fn() -> C,
) -> Res {
    match no_panic(|| x.try_value().cloned()) {
        Ok(v) => ensure_eq!(v, want, "try_value"),
        Err(p) => return Err(Fail::with_sig("checked accessor panics", format!("try_value panicked: {p}"))),
    }
    match no_panic(|| again().try_into_value()) {
        Ok(v) => ensure_eq!(v, want, "try_into_value"),
        Err(p) => return Err(Fail::with_sig("checked accessor panics", format!("try_into_value panicked: {p}"))),
    }
    match &want {
        Some(w) => {
            ensure_eq!(x.value(), w, "value");
            ensure_eq!(again().into_value(), *w, "into_value");
        }
        None => {
            ensure!(no_panic(|| x.value().clone()).is_err(), "value() of an empty container returned");
            ensure!(no_panic(|| again().into_value()).is_err(), "into_value() of an empty container returned");
        }
    }
    Ok(())
}

/// An evaluatable value that relies on every default method and counts evaluations.
struct Counted<'a> {
    v: S,
    n: &'a Cell<usize>,
}
impl HKT for Counted<'_> {
    type Source = S;
    type Output<U> = Option<U>;
}
impl Evaluate for Counted<'_> {
    fn evaluate(&self) -> S {
        self.n.set(self.n.get() + 1);
        self.v.clone()
    }
}

/// Every derived form of evaluation, for any evaluatable value: `mk` makes a fresh one and
/// `count` tells how often the computations have run in all.
fn check_evaluate<E, D>(
    mk: impl Fn() -> E,
    mk2: impl Fn(S) -> D,
    count: impl Fn() -> usize,
    v: &S,
    w: &S,
    (f, g, p): (&Fun, &Fun2, &Pred),
) -> Res
where
    E: Evaluate<Source = S>,
    D: Evaluate<Source = S>,
{
    let e = mk();
    let mut before = count();
    macro_rules! same {
        ($got:expr, $want:expr, $runs:expr, $what:literal) => {{
            let got = $got;
            ensure_eq!(got, $want, $what);
            let now = count();
            ensure_eq!(now - before, $runs, concat!("evaluations by ", $what));
            before = now;
        }};
    }
    let fo = |a: S| f.ap(&a);
    let keep = p.ok(v).then(|| v.clone());
    same!(e.evaluate(), *v, 1, "evaluate");
    same!(e.evaluate(), *v, 1, "evaluate again");
    same!(mk().evaluate_owned(), *v, 1, "evaluate_owned");
    same!(e.fmap_evaluate(fo), f.ap(v), 1, "fmap_evaluate");
    same!(e.map_evaluate(fo), f.ap(v), 1, "map_evaluate");
    same!(mk().fmap_evaluate_owned(fo), f.ap(v), 1, "fmap_evaluate_owned");
    same!(mk().map_evaluate_owned(fo), f.ap(v), 1, "map_evaluate_owned");
    // the function decides on the evaluated value which computation to evaluate next
    same!(e.bind_evaluate(|a| mk2(f.ap(&a))), f.ap(v), 2, "bind_evaluate");
    same!(e.and_then_evaluate(|a| mk2(f.ap(&a))), f.ap(v), 2, "and_then_evaluate");
    same!(mk().bind_evaluate_owned(|a| mk2(f.ap(&a))), f.ap(v), 2, "bind_evaluate_owned");
    same!(mk().and_then_evaluate_owned(|a| mk2(f.ap(&a))), f.ap(v), 2, "and_then_evaluate_owned");
    let g2 = |a: S, b: S| g.ap(&a, &b);
    let o = mk2(w.clone());
    same!(e.combine_evaluate(&o, g2), g.ap(v, w), 2, "combine_evaluate");
    same!(o.combine_evaluate(&e, g2), g.ap(w, v), 2, "combine_evaluate reversed");
    same!(mk().combine_evaluate_owned(mk2(w.clone()), g2), g.ap(v, w), 2, "combine_evaluate_owned");
    same!(e.filter_evaluate(|a| p.ok(a)), keep, 1, "filter_evaluate");
    same!(mk().filter_evaluate_owned(|a| p.ok(a)), keep, 1, "filter_evaluate_owned");
    let _ = before;
    Ok(())
}

/// A natural transformation Option -> Vec that relies on the default owned method.
struct OptVec;
impl NaturalTransformation<Option<()>, Vec<()>> for OptVec {
    fn transform<A: Clone>(&self, fa: &Option<A>) -> Vec<A> {
        fa.iter().cloned().collect()
    }
}
/// A natural transformation Vec -> Maybe.
struct VecMaybe;
impl NaturalTransformation<Vec<()>, Maybe<()>> for VecMaybe {
    fn transform<A: Clone>(&self, fa: &Vec<A>) -> Maybe<A> {
        match fa.first() {
            Some(a) => Maybe::Just(a.clone()),
            None => Maybe::Nothing,
        }
    }
}

macro_rules! pure_ext {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            $name,
            "the two values differ",
            30_000,
            || (val(), val(), fun2()),
            |(a, b, g), obs| {
                type C = $C<()>;
                obs.nontrivial(a != b);
                let ok = |x: &S| Md::ok(vec![x.clone()]);
                ensure_eq!(a.to_pure::<C>().view(), ok(a), "to_pure");
                ensure_eq!(a.clone().to_pure_owned::<C>().view(), ok(a), "to_pure_owned");
                ensure_eq!(a.pair_with::<C, S>(b).view(), Md::ok(vec![(a.clone(), b.clone())]), "pair_with");
                ensure_eq!(a.lift_other::<C, S>(b).view(), ok(b), "lift_other");
                ensure_eq!(a.combine_with::<C, S, S>(b, |x, y| g.ap(x, y)).view(), ok(&g.ap(a, b)), "combine_with");
                ensure_eq!(PureType::<C, ()>::lift(a).view(), ok(a), "PureType::lift");
                ensure_eq!(PureType::<C, ()>::lift_owned(a.clone()).view(), ok(a), "PureType::lift_owned");
                Ok(())
            },
        );
    };
}

fn main() {
    let mut s = Suite::new("C31");
    s.assume("evaluated functions and mapped functions are pure");

    s.check(
        "comonad",
        "both extended functions depend on the value",
        150_000,
        || (val(), fun(), fun(), fun()),
        |(v, f, g, h), obs| {
            obs.nontrivial([f, g].iter().all(|f| matches!(f, Fun::Tag(_) | Fun::Pre(_))));
            let w = Id::new(v.clone());
            let cf = |w: &Id<S>| f.ap(&w.extract());
            let cg = |w: &Id<S>| g.ap(w.as_ref());
            let ch = |w: &Id<S>| h.ap(&w.clone().into_inner());
            ensure_eq!(w.extract(), *v, "extract");
            ensure_eq!(w.duplicate(), w, "duplicate");
            ensure_eq!(w.duplicate().extract(), w.extract(), "extract . duplicate");
            ensure_eq!(w.duplicate().duplicate(), w.duplicate(), "duplicate . duplicate");
            ensure_eq!(w.extend(|w| w.extract()), w, "extend extract");
            ensure_eq!(w.extend(cf).extract(), cf(&w), "extract . extend f");
            ensure_eq!(w.extend(cf), Id::new(f.ap(v)), "extend f");
            ensure_eq!(w.duplicate().extend(cf), w.extend(cf), "extend f . duplicate");
            let both = w.extend(cf).extend(cg);
            ensure_eq!(both, w.extend(|w| cg(&w.extend(cf))), "extend g . extend f");
            ensure_eq!(both.extend(ch), w.extend(|w| ch(&w.extend(|w| cg(&w.extend(cf))))), "three extensions");
            ensure_eq!(w.fmap(|a| f.ap(a)), w.extend(|w| f.ap(&w.extract())), "fmap f = extend (f . extract)");
            // the whole structure is available to the function
            ensure_eq!(w.extend(|w| w.clone()).into_inner(), w, "extend id");
            ensure_eq!(w.extend(|w| w.extract().len()), Id::new(v.len()), "extend to another type");
            let nested = Id::new(w.clone());
            ensure_eq!(nested.extract(), w, "extract a nested value");
            ensure_eq!(nested.fmap(|w| w.extract()), w, "fmap extract");
            let calls = Cell::new(0);
            let _ = w.extend(|w| {
                calls.set(calls.get() + 1);
                w.extract()
            });
            ensure_eq!(calls.get(), 1, "calls made by extend");
            Ok(())
        },
    );
    s.check(
        "Id",
        "the two values differ",
        80_000,
        || (val(), val(), fun()),
        |(a, b, f), obs| {
            obs.nontrivial(a != b);
            let x = Id::new(a.clone());
            ensure_eq!(Id::from_ref(a), x, "from_ref");
            ensure_eq!(Id::from(a.clone()), x, "from");
            ensure_eq!(x.clone().into_inner(), *a, "into_inner");
            ensure_eq!(x.clone().unwrap(), *a, "unwrap");
            ensure_eq!(x.clone().unwrap_or(b.clone()), *a, "unwrap_or");
            ensure_eq!(x.as_ref(), a, "as_ref");
            ensure_eq!(x.clone().then(Id::new(b.clone())), Id::new(b.clone()), "then");
            ensure_eq!(x.clone().then(Id::new(b.len())), Id::new(b.len()), "then at another type");
            let mut y = x.clone();
            *y.value_mut() = b.clone();
            ensure_eq!((&x, &y), (&Id::new(a.clone()), &Id::new(b.clone())), "value_mut");
            let mut z = x.clone();
            for v in &mut z {
                *v = f.ap(v);
            }
            ensure_eq!(z, Id::new(f.ap(a)), "mutable iteration");
            ensure_eq!(x.clone().into_iter().collect::<Vec<_>>(), vec![a.clone()], "into_iter");
            ensure_eq!((&x).into_iter().cloned().collect::<Vec<_>>(), vec![a.clone()], "iter");
            ensure_eq!(Id::<S>::default(), Id::new(S::new()), "default");
            ensure_eq!(x == y, a == b, "equality");
            ensure_eq!(x.cmp(&y), a.cmp(b), "order");
            check_identity(&x, Some(a.clone()), || Id::new(a.clone()))
        },
    );

    nat!(s, "nat-option", COpt);
    nat!(s, "nat-result", CRes);
    nat!(s, "nat-maybe", CMay);
    nat!(s, "nat-either", CEi);
    nat!(s, "nat-validated", CVal);
    nat!(s, "nat-choice", CCh);
    nat!(s, "nat-vec", CVec);
    nat!(s, "nat-id", CId);
    nat!(s, "nat-writer", CWr);
    nat!(s, "nat-pvec", CPv);
    s.check(
        "nat-compose",
        "a value is held",
        50_000,
        || (proptest::option::of(val()), list(val(), 5, 30), fun()),
        |(o, l, f), obs| {
            obs.nontrivial(o.is_some() && !l.is_empty());
            let (ov, vm) = (OptVec, VecMaybe);
            let fl = |a: &S| f.ap(a);
            ensure_eq!(ov.transform_owned::<S>(o.clone()), ov.transform::<S>(o), "transform_owned of Option -> Vec");
            ensure_eq!(vm.transform_owned::<S>(l.clone()), vm.transform::<S>(l), "transform_owned of Vec -> Maybe");
            ensure_eq!(ov.transform::<S>(o).fmap(fl), ov.transform::<S>(&o.fmap(fl)), "Option -> Vec is natural");
            ensure_eq!(vm.transform::<S>(l).fmap(fl), vm.transform::<S>(&l.fmap(fl)), "Vec -> Maybe is natural");
            let there = vm.transform_owned::<S>(ov.transform_owned::<S>(o.clone()));
            ensure_eq!(there, Maybe::from_option(o.clone()), "composition");
            let (io, iv) = (identity_nat::<Option<S>>(), identity_nat::<Vec<S>>());
            ensure_eq!(ov.transform::<S>(&io.transform::<S>(o)), iv.transform::<S>(&ov.transform::<S>(o)), "identities on both sides");
            ensure_eq!(*identity_nat::<Box<S>>().transform::<S>(&Box::new(f.ap(&"x".to_string()))), f.ap(&"x".to_string()), "Box");
            Ok(())
        },
    );

    accessors!(s, "value-option", COpt);
    accessors!(s, "value-result", CRes);
    accessors!(s, "value-maybe", CMay);
    accessors!(s, "value-either", CEi);
    accessors!(s, "value-validated", CVal);
    accessors!(s, "value-choice", CCh);
    accessors!(s, "value-id", CId);
    accessors!(s, "value-writer", CWr);
    accessors!(s, "value-pvec", CPv);
    accessors!(s, "value-user", CUt);
    s.check(
        "value-wrappers",
        "the value is not the default",
        80_000,
        || (proptest::option::of(val()), val()),
        |(o, d), obs| {
            obs.nontrivial(o.as_ref().is_some_and(|v| v != d));
            check_identity(&First(o.clone()), o.clone(), || First(o.clone()))?;
            check_identity(&Last(o.clone()), o.clone(), || Last(o.clone()))?;
            ensure_eq!(First(o.clone()).unwrap_or(d.clone()), o.clone().unwrap_or(d.clone()), "First::unwrap_or");
            ensure_eq!(Last(o.clone()).unwrap_or(d.clone()), o.clone().unwrap_or(d.clone()), "Last::unwrap_or");
            ensure_eq!(no_panic(|| First(o.clone()).unwrap()).ok(), *o, "First::unwrap");
            ensure_eq!(no_panic(|| Last(o.clone()).unwrap()).ok(), *o, "Last::unwrap");
            // rendering and borrowing show the held value, or that there is none
            let shown = |name: &str| match o {
                Some(v) => format!("{name}(Some({v}))"),
                None => format!("{name}(None)"),
            };
            ensure_eq!(First(o.clone()).to_string(), shown("First"), "display");
            ensure_eq!(Last(o.clone()).to_string(), shown("Last"), "display");
            ensure_eq!(no_panic(|| First(o.clone()).as_ref().clone()).ok(), *o, "First::as_ref");
            ensure_eq!(no_panic(|| Last(o.clone()).as_ref().clone()).ok(), *o, "Last::as_ref");
            if let Some(v) = o {
                let c = Cat(v.clone());
                ensure_eq!([Sum(v).to_string(), Product(v).to_string(), Min(v).to_string(), Max(v).to_string()],
                    ["Sum", "Product", "Min", "Max"].map(|n| format!("{n}({v})")), "display");
                ensure_eq!(First::from(v.clone()), First(Some(v.clone())), "First::from");
                ensure_eq!(Last::from(v.clone()), Last(Some(v.clone())), "Last::from");
                macro_rules! always {
                    ($($W:ident)*) => {$(
                        check_identity(&$W(c.clone()), Some(c.clone()), || $W(c.clone()))?;
                        ensure_eq!($W(c.clone()).unwrap(), c, concat!(stringify!($W), "::unwrap"));
                        ensure_eq!($W(c.clone()).unwrap_or(Cat(d.clone())), c, concat!(stringify!($W), "::unwrap_or"));
                        ensure_eq!(AsRef::<Cat>::as_ref(&$W(c.clone())).clone(), c, concat!(stringify!($W), "::as_ref"));
                        ensure_eq!($W::from(c.clone()).0, c, concat!(stringify!($W), "::from"));
                    )*};
                }
                always!(Sum Product Min Max);
            }
            Ok(())
        },
    );

    s.check(
        "evaluate-thunk",
        "the functions depend on the evaluated value",
        100_000,
        || (val(), val(), fun(), fun2(), pred()),
        |(v, w, f, g, p), obs| {
            obs.nontrivial(matches!(f, Fun::Tag(_) | Fun::Pre(_)) && matches!(g, Fun2::Tag(_) | Fun2::Cat));
            obs.tag(if p.ok(v) { "value kept" } else { "value filtered out" });
            let n = &Cell::new(0usize);
            let run = |x: &S| {
                n.set(n.get() + 1);
                x.clone()
            };
            check_evaluate(
                || Thunk::new(|| run(v)),
                |x| Thunk::new(move || run(&x)),
                || n.get(),
                v,
                w,
                (f, g, p),
            )
        },
    );
    s.check(
        "evaluate-default",
        "the functions depend on the evaluated value",
        100_000,
        || (val(), val(), fun(), fun2(), pred()),
        |(v, w, f, g, p), obs| {
            obs.nontrivial(matches!(f, Fun::Tag(_) | Fun::Pre(_)) && matches!(g, Fun2::Tag(_) | Fun2::Cat));
            obs.tag(if p.ok(v) { "value kept" } else { "value filtered out" });
            let n = &Cell::new(0usize);
            check_evaluate(
                || Counted { v: v.clone(), n },
                |x| Counted { v: x, n },
                || n.get(),
                v,
                w,
                (f, g, p),
            )
        },
    );
    s.check(
        "evaluate-io",
        "the functions depend on the evaluated value",
        60_000,
        || (val(), val(), fun(), fun2(), pred(), fun()),
        |(v, w, f, g, p, m), obs| {
            obs.nontrivial(matches!(f, Fun::Tag(_) | Fun::Pre(_)) && matches!(g, Fun2::Tag(_) | Fun2::Cat));
            let n = Arc::new(AtomicUsize::new(0));
            let mk = |x: S| {
                let n = n.clone();
                IO::new(move || {
                    n.fetch_add(1, SeqCst);
                    x.clone()
                })
            };
            check_evaluate(|| mk(v.clone()), mk, || n.load(SeqCst), v, w, (f, g, p))?;
            // evaluating is running, also for mapped computations
            let m2 = m.clone();
            ensure_eq!(mk(v.clone()).fmap(move |a| m2.ap(&a)).evaluate(), m.ap(v), "evaluate a mapped IO");
            ensure_eq!(IO::pure(v.clone()).evaluate_owned(), *v, "evaluate a pure IO");
            Ok(())
        },
    );

    pure_ext!(s, "pure-option", COpt);
    pure_ext!(s, "pure-result", CRes);
    pure_ext!(s, "pure-maybe", CMay);
    pure_ext!(s, "pure-either", CEi);
    pure_ext!(s, "pure-validated", CVal);
    pure_ext!(s, "pure-choice", CCh);
    pure_ext!(s, "pure-vec", CVec);
    pure_ext!(s, "pure-id", CId);
    pure_ext!(s, "pure-writer", CWr);
    s.main()
}
