//! C05: functor laws for every container that can be mapped.
use proptest::prelude::*;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::traits::functor::{Functor, FunctorExt};
use rustica::traits::pure::{Pure, PureExt, PureType};
use std::cell::RefCell;
use vharness::cont::*;
use vharness::user::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::ensure_eq;

fn sorted(mut v: Vec<S>) -> Vec<S> {
    v.sort();
    v
}

macro_rules! functor {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("functor/", $name),
            "container holding at least one value, mapped by a non-identity function",
            40_000,
            || (md(<$C<S> as Repr<S>>::KIND), fun(), fun(), val()),
            |(m, f, g, c), obs| {
                let x = <$C<S> as Repr<S>>::mk(m.clone());
                ensure_eq!(x.view(), *m, "representation");
                obs.nontrivial(!m.values().is_empty() && !f.is_id());
                obs.tag_if(m.values().len() > 8, "spilled");
                obs.tag_if(!m.is_ok(), "failure");
                obs.tag_if(m.values().len() > 1, "many values");
                ensure_eq!(x.fmap(|a: &S| a.clone()).view(), *m, "fmap id");
                ensure_eq!(x.clone().fmap_owned(|a: S| a).view(), *m, "fmap_owned id");
                let calls = RefCell::new(vec![]);
                let y = x.fmap(|a: &S| {
                    calls.borrow_mut().push(a.clone());
                    f.ap(a)
                });
                ensure_eq!(y.view(), m.map(|a| f.ap(a)), "fmap {f:?}");
                ensure_eq!(sorted(calls.take()), sorted(m.values().to_vec()), "arguments fmap passed to the function");
                let y2 = x.clone().fmap_owned(|a: S| {
                    calls.borrow_mut().push(a.clone());
                    f.ap(&a)
                });
                ensure_eq!(y2.view(), m.map(|a| f.ap(a)), "fmap_owned {f:?}");
                ensure_eq!(sorted(calls.take()), sorted(m.values().to_vec()), "arguments fmap_owned passed to the function");
                let two = m.map(|a| g.ap(&f.ap(a)));
                ensure_eq!(y.fmap(|a: &S| g.ap(a)).view(), two, "fmap g . fmap f");
                ensure_eq!(x.fmap(|a: &S| g.ap(&f.ap(a))).view(), two, "fmap (g . f)");
                ensure_eq!(y2.fmap_owned(|a: S| g.ap(&a)).view(), two, "fmap_owned g . fmap_owned f");
                // A function to another type.
                ensure_eq!(x.fmap(|a: &S| a.len()).view(), m.map(|a| a.len()), "fmap to another type");
                ensure_eq!(x.clone().fmap_owned(|a: S| (a.len(), a)).view(), m.map(|a| (a.len(), a.clone())), "fmap_owned to another type");
                ensure_eq!(x.replace(c).view(), m.map(|_| c.clone()), "replace");
                ensure_eq!(x.replace_owned(c.clone()).view(), m.map(|_| c.clone()), "replace_owned");
                ensure_eq!(x.void().view(), m.map(|_| ()), "void");
                ensure_eq!(x.clone().void_owned().view(), m.map(|_| ()), "void_owned");
                ensure_eq!(x.view(), *m, "the mapped container itself");
                Ok(())
            },
        );
    };
}

macro_rules! pure {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("pure/", $name),
            "any value and a non-identity function",
            4_000,
            || (val(), val(), fun(), fun2()),
            |(a, b, f, g), obs| {
                type C = $C<S>;
                obs.nontrivial(!f.is_id());
                let want = Md::ok(vec![a.clone()]);
                ensure_eq!(<C as Pure>::pure(a).view(), want, "pure");
                ensure_eq!(<C as Pure>::pure_owned(a.clone()).view(), want, "pure_owned");
                ensure_eq!(<C as Pure>::pure(&a.len()).view(), Md::ok(vec![a.len()]), "pure of another type");
                ensure_eq!(a.to_pure::<C>().view(), want, "to_pure");
                ensure_eq!(a.clone().to_pure_owned::<C>().view(), want, "to_pure_owned");
                ensure_eq!(a.pair_with::<C, S>(b).view(), Md::ok(vec![(a.clone(), b.clone())]), "pair_with");
                ensure_eq!(a.lift_other::<C, S>(b).view(), Md::ok(vec![b.clone()]), "lift_other");
                ensure_eq!(PureExt::combine_with::<C, S, S>(a, b, |x, y| g.ap(x, y)).view(), Md::ok(vec![g.ap(a, b)]), "combine_with");
                ensure_eq!(PureType::<C, S>::lift(a).view(), want, "PureType::lift");
                ensure_eq!(PureType::<C, S>::lift_owned(a.clone()).view(), want, "PureType::lift_owned");
                ensure_eq!(<C as Pure>::pure(a).fmap(|x: &S| f.ap(x)).view(), Md::ok(vec![f.ap(a)]), "fmap f . pure");
                Ok(())
            },
        );
    };
}

macro_rules! fallible {
    ($s:ident, $name:literal, $C:ident, $filter:expr) => {
        $s.check(
            concat!("fallible-mapping/", $name),
            "container holding a value for which the function fails",
            40_000,
            || (md(<$C<S> as Repr<S>>::KIND), pred(), fun(), fun(), val()),
            |(m, p, f, h, d), obs| {
                let x = <$C<S> as Repr<S>>::mk(m.clone());
                obs.nontrivial(m.values().iter().any(|a| !p.ok(a)));
                obs.tag_if(m.values().iter().any(|a| p.ok(a)), "some mapped");
                let k = |a: &S| if p.ok(a) { Ok(f.ap(a)) } else { Err(format!("E{a}")) };
                let got = x.try_map_or(d.clone(), k);
                ensure_eq!(got.view(), m.map(|a| k(a).unwrap_or_else(|_| d.clone())), "try_map_or");
                let got = x.try_map_or_else(|e: &S| h.ap(e), k);
                ensure_eq!(got.view(), m.map(|a| k(a).unwrap_or_else(|e| h.ap(&e))), "try_map_or_else");
                let got = FunctorExt::filter_map(&x, |a: &S| k(a).ok());
                let filter: fn(&Md<S>, &dyn Fn(&S) -> Option<S>) -> Md<S> = $filter;
                ensure_eq!(got.view(), filter(m, &|a| k(a).ok()), "filter_map");
                ensure_eq!(x.view(), *m, "the mapped container itself");
                Ok(())
            },
        );
    };
}

macro_rules! opt_wrapper {
    ($s:ident, $W:ident) => {
        $s.check(
            concat!("functor/", stringify!($W)),
            "wrapper holding a value, mapped by a non-identity function",
            8_000,
            || (prop::option::weighted(0.8, val()), fun(), fun(), val()),
            |(m, f, g, c), obs| {
                let x = $W(m.clone());
                obs.nontrivial(m.is_some() && !f.is_id());
                ensure_eq!(x.fmap(|a: &S| a.clone()).0, *m, "fmap id");
                ensure_eq!(x.clone().fmap_owned(|a: S| a).0, *m, "fmap_owned id");
                ensure_eq!(x.fmap(|a: &S| f.ap(a)).fmap(|a: &S| g.ap(a)).0, m.as_ref().map(|a| g.ap(&f.ap(a))), "fmap g . fmap f");
                ensure_eq!(x.fmap(|a: &S| g.ap(&f.ap(a))).0, m.as_ref().map(|a| g.ap(&f.ap(a))), "fmap (g . f)");
                ensure_eq!(x.clone().fmap_owned(|a: S| a.len()).0, m.as_ref().map(|a| a.len()), "fmap_owned");
                ensure_eq!(x.replace(c).0, m.as_ref().map(|_| c.clone()), "replace");
                ensure_eq!(x.replace_owned(c.clone()).0, m.as_ref().map(|_| c.clone()), "replace_owned");
                ensure_eq!(x.void().0, m.as_ref().map(|_| ()), "void");
                ensure_eq!(x.clone().void_owned().0, m.as_ref().map(|_| ()), "void_owned");
                ensure_eq!(x.0, *m, "the mapped wrapper itself");
                Ok(())
            },
        );
    };
}
macro_rules! one_wrapper {
    ($s:ident, $W:ident) => {
        $s.check(
            concat!("functor/", stringify!($W)),
            "mapped by a non-identity function",
            8_000,
            || (val(), fun(), fun(), val()),
            |(m, f, g, c), obs| {
                let x = $W(Cat(m.clone()));
                obs.nontrivial(!f.is_id());
                ensure_eq!(x.fmap(|a: &Cat| a.clone()).0 .0, *m, "fmap id");
                ensure_eq!(x.clone().fmap_owned(|a: Cat| a).0 .0, *m, "fmap_owned id");
                ensure_eq!(x.fmap(|a: &Cat| Cat(f.ap(&a.0))).fmap(|a: &Cat| Cat(g.ap(&a.0))).0 .0, g.ap(&f.ap(m)), "fmap g . fmap f");
                ensure_eq!(x.fmap(|a: &Cat| Cat(g.ap(&f.ap(&a.0)))).0 .0, g.ap(&f.ap(m)), "fmap (g . f)");
                ensure_eq!(x.clone().fmap_owned(|a: Cat| a.0.len()).0, m.len(), "fmap_owned");
                ensure_eq!(x.replace(c).0, *c, "replace");
                ensure_eq!(x.replace_owned(c.clone()).0, *c, "replace_owned");
                ensure_eq!(x.void().0, (), "void");
                ensure_eq!(x.clone().void_owned().0, (), "void_owned");
                ensure_eq!(x.0 .0, *m, "the mapped wrapper itself");
                Ok(())
            },
        );
    };
}

fn main() {
    let mut s = Suite::new("C05");
    s.assume("mapped functions are pure");
    functor!(s, "Option", COpt);
    functor!(s, "Result", CRes);
    functor!(s, "Maybe", CMay);
    functor!(s, "Either", CEi);
    functor!(s, "Validated", CVal);
    functor!(s, "Choice", CCh);
    functor!(s, "Vec", CVec);
    functor!(s, "Id", CId);
    functor!(s, "Writer", CWr);
    functor!(s, "PersistentVector", CPv);
    functor!(s, "a list of the user's", CUl);
    functor!(s, "a log of the user's", CUt);
    opt_wrapper!(s, First);
    opt_wrapper!(s, Last);
    one_wrapper!(s, Min);
    one_wrapper!(s, Max);
    one_wrapper!(s, Sum);
    one_wrapper!(s, Product);
    pure!(s, "Option", COpt);
    pure!(s, "Result", CRes);
    pure!(s, "Maybe", CMay);
    pure!(s, "Either", CEi);
    pure!(s, "Validated", CVal);
    pure!(s, "Choice", CCh);
    pure!(s, "Vec", CVec);
    pure!(s, "Id", CId);
    pure!(s, "Writer", CWr);
    pure!(s, "a list of the user's", CUl);
    pure!(s, "a log of the user's", CUt);
    s.check(
        "pure/Box",
        "any value",
        500,
        || val(),
        |a, obs| {
            obs.nontrivial(true);
            ensure_eq!(*<Box<S> as Pure>::pure(a), *a, "pure");
            ensure_eq!(*<Box<S> as Pure>::pure_owned(a.clone()), *a, "pure_owned");
            Ok(())
        },
    );
    fallible!(s, "a list of the user's", CUl, |m, k| Md::ok(m.values().iter().filter_map(|a| k(a)).collect()));
    fallible!(s, "Vec", CVec, |m, k| Md::ok(m.values().iter().filter_map(|a| k(a)).collect()));
    fallible!(s, "Option", COpt, |m, k| match m.values().first().and_then(|a| k(a)) {
        Some(b) => Md::ok(vec![b]),
        None => Md::err(vec![]),
    });
    fallible!(s, "Result", CRes, |m, k| match &m.out {
        Err(e) => Md::err(e.clone()),
        Ok(v) => match k(&v[0]) {
            Some(b) => Md::ok(vec![b]),
            None => Md::err(vec![S::default()]),
        },
    });
    s.main()
}
