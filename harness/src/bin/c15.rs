//! C15: prisms and iso-prisms.
use proptest::prelude::*;
use rustica::datatypes::iso_prism::IsoPrism;
use rustica::datatypes::prism::Prism;
use rustica::traits::iso::Iso;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vharness::optic::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum J {
    Null,
    Str(S),
    Num(i64),
    Arr(Vec<J>),
    Obj(BTreeMap<S, J>),
    Pair(S, S),
    Box(Box<J>),
}
fn json() -> BoxedStrategy<J> {
    let leaf = prop_oneof![
        1 => Just(J::Null),
        4 => word().prop_map(J::Str),
        2 => int().prop_map(J::Num),
        2 => (word(), word()).prop_map(|(a, b)| J::Pair(a, b)),
    ];
    leaf.prop_recursive(4, 16, 4, |j| {
        prop_oneof![
            2 => prop::collection::vec(j.clone(), 0..4).prop_map(J::Arr),
            1 => prop::collection::btree_map(word(), j.clone(), 0..3).prop_map(J::Obj),
            4 => j.prop_map(|j| J::Box(Box::new(j))),
        ]
    })
    .boxed()
}
type Pf<A> = Box<dyn Fn(&J) -> Option<A>>;
type Rf<A> = Box<dyn Fn(&A) -> J>;

/// All laws of a prism, against the plain pair of functions it was made from.
fn laws<A: Clone + PartialEq + std::fmt::Debug + 'static>(
    prev: impl Fn(&J) -> Option<A> + Clone + 'static,
    rev: impl Fn(&A) -> J + Clone + 'static,
    s: &J,
    v: &A,
    f: impl Fn(A) -> A,
    obs: &mut Obs,
) -> Res {
    let cur = prev(s);
    let prisms: Vec<Prism<J, A, Pf<A>, Rf<A>>> = vec![
        Prism::new(Box::new(prev.clone()) as Pf<A>, Box::new(rev.clone()) as Rf<A>),
        Prism::for_case::<(), ()>(Box::new(prev.clone()) as Pf<A>, Box::new(rev.clone()) as Rf<A>),
    ];
    obs.tag_if(cur.is_some(), "matches");
    for p in prisms {
        ensure_eq!(p.preview(s), cur, "preview");
        ensure_eq!(p.review(v), rev(v), "review");
        ensure_eq!(p.preview(&p.review(v)), Some(v.clone()), "preview of a review");
        if let Some(c) = &cur {
            ensure_eq!(p.review(c), s.clone(), "review of a preview");
        }
        let calls = RefCell::new(vec![]);
        let g = |a: A| {
            calls.borrow_mut().push(a.clone());
            f(a)
        };
        let want = cur.clone().map(|c| rev(&f(c))).unwrap_or_else(|| s.clone());
        ensure_eq!(p.modify(s.clone(), g), want, "modify");
        ensure_eq!(calls.take(), cur.iter().cloned().collect::<Vec<_>>(), "arguments of the function given to modify");
        ensure_eq!(p.modify(s.clone(), |a| a), s.clone(), "modify by the identity");
        ensure_eq!(p.modify(p.modify(s.clone(), &f), &f), p.modify(s.clone(), |a| f(f(a))), "modify twice");
        // conditional setting: the new value, whether or not the source matches
        let set = p.set_if_different(s.clone(), v.clone());
        ensure_eq!(set, rev(v), "set_if_different");
        ensure_eq!(p.preview(&set), Some(v.clone()), "preview after set_if_different");
        ensure_eq!(p.set_if_different(set.clone(), v.clone()), set, "set_if_different again");
        if let Some(c) = &cur {
            ensure_eq!(p.set_if_different(s.clone(), c.clone()), s.clone(), "set_if_different to the value there");
        }
    }
    Ok(())
}

fn iso_laws<L>(p: &IsoPrism<J, S, L>, prev: &dyn Fn(&J) -> Option<S>, rev: &dyn Fn(&S) -> J, s: &J, v: &S) -> Res
where
    L: Iso<J, Option<S>, From = J, To = Option<S>>,
{
    let cur = prev(s);
    ensure_eq!(p.preview(s), cur, "preview");
    ensure_eq!(p.review(v), rev(v), "review");
    ensure_eq!(p.preview(&p.review(v)), Some(v.clone()), "preview of a review");
    if let Some(c) = &cur {
        ensure_eq!(p.review(c), s.clone(), "review of a preview");
    }
    Ok(())
}

fn main() {
    let mut s = Suite::new("C15");
    s.assume("prisms and isomorphisms are built from lawful case pairs");
    s.check(
        "cases",
        "the source matches at least one of the prisms and a function changes its value",
        30_000,
        || (json(), word(), word(), int(), json(), fun(), inv()),
        |(x, v, w, n, j, f, i), obs| {
            let fb = |b: S| f.ap(&b);
            obs.nontrivial(!matches!(x, J::Null | J::Obj(_)));
            let (a, b) = (i.clone(), i.clone());
            laws(move |s: &J| if let J::Str(t) = s { Some(a.fwd(t)) } else { None }, move |t: &S| J::Str(b.bwd(t)), x, v, fb, obs)?;
            laws(|s: &J| if let J::Num(t) = s { Some(*t) } else { None }, |t: &i64| J::Num(*t), x, n, |t| t.wrapping_add(f.ap(v).len() as i64), obs)?;
            laws(|s: &J| if let J::Pair(t, u) = s { Some((u.clone(), t.clone())) } else { None }, |(u, t): &(S, S)| J::Pair(t.clone(), u.clone()), x, &(v.clone(), w.clone()), |(t, u)| (f.ap(&t), u), obs)?;
            laws(|s: &J| if let J::Arr(t) = s { Some(t.clone()) } else { None }, |t: &Vec<J>| J::Arr(t.clone()), x, &vec![j.clone(), x.clone()], |mut t| {
                t.push(J::Str(f.ap(v)));
                t.reverse();
                t
            }, obs)?;
            laws(|s: &J| if let J::Box(t) = s { Some((**t).clone()) } else { None }, |t: &J| J::Box(Box::new(t.clone())), x, j, |t| J::Arr(vec![t, J::Str(f.ap(v))]), obs)?;
            laws(|s: &J| if let J::Null = s { Some(()) } else { None }, |_: &()| J::Null, x, &(), |_| (), obs)?;
            laws(|s: &J| Some(s.clone()), |t: &J| t.clone(), x, j, |t| J::Box(Box::new(t)), obs)?;
            // a case of a case, assembled from the library's own prisms
            let outer = Rc::new(Prism::new(|s: &J| if let J::Box(t) = s { Some((**t).clone()) } else { None }, |t: &J| J::Box(Box::new(t.clone()))));
            let inner = Rc::new(Prism::new(|s: &J| if let J::Str(t) = s { Some(t.clone()) } else { None }, |t: &S| J::Str(t.clone())));
            let (o1, o2, i1, i2) = (outer.clone(), outer.clone(), inner.clone(), inner.clone());
            laws(move |s: &J| o1.preview(s).and_then(|t| i1.preview(&t)), move |t: &S| o2.review(&i2.review(t)), x, v, fb, obs)?;
            let want = match x {
                J::Box(t) => match &**t {
                    J::Str(t) => J::Box(Box::new(J::Str(f.ap(t)))),
                    _ => x.clone(),
                },
                _ => x.clone(),
            };
            ensure_eq!(outer.modify(x.clone(), |t| inner.modify(t, fb)), want, "nested modify");
            Ok(())
        },
    );
    s.check(
        "sharing",
        "the source matches",
        8_000,
        || (prop::bool::weighted(0.7), word(), prop::bool::ANY),
        |(m, v, same), obs| {
            obs.nontrivial(*m);
            // `Rc` identity shows whether an unchanged source comes back as it was.
            #[derive(Clone)]
            enum T {
                A(Rc<S>),
                B(Rc<S>),
            }
            let p = Prism::new(|s: &T| if let T::A(t) = s { Some((**t).clone()) } else { None }, |t: &S| T::A(Rc::new(t.clone())));
            let cell = Rc::new(v.clone());
            let src = || if *m { T::A(cell.clone()) } else { T::B(cell.clone()) };
            let r = p.modify(src(), |x| if *same { x } else { format!("{x}!") });
            match (&r, m) {
                (T::A(t), true) if *same => ensure!(Rc::ptr_eq(t, &cell), "an unchanged source was rebuilt"),
                (T::A(t), true) => ensure_eq!(**t, format!("{v}!"), "modify"),
                (T::B(t), false) => ensure!(Rc::ptr_eq(t, &cell), "a non-matching source was rebuilt"),
                _ => ensure!(false, "modify changed the case"),
            }
            let r = p.set_if_different(src(), if *same { v.clone() } else { format!("{v}!") });
            match &r {
                T::A(t) if *m && *same => ensure!(Rc::ptr_eq(t, &cell), "an equal value was set again"),
                T::A(t) => ensure_eq!(**t, if *same { v.clone() } else { format!("{v}!") }, "set_if_different"),
                T::B(_) => ensure!(false, "set_if_different lost the value"),
            }
            Ok(())
        },
    );
    s.check(
        "iso-prism",
        "the source matches the composed prism",
        40_000,
        || (json(), word(), inv(), inv()),
        |(x, v, i, j), obs| {
            let st = |i: &Inv| {
                let (a, b) = (i.clone(), i.clone());
                FnIso::<J, Option<S>>::new(
                    move |s| if let J::Str(t) = s { Some(a.fwd(t)) } else { None },
                    move |t| t.as_ref().map(|t| J::Str(b.bwd(t))).unwrap_or(J::Null),
                )
            };
            let bx = || {
                IsoPrism::new(FnIso::<J, Option<J>>::new(
                    |s| if let J::Box(t) = s { Some((**t).clone()) } else { None },
                    |t| t.as_ref().map(|t| J::Box(Box::new(t.clone()))).unwrap_or(J::Null),
                ))
            };
            let conv = |i: &Inv| {
                let (a, b) = (i.clone(), i.clone());
                // matches everything except one value
                IsoPrism::new(FnIso::<S, Option<S>>::new(move |s| if s == "a" { None } else { Some(a.fwd(s)) }, move |t| t.as_ref().map(|t| b.bwd(t)).unwrap_or("a".into())))
            };
            let pv = |s: &J| if let J::Str(t) = s { Some(i.fwd(t)) } else { None };
            let rv = |t: &S| J::Str(i.bwd(t));
            iso_laws(&IsoPrism::new(st(i)), &pv, &rv, x, v)?;
            // composition: match exactly when all parts match
            let unbox = |s: &J| if let J::Box(t) = s { Some((**t).clone()) } else { None };
            let pv2 = |s: &J| unbox(s).and_then(|t| pv(&t));
            let rv2 = |t: &S| J::Box(Box::new(rv(t)));
            obs.nontrivial(pv2(x).is_some());
            obs.tag_if(unbox(x).is_some() && pv2(x).is_none(), "only the outer one matches");
            iso_laws(&bx().compose(IsoPrism::new(st(i))), &pv2, &rv2, x, v)?;
            let pv3 = |s: &J| unbox(s).and_then(|t| pv2(&t));
            let rv3 = |t: &S| J::Box(Box::new(rv2(t)));
            obs.tag_if(pv3(x).is_some(), "all three match");
            iso_laws(&bx().compose(bx()).compose(IsoPrism::new(st(i))), &pv3, &rv3, x, v)?;
            iso_laws(&bx().compose(bx().compose(IsoPrism::new(st(i)))), &pv3, &rv3, x, v)?;
            // a conversion at the end, which itself does not always match
            if j.bwd(v) != "a" {
                let pv4 = |s: &J| pv2(s).filter(|t| t != "a").map(|t| j.fwd(&t));
                let rv4 = |t: &S| rv2(&j.bwd(t));
                obs.tag_if(pv4(x).is_none() && pv2(x).is_some(), "only the last does not match");
                iso_laws(&bx().compose(IsoPrism::new(st(i))).compose(conv(j)), &pv4, &rv4, x, v)?;
                iso_laws(&bx().compose(IsoPrism::new(st(i)).compose(conv(j))), &pv4, &rv4, x, v)?;
            }
            Ok(())
        },
    );
    s.main();
}
