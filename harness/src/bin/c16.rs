//! C16: isomorphisms.
use proptest::prelude::*;
use rustica::datatypes::either::Either;
use rustica::datatypes::validated::Validated;
use rustica::traits::iso::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use vharness::ensure_eq;
use vharness::optic::*;
use vharness::runner::*;
use vharness::sym::*;

/// An expression over isomorphisms of strings.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum E {
    Leaf(Inv),
    Comp(Box<E>, Box<E>),
    Inverse(Box<E>),
}
fn expr(leaf: BoxedStrategy<Inv>) -> BoxedStrategy<E> {
    leaf.prop_map(E::Leaf)
        .prop_recursive(5, 16, 2, |e| {
            prop_oneof![
                3 => (e.clone(), e.clone()).prop_map(|(a, b)| E::Comp(Box::new(a), Box::new(b))),
                1 => e.prop_map(|a| E::Inverse(Box::new(a))),
            ]
        })
        .boxed()
}
type Trace = Rc<RefCell<Vec<(bool, S)>>>;
impl E {
    /// The library's isomorphism; every elementary step reports its direction and argument.
    fn build(&self, t: &Trace) -> FnIso<S, S> {
        match self {
            E::Leaf(i) => {
                let (a, b, t, u) = (i.clone(), i.clone(), t.clone(), t.clone());
                FnIso::new(
                    move |x: &S| {
                        t.borrow_mut().push((true, x.clone()));
                        a.fwd(x)
                    },
                    move |x: &S| {
                        u.borrow_mut().push((false, x.clone()));
                        b.bwd(x)
                    },
                )
            }
            E::Comp(a, b) => erase(a.build(t).iso_compose(b.build(t))),
            E::Inverse(a) => erase(a.build(t).inverse()),
        }
    }
    /// Elementary steps, in the order they apply to a value (true: forward).
    fn steps<'a>(&'a self, fwd: bool, out: &mut Vec<(&'a Inv, bool)>) {
        match self {
            E::Leaf(i) => out.push((i, fwd)),
            E::Comp(a, b) if fwd => {
                a.steps(fwd, out);
                b.steps(fwd, out)
            }
            E::Comp(a, b) => {
                b.steps(fwd, out);
                a.steps(fwd, out)
            }
            E::Inverse(a) => a.steps(!fwd, out),
        }
    }
    fn run(&self, fwd: bool, x: &S, tr: &mut Vec<(bool, S)>) -> S {
        let mut v = vec![];
        self.steps(fwd, &mut v);
        v.into_iter().fold(x.clone(), |x, (i, d)| {
            tr.push((d, x.clone()));
            if d {
                i.fwd(&x)
            } else {
                i.bwd(&x)
            }
        })
    }
}

fn built_in<A, B, I>(iso: &I, a: &A, b: &B, want_b: &B, want_a: &A) -> Res
where
    A: Clone + PartialEq + std::fmt::Debug,
    B: Clone + PartialEq + std::fmt::Debug,
    I: Iso<A, B, From = A, To = B>,
{
    ensure_eq!(iso.forward(a), want_b.clone(), "forward");
    ensure_eq!(iso.backward(b), want_a.clone(), "backward");
    ensure_eq!(iso.backward(&iso.forward(a)), a.clone(), "forward and back");
    ensure_eq!(iso.forward(&iso.backward(b)), b.clone(), "back and forward");
    ensure_eq!(iso.verify_laws(a, b), true, "verify_laws");
    ensure_eq!(iso.convert_forward(a), want_b.clone(), "convert_forward");
    ensure_eq!(iso.convert_backward(b), want_a.clone(), "convert_backward");
    ensure_eq!(iso.modify(a, |x| x), a.clone(), "modify by the identity");
    ensure_eq!(iso.modify(a, |_| b.clone()), want_a.clone(), "modify by a constant");
    Ok(())
}

fn main() {
    let mut s = Suite::new("C16");
    s.assume("ResultValidatedIso is checked on validations with one error, the documented range of the isomorphism");
    s.check(
        "compositions",
        "the expression has at least two elementary steps and changes the value",
        50_000,
        || (expr(inv()), word(), word(), fun()),
        |(e, x, y, f), obs| {
            let t: Trace = Default::default();
            let iso = e.build(&t);
            let (mut tf, mut tb) = (vec![], vec![]);
            let fx = e.run(true, x, &mut tf);
            let by = e.run(false, y, &mut tb);
            obs.nontrivial(tf.len() > 1 && fx != *x);
            obs.tag_if(tf.iter().any(|d| !d.0) && tf.iter().any(|d| d.0), "steps in both directions");
            obs.tag_if(tf.len() > 4, "more than four steps");
            ensure_eq!(iso.forward(x), fx, "forward");
            ensure_eq!(t.take(), tf, "elementary steps, forward");
            ensure_eq!(iso.backward(y), by, "backward");
            ensure_eq!(t.take(), tb, "elementary steps, backward");
            ensure_eq!(iso.backward(&iso.forward(x)), x.clone(), "forward and back");
            ensure_eq!(iso.forward(&iso.backward(y)), y.clone(), "back and forward");
            ensure_eq!(iso.convert_forward(x), fx, "convert_forward");
            ensure_eq!(iso.convert_backward(y), by, "convert_backward");
            ensure_eq!(iso.map_from_target(|v: &S| f.ap(v))(x), f.ap(&fx), "map_from_target");
            ensure_eq!(iso.map_from_source(|v: &S| f.ap(v))(y), f.ap(&by), "map_from_source");
            let mut ignore = vec![];
            ensure_eq!(iso.modify(x, |v: S| f.ap(&v)), e.run(false, &f.ap(&fx), &mut ignore), "modify");
            ensure_eq!(iso.verify_laws(x, y), true, "verify_laws");
            // inversion swaps the directions, twice is none
            let inv = iso.inverse();
            ensure_eq!(inv.forward(y), by, "inverse forward");
            ensure_eq!(inv.backward(x), fx, "inverse backward");
            ensure_eq!(inv.verify_laws(y, x), true, "verify_laws of the inverse");
            let twice = erase(inv).inverse();
            ensure_eq!(twice.forward(x), fx, "inverse of the inverse");
            let there = erase(iso.iso_compose(erase(iso.inverse())));
            ensure_eq!(there.forward(x), x.clone(), "composition with the inverse");
            ensure_eq!(there.backward(x), x.clone(), "composition with the inverse, back");
            Ok(())
        },
    );
    s.check(
        "law-checker",
        "one of the round trips fails",
        40_000,
        || (expr(prop_oneof![2 => inv(), 1 => bad_inv()].boxed()), word(), word(), prop::bool::ANY),
        |(e, x, y, fixed), obs| {
            let t: Trace = Default::default();
            let iso = e.build(&t);
            let mut ig = vec![];
            // half of the time, start from values of the image, where the laws may well hold
            let x = if *fixed { e.run(false, y, &mut ig) } else { x.clone() };
            let there = e.run(false, &e.run(true, &x, &mut ig), &mut ig) == x;
            let back = e.run(true, &e.run(false, y, &mut ig), &mut ig) == *y;
            obs.nontrivial(!there || !back);
            obs.tag_if(!there && back, "only forward and back fails");
            obs.tag_if(there && !back, "only back and forward fails");
            ensure_eq!(iso.verify_laws(&x, y), there && back, "verify_laws (forward and back {there}, back and forward {back})");
            ensure_eq!(erase(iso.inverse()).verify_laws(y, &x), there && back, "verify_laws of the inverse");
            Ok(())
        },
    );
    s.check(
        "built-in",
        "the values are on different sides",
        40_000,
        || (prop::result::maybe_err(word(), word()), prop::result::maybe_err(word(), word()), inv(), fun()),
        |(a, b, i, f), obs| {
            type R = Result<S, S>;
            obs.nontrivial(a.is_ok() != b.is_ok());
            let ei = |r: &R| match r {
                Ok(v) => Either::Right(v.clone()),
                Err(e) => Either::Left(e.clone()),
            };
            let va = |r: &R| match r {
                Ok(v) => Validated::Valid(v.clone()),
                Err(e) => Validated::Invalid(smallvec::smallvec![e.clone()]),
            };
            built_in::<R, Either<S, S>, _>(&ResultEitherIso, a, &ei(b), &ei(a), b)?;
            built_in::<R, Validated<S, S>, _>(&ResultValidatedIso, a, &va(b), &va(a), b)?;
            // either and validated, through result, with a conversion in the middle
            let (p, q) = (i.clone(), i.clone());
            let both = |g: &dyn Fn(&S) -> S, r: &R| r.as_ref().map(|v| g(v)).map_err(|v| g(v));
            let mid = FnIso::<R, R>::new(move |r| r.as_ref().map(|v| p.fwd(v)).map_err(|v| p.fwd(v)), move |r| r.as_ref().map(|v| q.bwd(v)).map_err(|v| q.bwd(v)));
            let to_val = erase(mid.iso_compose::<Validated<S, S>, _>(ResultValidatedIso));
            let from_ei = erase(erase::<R, Either<S, S>, _>(ResultEitherIso).inverse());
            let all = erase(from_ei.iso_compose(to_val));
            let fwd = |r: &R| both(&|v| i.fwd(v), r);
            let bwd = |r: &R| both(&|v| i.bwd(v), r);
            built_in::<Either<S, S>, Validated<S, S>, _>(&all, &ei(a), &va(b), &va(&fwd(a)), &ei(&bwd(b)))?;
            built_in::<Validated<S, S>, Either<S, S>, _>(&all.inverse(), &va(b), &ei(a), &ei(&bwd(b)), &va(&fwd(a)))?;
            ensure_eq!(
                all.modify(&ei(a), |v| v.fmap_valid_for_test(f)),
                ei(&bwd(&fwd(a).map(|v| f.ap(&v)))),
                "modify"
            );
            Ok(())
        },
    );
    s.main();
}
trait Helper {
    fn fmap_valid_for_test(self, f: &Fun) -> Self;
}
impl Helper for Validated<S, S> {
    fn fmap_valid_for_test(self, f: &Fun) -> Self {
        match self {
            Validated::Valid(v) => Validated::Valid(f.ap(&v)),
            o => o,
        }
    }
}
