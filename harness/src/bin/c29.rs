//! C29: utility functions.
#![allow(deprecated)]
use proptest::prelude::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::first::First;
use rustica::datatypes::wrapper::last::Last;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;
use rustica::utils::categorical_utils as cu;
use rustica::utils::error_utils as eu;
use rustica::utils::hkt_utils as hu;
use rustica::utils::transform_utils as tu;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use vharness::cont::*;
use vharness::ensure_eq;
use vharness::runner::*;
use vharness::sym::*;

/// One fallible result of a Kleisli function.
fn res(k: &Kl, x: &S) -> Result<S, S> {
    let (ok, mut v) = k.run(x);
    let y = v.pop().unwrap_or_else(|| format!("k{}({x})", k.salt));
    if ok { Ok(y) } else { Err(y) }
}

/// What was called with which argument.
#[derive(Clone, Default)]
struct Calls(Rc<RefCell<Vec<(usize, S)>>>);
impl Calls {
    fn call(&self, i: usize, x: &S) {
        self.0.borrow_mut().push((i, x.clone()));
    }
    fn take(&self) -> Vec<(usize, S)> {
        self.0.take()
    }
}

/// A step that mostly succeeds, so that pipelines get far.
fn step() -> BoxedStrategy<Kl> {
    prop_oneof![3 => fun().prop_map(|f| Kl { salt: 0, outs: vec![Out { ok: true, funs: vec![f] }] }), 1 => kl()].boxed()
}

/// A list keeping everything, to see the order of folding.
#[derive(Clone, Debug, PartialEq)]
struct Seen(Vec<S>);
impl From<S> for Seen {
    fn from(s: S) -> Seen {
        Seen(vec![s])
    }
}
impl Semigroup for Seen {
    fn combine(&self, o: &Seen) -> Seen {
        Seen(self.0.iter().chain(&o.0).cloned().collect())
    }
    fn combine_owned(self, o: Seen) -> Seen {
        self.combine(&o)
    }
}
impl Monoid for Seen {
    fn empty() -> Seen {
        Seen(vec![])
    }
}
/// What a text becomes when a pipeline starts.
#[derive(Clone, Debug, PartialEq)]
struct Text(S);
impl From<S> for Text {
    fn from(s: S) -> Text {
        Text(format!("<{s}>"))
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ks {
    O,
    R,
    E,
    V,
}

macro_rules! transform {
    ($s:ident, $($name:literal $C:ident),*) => {$(
        $s.check(
            concat!("transform-", $name),
            "some container holds a value and the function is not the identity",
            20_000,
            || (list(md(<$C<S> as Repr<S>>::KIND), 7, 40), fun(), fun()),
            |(ms, f, g), obs| {
                use rustica::traits::functor::Functor;
                type C = $C<S>;
                let xs: Vec<C> = ms.iter().cloned().map(C::mk).collect();
                obs.nontrivial(!f.is_id() && ms.iter().any(|m| !m.values().is_empty()));
                obs.tag_if(ms.len() > 1, "several containers");
                let all = tu::transform_all(&xs, |x: &S| f.ap(x));
                ensure_eq!(all.iter().map(|c| c.view()).collect::<Vec<_>>(), ms.iter().map(|m| m.map(|x| f.ap(x))).collect::<Vec<_>>(), "transform_all");
                let one = tu::transform_chain(xs.first().cloned(), |x: &S| f.ap(x));
                ensure_eq!(one.map(|c| c.view()), ms.first().map(|m| m.map(|x| f.ap(x))), "transform_chain");
                ensure_eq!(tu::transform_chain(None::<C>, |x: &S| f.ap(x)).is_some(), false, "transform_chain of nothing");
                for (x, m) in xs.iter().zip(ms) {
                    let p = tu::Pipeline::new(x.clone());
                    ensure_eq!(p.clone().extract().view(), *m, "pipeline of no step");
                    let mut p = p;
                    let mut want = m.clone();
                    for (i, h) in [f, g, f, g].into_iter().enumerate() {
                        p = if i % 2 == 0 { p.map(|x: &S| h.ap(x)) } else { p.map_owned(|x: S| h.ap(&x)) };
                        want = want.map(|x| h.ap(x));
                    }
                    ensure_eq!(p.clone().extract().view(), want, "pipeline");
                    let n = p.map(|x: &S| x.len()).map_owned(|n: usize| n + 1);
                    ensure_eq!(n.extract().view(), want.map(|x| x.len() + 1), "pipeline to another type");
                    ensure_eq!(x.fmap(|x: &S| f.ap(x)).view(), m.map(|x| f.ap(x)), "direct mapping");
                    ensure_eq!(x.view(), *m, "the container itself");
                }
                Ok(())
            },
        );
    )*};
}

fn main() {
    let mut s = Suite::new("C29");
    s.assume("functions given to the utilities are pure apart from recording their calls");
    s.check(
        "sequence",
        "the list has at least two items, the first of which succeeds",
        150_000,
        || (vals(20), step(), kl(), prop::sample::select(vec![Ks::O, Ks::R, Ks::E, Ks::V])),
        |(xs, k, k2, ty), obs| {
            // a mostly succeeding list: the second function applies to a few items only
            let one = |x: &S| if h(x, 99) % 6 == 0 { res(k2, x) } else { res(k, x) };
            let rs: Vec<Result<S, S>> = xs.iter().map(one).collect();
            obs.nontrivial(rs.len() > 1 && rs[0].is_ok());
            let stop = rs.iter().position(|r| r.is_err());
            obs.tag(if stop.is_some() { "stops at a failure" } else { "all succeed" });
            let want: Result<Vec<S>, S> = match stop {
                Some(i) => rs[i].clone().map(|_| vec![]),
                None => Ok(rs.iter().map(|r| r.clone().unwrap()).collect()),
            };
            ensure_eq!(eu::sequence(rs.clone()), want, "sequence");
            ensure_eq!(cu::sequence_results(rs.clone()), want, "sequence_results");
            ensure_eq!(cu::sequence_options(rs.iter().cloned().map(|r| r.ok()).collect()), want.clone().ok(), "sequence_options");
            let calls = Calls::default();
            let mut n = 0;
            let got = eu::traverse(xs.clone(), |x: S| {
                calls.call(n, &x);
                n += 1;
                one(&x)
            });
            ensure_eq!(got, want, "traverse");
            let reach = stop.map_or(xs.len(), |i| i + 1);
            let visited: Vec<(usize, S)> = xs.iter().cloned().enumerate().collect();
            ensure_eq!(calls.take(), visited[..reach].to_vec(), "items visited by traverse");
            let got = eu::traverse_validated(xs.iter(), |x: &S| {
                calls.call(0, x);
                one(x)
            });
            let errs: Vec<S> = rs.iter().filter_map(|r| r.clone().err()).collect();
            ensure_eq!(got.errors(), errs, "errors of traverse_validated");
            ensure_eq!(got.to_option(), want.clone().ok(), "values of traverse_validated");
            ensure_eq!(calls.take().len(), xs.len(), "items visited by traverse_validated");
            let got: Result<Vec<S>, S> = match ty {
                Ks::R => eu::sequence_with_error(rs.clone()),
                Ks::E => eu::sequence_with_error(rs.iter().cloned().map(rustica::error::result_to_either).collect::<Vec<Either<S, S>>>()),
                Ks::V => eu::sequence_with_error(rs.iter().cloned().map(rustica::error::result_to_validated).collect::<Vec<Validated<S, S>>>()),
                Ks::O => {
                    let ms: Vec<Maybe<S>> = rs.iter().cloned().map(Maybe::from).collect();
                    let r: Result<Vec<S>, rustica::datatypes::maybe::MaybeError> = eu::sequence_with_error(ms);
                    ensure_eq!(r.clone().err().map(|e| e.to_string()), want.clone().err().map(|_| "Attempted to access a value in a Nothing".to_string()), "missing value");
                    r.map_err(|_| want.clone().unwrap_err())
                }
            };
            ensure_eq!(got, want, "sequence_with_error of {ty:?}");
            let got: Result<Vec<Text>, S> = eu::sequence_with_error(rs.clone());
            ensure_eq!(got, want.clone().map(|v| v.into_iter().map(Text::from).collect::<Vec<_>>()), "sequence_with_error to another type");
            Ok(())
        },
    );
    s.check(
        "pipelines",
        "at least two steps run",
        150_000,
        || (val(), list(step().boxed(), 9, 40)),
        |(x, ks), obs| {
            let mut want: Result<S, S> = Ok(format!("<{x}>"));
            let mut ran = vec![];
            for (i, k) in ks.iter().enumerate() {
                if let Ok(y) = &want {
                    ran.push((i, y.clone()));
                    want = res(k, y);
                }
            }
            obs.nontrivial(ran.len() > 1);
            obs.tag_if(want.is_err() && ran.len() < ks.len(), "steps after a failure");
            obs.tag_if(ks.is_empty(), "no step");
            let calls = Calls::default();
            let ops = || -> Vec<Box<dyn Fn(Text) -> Result<Text, S>>> {
                ks.iter()
                    .enumerate()
                    .map(|(i, k)| {
                        let (k, calls) = (k.clone(), calls.clone());
                        Box::new(move |Text(y): Text| {
                            calls.call(i, &y);
                            res(&k, &y).map(Text)
                        }) as Box<dyn Fn(Text) -> Result<Text, S>>
                    })
                    .collect()
            };
            let tw = want.clone().map(Text);
            ensure_eq!(hu::pipeline_result(x.clone(), ops()), tw, "pipeline_result");
            ensure_eq!(calls.take(), ran, "steps of pipeline_result");
            ensure_eq!(hu::try_pipeline(x.clone(), ops()), tw, "try_pipeline");
            ensure_eq!(calls.take(), ran, "steps of try_pipeline");
            let opts: Vec<Box<dyn Fn(Text) -> Option<Text>>> = ops().into_iter().map(|f| Box::new(move |x| f(x).ok()) as Box<dyn Fn(Text) -> Option<Text>>).collect();
            ensure_eq!(hu::pipeline_option(x.clone(), opts), tw.clone().ok(), "pipeline_option");
            ensure_eq!(calls.take(), ran, "steps of pipeline_option");
            Ok(())
        },
    );
    s.check(
        "functions",
        "the functions differ",
        80_000,
        || (val(), val(), list(fun(), 8, 40), fun2(), fun(), fun()),
        |(x, y, fs, h2, f, g), obs| {
            obs.nontrivial(f != g && fs.len() > 1);
            let boxed: Vec<Box<dyn Fn(S) -> S>> = fs
                .iter()
                .map(|f| {
                    let f = f.clone();
                    Box::new(move |x: S| f.ap(&x)) as Box<dyn Fn(S) -> S>
                })
                .collect();
            let want = fs.iter().fold(x.clone(), |a, f| f.ap(&a));
            ensure_eq!(hu::fan_out(x.clone(), fs.iter().map(|f| move |a: S| f.ap(&a)).collect()), fs.iter().map(|f| f.ap(x)).collect::<Vec<_>>(), "fan_out");
            let all: Box<dyn Fn(S) -> Text> = hu::compose_all(boxed);
            ensure_eq!(all(x.clone()), Text::from(want.clone()), "compose_all");
            ensure_eq!(all(x.clone()), Text::from(want), "compose_all again");
            let (cf, cg) = (|a: S| f.ap(&a), |a: S| g.ap(&a));
            ensure_eq!(cu::compose(cg, cf)(x.clone()), g.ap(&f.ap(x)), "compose");
            ensure_eq!(cu::pipe(cf, cg)(x.clone()), g.ap(&f.ap(x)), "pipe");
            ensure_eq!(cu::compose(|a: S| a.len(), cf)(x.clone()), f.ap(x).len(), "compose to another type");
            ensure_eq!(cu::flip(|a: S, b: S| h2.ap(&a, &b))(x.clone(), y.clone()), h2.ap(y, x), "flip");
            ensure_eq!(cu::flip(cu::flip(|a: S, b: S| h2.ap(&a, &b)))(x.clone(), y.clone()), h2.ap(x, y), "flip twice");
            ensure_eq!(rustica::utils::functions::id(x.clone()), *x, "id");
            let k = rustica::utils::functions::const_fn::<S, S>(x.clone());
            ensure_eq!(k(y.clone()), *x, "const_fn");
            ensure_eq!(k(x.clone()), *x, "const_fn again");
            for o in [Some(x.clone()), None] {
                ensure_eq!(cu::map_option(o.clone(), cf), o.as_ref().map(|a| f.ap(a)), "map_option");
                ensure_eq!(hu::lift_option(cf)(o.clone()), o.as_ref().map(|a| f.ap(a)), "lift_option");
                let next = |a: S| (h(&a, 3) & 1 == 0).then(|| g.ap(&a));
                ensure_eq!(cu::flat_map_option(o.clone(), next), o.clone().and_then(next), "flat_map_option");
            }
            for r in [Ok(x.clone()), Err(y.clone())] {
                let r: Result<S, S> = r;
                ensure_eq!(cu::map_result(r.clone(), cf), r.as_ref().map(|a| f.ap(a)).map_err(|e| e.clone()), "map_result");
                ensure_eq!(hu::map_result(r.clone(), cf), r.as_ref().map(|a| f.ap(a)).map_err(|e| e.clone()), "hkt map_result");
                ensure_eq!(cu::bimap_result(r.clone(), cf, cg), r.as_ref().map(|a| f.ap(a)).map_err(|e| g.ap(e)), "bimap_result");
                let next = |a: S| if h(&a, 3) & 1 == 0 { Ok(g.ap(&a)) } else { Err(f.ap(&a)) };
                ensure_eq!(cu::flat_map_result(r.clone(), next), r.clone().and_then(next), "flat_map_result");
            }
            Ok(())
        },
    );
    s.check(
        "lists",
        "at least two items",
        100_000,
        || (vals(40), vals(40), pred(), fun(), fun2()),
        |(xs, ys, p, f, h2), obs| {
            obs.nontrivial(xs.len() > 1);
            let calls = Calls::default();
            let want: Vec<S> = xs.iter().filter(|x| p.ok(x)).map(|x| f.ap(x)).collect();
            obs.tag_if(!want.is_empty() && want.len() < xs.len(), "some items kept");
            let got = hu::filter_map(
                xs.clone(),
                |x: &S| {
                    calls.call(0, x);
                    p.ok(x)
                },
                |x: S| {
                    calls.call(1, &x);
                    f.ap(&x)
                },
            );
            ensure_eq!(got, want, "filter_map");
            let order: Vec<(usize, S)> = xs.iter().flat_map(|x| if p.ok(x) { vec![(0, x.clone()), (1, x.clone())] } else { vec![(0, x.clone())] }).collect();
            ensure_eq!(calls.take(), order, "calls of filter_map");
            let got = cu::filter_map_collect(xs.clone(), |x: S| {
                calls.call(0, &x);
                p.ok(&x).then(|| f.ap(&x))
            });
            ensure_eq!(got, want, "filter_map_collect");
            ensure_eq!(calls.take().len(), xs.len(), "calls of filter_map_collect");
            // iterators of unknown length
            let mut it = xs.clone().into_iter();
            ensure_eq!(hu::filter_map(std::iter::from_fn(|| it.next()), |x: &S| p.ok(x), |x: S| f.ap(&x)), want, "filter_map of an unsized iterator");
            let mut it = xs.clone().into_iter();
            ensure_eq!(cu::filter_map_collect(std::iter::from_fn(|| it.next()), |x: S| p.ok(&x).then(|| f.ap(&x))), want, "filter_map_collect of an unsized iterator");
            ensure_eq!(hu::filter_map(tu::Pipeline::new(xs.clone()), |x: &S| p.ok(x), |x: S| f.ap(&x)), want, "items of a pipeline");
            let n = xs.len().min(ys.len());
            let zip: Vec<S> = (0..n).map(|i| h2.ap(&xs[i], &ys[i])).collect();
            let got = hu::zip_with(xs.clone(), ys.clone(), |a: S, b: S| {
                calls.call(0, &a);
                h2.ap(&a, &b)
            });
            ensure_eq!(got, zip, "zip_with");
            ensure_eq!(calls.take().len(), n, "calls of zip_with");
            ensure_eq!(hu::zip_with(xs.clone(), (0..ys.len()).collect(), |a: S, b: usize| (a, b)), xs.iter().cloned().zip(0..ys.len()).collect::<Vec<_>>(), "zip_with of other types");
            // folding
            ensure_eq!(cu::fold_with::<_, S, Seen>(xs.clone()), Seen(xs.clone()), "fold_with");
            ensure_eq!(cu::fold_with::<_, S, S>(xs.clone()), xs.concat(), "fold_with of texts");
            ensure_eq!(cu::fold_with::<_, Vec<S>, Vec<S>>(vec![xs.clone(), ys.clone()]), [xs.clone(), ys.clone()].concat(), "fold_with of lists");
            Ok(())
        },
    );
    transform!(s, "option" COpt, "result" CRes, "maybe" CMay, "either" CEi, "validated" CVal, "choice" CCh, "vec" CVec, "id" CId, "writer" CWr);
    let _ = (First(Some(0u8)), Last(Some(0u8)), Choice::<u8>::new_empty());
    s.main()
}
