//! C36: the caller's functions are called once per value they apply to, in order, and not for
//! values that are absent.
#![allow(deprecated)]
use proptest::collection::vec;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::error::{ErrorOps, ErrorPipeline};
use rustica::pvec::PersistentVector;
use rustica::traits::applicative::Applicative;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::functor::{Functor, FunctorExt};
use rustica::traits::hkt::BinaryHKT;
use rustica::traits::monad::Monad;
use rustica::traits::pure::PureExt;
use rustica::traits::monad_error::{ErrorMapper, MonadError};
use rustica::utils::categorical_utils as cu;
use rustica::utils::error_utils::{self as eu, ResultExt, WithError};
use rustica::utils::hkt_utils as hu;
use rustica::utils::transform_utils as tu;
use rustica::utils::transform_utils::Pipeline;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use vharness::cont::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::user::*;
use vharness::{ensure, ensure_eq};

/// The calls made so far.
#[derive(Default)]
struct Tape(RefCell<Vec<S>>);
impl Tape {
    fn on(&self, what: impl std::fmt::Display) {
        self.0.borrow_mut().push(what.to_string());
    }
    fn take(&self) -> Vec<S> {
        self.0.take()
    }
}
fn strs<T: std::fmt::Display>(v: impl IntoIterator<Item = T>) -> Vec<S> {
    v.into_iter().map(|x| x.to_string()).collect()
}
/// `calls!(tape, expected calls, "operation": expression)` runs the expression and compares.
macro_rules! calls {
    ($t:ident, $want:expr, $name:literal, $e:expr) => {{
        let _ = $e;
        ensure_eq!($t.take(), $want, "calls made by {}", $name);
    }};
}

macro_rules! functor {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("map/", $name),
            "the container holds a value",
            15_000,
            || (md(<$C<S> as Repr<S>>::KIND), fun()),
            |(m, f), obs| {
                let x = <$C<S> as Repr<S>>::mk(m.clone());
                obs.nontrivial(!m.values().is_empty());
                obs.tag_if(m.values().len() > 1, "many values");
                obs.tag_if(!m.is_ok(), "failure");
                let t = &Tape::default();
                let want = strs(m.values());
                calls!(t, want, "fmap", x.fmap(|a: &S| {
                    t.on(a);
                    f.ap(a)
                }));
                calls!(t, want, "fmap_owned", x.clone().fmap_owned(|a: S| {
                    t.on(&a);
                    f.ap(&a)
                }));
                calls!(t, want, "Pipeline::map", Pipeline::new(x.clone()).map(|a: &S| {
                    t.on(a);
                    f.ap(a)
                }));
                calls!(t, want, "Pipeline::map_owned", Pipeline::new(x.clone()).map_owned(|a: S| {
                    t.on(&a);
                    f.ap(&a)
                }));
                calls!(t, want, "transform_chain", tu::transform_chain(Some(x.clone()), |a: &S| {
                    t.on(a);
                    f.ap(a)
                }));
                let twice: Vec<S> = want.iter().chain(&want).cloned().collect();
                calls!(t, twice, "transform_all", tu::transform_all(&[x.clone(), x.clone()], |a: &S| {
                    t.on(a);
                    f.ap(a)
                }));
                Ok(())
            },
        );
    };
}

macro_rules! applicative {
    ($s:ident, $name:literal, $C:ident, $vals_first:literal) => {
        $s.check(
            concat!("combine/", $name),
            "every container holds a value, or one of them fails",
            15_000,
            || {
                let k = <$C<S> as Repr<S>>::KIND;
                (md_of(k, val(), 4), md_of(k, val(), 4), md_of(k, val(), 3), fun3())
            },
            |(a, b, c, g), obs| {
                type C = $C<S>;
                const K: Kind = <$C<S> as Repr<S>>::KIND;
                obs.nontrivial(![a, b, c].iter().any(|m| m.is_ok() && m.values().is_empty()));
                obs.tag_if([a, b, c].iter().any(|m| !m.is_ok()), "a failure");
                obs.tag_if([a, b].iter().all(|m| m.values().len() > 1), "many by many");
                let t = &Tape::default();
                let (ca, cb, cc) = (C::mk(a.clone()), C::mk(b.clone()), C::mk(c.clone()));
                let acc = K == Kind::Val;
                let pairs = a.ap(b, acc, |x, y| format!("{x}|{y}"));
                let triples = pairs.ap(c, acc, |p, z| format!("{p}|{z}"));
                let (want2, want3) = (strs(pairs.values()), strs(triples.values()));
                let two = |x: &S, y: &S| {
                    t.on(format!("{x}|{y}"));
                    x.clone() + y
                };
                let three = |x: &S, y: &S, z: &S| {
                    t.on(format!("{x}|{y}|{z}"));
                    g.ap(x, y, z)
                };
                calls!(t, want2, "lift2", C::lift2(two, &ca, &cb));
                calls!(t, want2, "ap2", C::ap2(two, &ca, &cb));
                calls!(t, want2, "lift2_owned", C::lift2_owned(|x: S, y: S| two(&x, &y), ca.clone(), cb.clone()));
                calls!(t, want3, "lift3", C::lift3(three, &ca, &cb, &cc));
                calls!(t, want3, "lift3_owned", C::lift3_owned(|x: S, y: S, z: S| three(&x, &y, &z), ca.clone(), cb.clone(), cc.clone()));
                // Functions in a container, each known by a name.
                let want = if $vals_first { strs(b.ap(a, acc, |y, x| format!("{x}|{y}")).values()) } else { want2.clone() };
                let fr: $C<_> = Repr::mk(a.map(|x| {
                    let x = x.clone();
                    move |y: &S| two(&x, y)
                }));
                calls!(t, want, "apply", fr.apply(&cb));
                let fo: $C<_> = Repr::mk(a.map(|x| {
                    let x = x.clone();
                    move |y: S| two(&x, &y)
                }));
                calls!(t, want, "apply_owned", fo.apply_owned(cb.clone()));
                Ok(())
            },
        );
    };
}

macro_rules! monad {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("bind/", $name),
            "the container holds a value and a step does not give exactly one value",
            15_000,
            || (md(<$C<S> as Repr<S>>::KIND), kl(), pred(), val()),
            |(m, k, p, d), obs| {
                type C = $C<S>;
                const K: Kind = <$C<S> as Repr<S>>::KIND;
                let x = C::mk(m.clone());
                let step = |a: &S| kl_md(K, k, a);
                obs.nontrivial(!m.values().is_empty() && (K == Kind::One || K == Kind::Log || m.values().iter().any(|a| step(a).values().len() != 1)));
                let t = &Tape::default();
                let kc = |a: &S| {
                    t.on(a);
                    C::mk(step(a))
                };
                let want = strs(m.values());
                calls!(t, want, "bind", x.bind(kc));
                calls!(t, want, "bind_owned", x.clone().bind_owned(|a: S| kc(&a)));
                calls!(t, want, "flat_map", x.flat_map(kc));
                calls!(t, want, "flat_map_owned", x.clone().flat_map_owned(|a: S| kc(&a)));
                calls!(t, want, "map_and_pure", x.map_and_pure(|a: &S| {
                    t.on(a);
                    a.len()
                }));
                calls!(t, want, "try_bind", x.try_bind(d, |a: &S| if p.ok(a) { Ok(kc(a)) } else { Err(t.on(a)) }));
                Ok(())
            },
        );
    };
}

macro_rules! foldable {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("fold/", $name),
            "more than one element where the container allows it",
            15_000,
            || (md_of(<$C<S> as Repr<S>>::KIND, val(), 20), val(), fun2(), pred(), fun()),
            |(m, init, f, p, h), obs| {
                let x = <$C<S> as Repr<S>>::mk(m.clone());
                let v = m.values();
                obs.nontrivial(v.len() > 1 || !matches!(<$C<S> as Repr<S>>::KIND, Kind::List) && !v.is_empty());
                let t = &Tape::default();
                let want = strs(v);
                // What each call was given: the running result and the element.
                let steps = |mut acc: S, es: &mut dyn Iterator<Item = &S>, left: bool| {
                    let mut out = vec![];
                    for e in es {
                        out.push(format!("{acc}|{e}"));
                        acc = if left { f.ap(&acc, e) } else { f.ap(e, &acc) };
                    }
                    out
                };
                calls!(t, steps(init.clone(), &mut v.iter(), true), "fold_left", x.fold_left(init, |a: &S, e: &S| {
                    t.on(format!("{a}|{e}"));
                    f.ap(a, e)
                }));
                calls!(t, steps(init.clone(), &mut v.iter().rev(), false), "fold_right", x.fold_right(init, |e: &S, a: &S| {
                    t.on(format!("{a}|{e}"));
                    f.ap(e, a)
                }));
                calls!(t, want, "fold_map", x.fold_map(|a: &S| {
                    t.on(a);
                    h.ap(a)
                }));
                calls!(t, v.split_first().map(|(a, r)| steps(a.clone(), &mut r.iter(), true)).unwrap_or_default(), "reduce", FoldableExt::reduce(&x, |a: &S, e: &S| {
                    t.on(format!("{a}|{e}"));
                    f.ap(a, e)
                }));
                let test = |a: &S| {
                    t.on(a);
                    p.ok(a)
                };
                // Searches stop at the element that decides them.
                let upto = |stop: bool| {
                    let n = v.iter().position(|a| p.ok(a) == stop).map_or(v.len(), |i| i + 1);
                    strs(&v[..n])
                };
                obs.tag_if(upto(true).len() < v.len() || upto(false).len() < v.len(), "search ends early");
                calls!(t, upto(true), "find", FoldableExt::find(&x, test));
                calls!(t, upto(true), "any", FoldableExt::any(&x, test));
                calls!(t, upto(false), "all", FoldableExt::all(&x, test));
                calls!(t, want, "fold_option over present values", x.fold_option(|a: &S| {
                    t.on(a);
                    Some(h.ap(a))
                }));
                Ok(())
            },
        );
    };
}
fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}
fn res(m: &Md<S>) -> Result<S, S> {
    <CRes<S> as Repr<S>>::mk(m.clone())
}
fn ei(m: &Md<S>) -> Either<S, S> {
    <CEi<S> as Repr<S>>::mk(m.clone())
}

fn main() {
    let mut s = Suite::new("C36");
    s.assume("sorting and comparing operations may call the comparison as often as they like; searches of a choice that the documentation does not describe as lazy are checked for the order of their calls only");
    functor!(s, "Option", COpt);
    functor!(s, "Result", CRes);
    functor!(s, "Maybe", CMay);
    functor!(s, "Either", CEi);
    functor!(s, "Validated", CVal);
    functor!(s, "Choice", CCh);
    functor!(s, "Vec", CVec);
    functor!(s, "Id", CId);
    functor!(s, "Writer", CWr);
    functor!(s, "PersistentVector", CPv);
    applicative!(s, "Option", COpt, false);
    applicative!(s, "Result", CRes, false);
    applicative!(s, "Maybe", CMay, false);
    applicative!(s, "Either", CEi, false);
    applicative!(s, "Validated", CVal, false);
    applicative!(s, "Choice", CCh, true);
    applicative!(s, "Vec", CVec, false);
    applicative!(s, "Id", CId, false);
    applicative!(s, "Writer", CWr, false);
    monad!(s, "Option", COpt);
    monad!(s, "Result", CRes);
    monad!(s, "Maybe", CMay);
    monad!(s, "Either", CEi);
    monad!(s, "Validated", CVal);
    monad!(s, "Choice", CCh);
    monad!(s, "Id", CId);
    monad!(s, "Writer", CWr);
    monad!(s, "a list of the user's", CUl);
    foldable!(s, "Vec", CVec);
    foldable!(s, "Option", COpt);
    foldable!(s, "Result", CRes);
    foldable!(s, "Id", CId);
    foldable!(s, "Validated", CVal);
    foldable!(s, "Choice", CCh);
    foldable!(s, "PersistentVector", CPv);
    foldable!(s, "a list of the user's", CUl);
    macro_rules! fallible {
        ($name:literal, $C:ident) => {
            s.check(
                concat!("fallible-mapping/", $name),
                "the function fails for a value",
                15_000,
                || (md(<$C<S> as Repr<S>>::KIND), pred()),
                |(m, p), obs| {
                    let x = <$C<S> as Repr<S>>::mk(m.clone());
                    obs.nontrivial(m.values().iter().any(|a| !p.ok(a)));
                    let t = &Tape::default();
                    let k = |a: &S| {
                        t.on(a);
                        if p.ok(a) { Ok(a.len()) } else { Err(a.clone()) }
                    };
                    let want = strs(m.values());
                    calls!(t, want, "try_map_or", x.try_map_or(0usize, k));
                    calls!(t, want, "filter_map", FunctorExt::filter_map(&x, |a: &S| k(a).ok()));
                    let both: Vec<S> = m.values().iter().flat_map(|a| if p.ok(a) { vec![a.clone()] } else { vec![a.clone(), format!("default {a}")] }).collect();
                    calls!(t, both, "try_map_or_else", x.try_map_or_else(|e: &S| { t.on(format!("default {e}")); 0usize }, k));
                    Ok(())
                },
            );
        };
    }
    fallible!("Vec", CVec);
    fallible!("Option", COpt);
    fallible!("Result", CRes);
    fallible!("a list of the user's", CUl);

    s.check(
        "handlers/one-error",
        "always (either the success or the error function is called)",
        60_000,
        || (md(Kind::Res), md(Kind::Res), fun()),
        |(m, r, f), obs| {
            obs.nontrivial(true);
            obs.tag_if(m.is_ok(), "success");
            obs.tag_if(!m.is_ok(), "failure");
            let t = &Tape::default();
            let ok = strs(m.values());
            let err: Vec<S> = m.out.clone().err().unwrap_or_default();
            let both = |a: &[S], b: &[S]| a.iter().chain(b).cloned().collect::<Vec<_>>();
            let any = both(&ok, &err);
            let g = |a: &S| {
                t.on(a);
                f.ap(a)
            };
            let go = |a: S| g(&a);
            let (x, e) = (res(m), ei(m));
            let rec = |a: &S| {
                t.on(a);
                res(r)
            };
            let rec_e = |a: &S| {
                t.on(a);
                ei(r)
            };
            calls!(t, err, "Result::catch", x.catch(rec));
            calls!(t, err, "Result::catch_owned", x.clone().catch_owned(|a: S| rec(&a)));
            calls!(t, err, "Result::recover", ErrorOps::recover(x.clone(), |a: S| rec(&a)));
            calls!(t, err, "Either::recover", ErrorOps::recover(e.clone(), |a: S| rec_e(&a)));
            calls!(t, err, "Result::map_error_to", x.map_error_to(g));
            calls!(t, err, "Result::map_error_to_owned", x.clone().map_error_to_owned(go));
            calls!(t, err, "Result::fmap_error", WithError::fmap_error(x.clone(), go));
            calls!(t, err, "Either::fmap_error", WithError::fmap_error(e.clone(), go));
            calls!(t, any, "Result::bimap_result", ErrorOps::bimap_result(x.clone(), go, go));
            calls!(t, any, "Either::bimap_result", ErrorOps::bimap_result(e.clone(), go, go));
            calls!(t, any, "ResultExt::bimap", ResultExt::bimap(x.clone(), go, go));
            calls!(t, any, "categorical bimap_result", cu::bimap_result(x.clone(), go, go));
            calls!(t, ok, "categorical map_result", cu::map_result(x.clone(), go));
            calls!(t, ok, "categorical flat_map_result", cu::flat_map_result(x.clone(), |a| rec(&a)));
            calls!(t, ok, "hkt map_result", hu::map_result(x.clone(), go));
            calls!(t, ok, "categorical map_option", cu::map_option(x.clone().ok(), go));
            calls!(t, ok, "categorical flat_map_option", cu::flat_map_option(x.clone().ok(), |a| rec(&a).ok()));
            calls!(t, ok, "lift_option", hu::lift_option(go)(x.clone().ok()));
            calls!(t, ok, "Either::fmap_right", e.clone().fmap_right(go));
            calls!(t, err, "Either::fmap_left", e.clone().fmap_left(go));
            calls!(t, err, "Either::map_second", e.map_second(g));
            calls!(t, err, "Either::map_second_owned", e.clone().map_second_owned(go));
            calls!(t, ok, "Either::first", Bifunctor::first(&e, g));
            calls!(t, err, "Either::second", Bifunctor::second(&e, g));
            calls!(t, any, "Either::bimap", e.bimap(g, g));
            // Optional values: the handler is called with nothing.
            let o = x.clone().ok();
            let absent: Vec<S> = if m.is_ok() { vec![] } else { vec!["absent".into()] };
            let none = || {
                t.on("absent");
                "dflt".to_string()
            };
            calls!(t, absent, "Option::catch", MonadError::<()>::catch(&o, |_: &()| Some(none())));
            calls!(t, absent, "Option::catch_owned", MonadError::<()>::catch_owned(o.clone(), |_: ()| Some(none())));
            calls!(t, absent, "Option::map_error_to", o.map_error_to(|_: &()| none()));
            calls!(t, absent, "Option::map_error_to_owned", o.clone().map_error_to_owned(|_: ()| none()));
            let may = Maybe::from_option(o.clone());
            calls!(t, absent, "Maybe::unwrap_or_else", may.clone().unwrap_or_else(none));
            calls!(t, ok, "Maybe::fmap_or", may.clone().fmap_or("d".to_string(), go));
            calls!(t, ok, "Maybe::filter", may.clone().filter(|a| g(a).len() > 3));
            calls!(t, ok, "Maybe::tap", may.clone().tap(|a| {
                g(a);
            }));
            calls!(t, absent, "Validated::from_option_with", Validated::<S, S>::from_option_with(&o, &none));
            calls!(t, absent, "Validated::from_option_with_owned", Validated::<S, S>::from_option_with_owned(o.clone(), none));
            // Pipelines of errors.
            let p = || ErrorPipeline::<S, S>::new(x.clone());
            calls!(t, ok, "ErrorPipeline::map", p().map(go));
            calls!(t, ok, "ErrorPipeline::and_then", p().and_then(|a| rec(&a)));
            calls!(t, err, "ErrorPipeline::map_error", p().map_error(go));
            calls!(t, err, "ErrorPipeline::recover", p().recover(|a| rec(&a)));
            Ok(())
        },
    );
    s.check(
        "handlers/many-errors",
        "always (either the success or the error function is called)",
        40_000,
        || (md(Kind::Val), md(Kind::Val), pred(), fun()),
        |(m, r, p, f), obs| {
            let x = <CVal<S> as Repr<S>>::mk(m.clone());
            let other = || <CVal<S> as Repr<S>>::mk(r.clone());
            let t = &Tape::default();
            let ok = strs(m.values());
            let err: Vec<S> = m.out.clone().err().unwrap_or_default();
            obs.nontrivial(true);
            obs.tag_if(err.len() > 1, "several errors");
            let any: Vec<S> = ok.iter().chain(&err).cloned().collect();
            let g = |a: &S| {
                t.on(a);
                f.ap(a)
            };
            let go = |a: S| g(&a);
            calls!(t, err, "fmap_invalid", x.fmap_invalid(g));
            calls!(t, err, "fmap_invalid_owned", x.clone().fmap_invalid_owned(go));
            calls!(t, err, "map_second", x.map_second(g));
            calls!(t, err, "map_second_owned", x.clone().map_second_owned(go));
            calls!(t, err, "fmap_error", WithError::fmap_error(x.clone(), go));
            calls!(t, ok, "first", Bifunctor::first(&x, g));
            calls!(t, err, "second", Bifunctor::second(&x, g));
            calls!(t, any, "bimap", x.bimap(g, g));
            let whole = if m.is_ok() { vec![] } else { vec![err.join("|")] };
            calls!(t, whole, "recover_all_at_once", x.clone().recover_all_at_once(|e: Vec<S>| {
                t.on(e.join("|"));
                other()
            }));
            // Errors are offered in order: all of them, or until one is recovered (see C12).
            let stop = err.iter().position(|e| p.ok(e) && r.is_ok()).map_or(err.len(), |i| i + 1);
            obs.tag_if(stop < err.len(), "recovered before the last error");
            let _ = x.clone().recover_all(|e: S| {
                t.on(&e);
                if p.ok(&e) { other() } else { Validated::Invalid(std::iter::once(e).collect()) }
            });
            let got = t.take();
            ensure!(got == err[..stop] || got == err, "calls made by recover_all: got {got:?} for the errors {err:?}, the first {stop} of which settle the result");
            Ok(())
        },
    );

    s.check(
        "choice",
        "more than one value",
        50_000,
        || (md_of(Kind::List, val(), 14), pred(), kl(), val()),
        |(m, p, k, init), obs| {
            let x: Choice<S> = Repr::mk(m.clone());
            let v = m.values();
            obs.nontrivial(v.len() > 1);
            obs.tag_if(v.len() > 9, "more than nine values");
            let t = &Tape::default();
            let all = strs(v);
            let rest = strs(v.iter().skip(1));
            let test = |a: &S| {
                t.on(a);
                p.ok(a)
            };
            // The primary value is kept whatever the predicate says.
            calls!(t, rest, "filter", x.filter(test));
            calls!(t, all, "filter_values", x.filter_values(test));
            let n = v.iter().position(|a| p.ok(a)).map_or(v.len(), |i| i + 1);
            calls!(t, strs(&v[..n]), "find_first", x.find_first(|a| test(a)));
            calls!(t, rest, "fmap_alternatives", x.fmap_alternatives(|a: &S| {
                t.on(a);
                a.clone() + "!"
            }));
            calls!(t, all, "fold", x.fold(init.clone(), |acc: S, a: &S| {
                t.on(a);
                acc + a
            }));
            calls!(t, all, "dedup_by_key", x.dedup_by_key(|a: &S| {
                t.on(a);
                a.len()
            }));
            calls!(t, all, "to_map_with_key", x.to_map_with_key(|a: &S| {
                t.on(a);
                a.len()
            }));
            let kc = |a: &S| {
                t.on(a);
                Choice::<S>::mk(kl_md(Kind::List, k, a))
            };
            let out: Vec<S> = x.bind_lazy(kc).collect();
            ensure_eq!(t.take(), all, "calls made by bind_lazy");
            // Lazily: the step for a value runs only when its first result is asked for.
            if let Some(first) = out.first() {
                let need = v.iter().position(|a| !kl_md(Kind::List, k, a).values().is_empty()).unwrap() + 1;
                obs.tag_if(need < v.len(), "lazy step not needed");
                let mut it = x.bind_lazy(kc);
                ensure_eq!(t.take(), Vec::<S>::new(), "calls made before the iterator is asked");
                let got = it.next();
                ensure_eq!(got.as_ref(), Some(first), "first result of bind_lazy");
                ensure_eq!(t.take(), strs(&v[..need]), "calls made for the first result of bind_lazy");
            }
            Ok(())
        },
    );
    s.check(
        "persistent-vector",
        "more than 32 elements",
        8_000,
        || (md_of(Kind::List, val(), 40), pred(), val()),
        |(m, p, init), obs| {
            let x: PersistentVector<S> = Repr::mk(m.clone());
            let v = m.values();
            obs.nontrivial(v.len() > 32);
            let t = &Tape::default();
            let all = strs(v);
            let test = |a: &S| {
                t.on(a);
                p.ok(a)
            };
            calls!(t, all, "map", x.map(|a: &S| test(a)));
            calls!(t, all, "filter", x.filter(test));
            calls!(t, all, "filter_map", x.filter_map(|a: &S| test(a).then(|| a.len())));
            calls!(t, all, "flat_map", x.flat_map(|a: &S| if test(a) { vec![a.clone(), init.clone()] } else { vec![] }));
            calls!(t, all, "partition", x.partition(test));
            calls!(t, all, "fold", x.fold(init.clone(), |acc: S, a: &S| {
                t.on(a);
                acc + a
            }));
            Ok(())
        },
    );

    s.check(
        "collections",
        "more than one element and the function fails for one of them",
        50_000,
        || (list(val(), 8, 60), pred(), list(val(), 8, 60), fun()),
        |(v, p, w, f), obs| {
            let t = &Tape::default();
            obs.nontrivial(v.len() > 1 && v.iter().any(|a| !p.ok(a)));
            let bad = v.iter().position(|a| !p.ok(a));
            obs.tag_if(bad.is_some_and(|i| i + 1 < v.len()), "elements after a failing one");
            // The collection is an iterator that records when it is asked.
            let src = || {
                v.iter().cloned().inspect(|a| t.on(format!("next {a}")))
            };
            let step = |a: S| {
                t.on(&a);
                if p.ok(&a) { Ok(a.len()) } else { Err(a) }
            };
            let turns = |n: usize| v[..n].iter().flat_map(|a| [format!("next {a}"), a.clone()]).collect::<Vec<S>>();
            let stop = turns(bad.map_or(v.len(), |i| i + 1));
            let all = turns(v.len());
            calls!(t, stop, "traverse", eu::traverse(src(), step));
            calls!(t, all, "traverse_validated", eu::traverse_validated(src(), step));
            calls!(t, all, "filter_map_collect", cu::filter_map_collect(src(), |a: S| step(a).ok()));
            let kept: Vec<S> = v.iter().flat_map(|a| {
                let mut c = vec![format!("next {a}"), a.clone()];
                if p.ok(a) {
                    c.push(format!("map {a}"));
                }
                c
            }).collect();
            calls!(t, kept, "hkt filter_map", hu::filter_map(src(), |a: &S| { t.on(a); p.ok(a) }, |a: S| { t.on(format!("map {a}")); a.len() }));
            let pairs: Vec<S> = v.iter().zip(w).map(|(a, b)| format!("{a}|{b}")).collect();
            calls!(t, pairs, "zip_with", hu::zip_with(v.clone(), w.clone(), |a: S, b: S| { t.on(format!("{a}|{b}")); a + &b }));
            // Chains of functions, each known by its position.
            let d = "x".to_string();
            let ops: Vec<_> = (0..v.len()).map(|i| move |a: S| { t.on(i); if p.ok(&v[i]) { Some(f.ap(&a)) } else { None } }).collect();
            let reach = strs(0..bad.map_or(v.len(), |i| i + 1));
            calls!(t, reach, "pipeline_option", hu::pipeline_option::<S, S, _, _>(d.clone(), ops));
            let ops = || (0..v.len()).map(|i| move |a: S| { t.on(i); if p.ok(&v[i]) { Ok(f.ap(&a)) } else { Err(a) } }).collect::<Vec<_>>();
            calls!(t, reach, "pipeline_result", hu::pipeline_result::<S, S, S, _>(d.clone(), ops()));
            calls!(t, reach, "try_pipeline", hu::try_pipeline::<S, S, S, _>(d.clone(), ops()));
            let ops: Vec<_> = (0..v.len()).map(|i| move |a: S| { t.on(i); f.ap(&a) }).collect();
            calls!(t, strs(0..v.len()), "fan_out", hu::fan_out(d.clone(), ops));
            // Composition and reordering.
            let (g, h) = (|a: S| { t.on(format!("g{a}")); a + "g" }, |a: S| { t.on(format!("h{a}")); a + "h" });
            calls!(t, strs(["hx", "gxh"]), "compose", cu::compose(g, h)(d.clone()));
            calls!(t, strs(["gx", "hxg"]), "pipe", cu::pipe(g, h)(d.clone()));
            calls!(t, strs(["1|2"]), "flip", cu::flip(|a: u8, b: u8| t.on(format!("{a}|{b}")))(2, 1));
            Ok(())
        },
    );
    s.check(
        "handlers/asynchronous",
        "several errors, or a valid value",
        20_000,
        || md(Kind::Val),
        |m, obs| {
            let x = <CVal<S> as Repr<S>>::mk(m.clone());
            let ok = strs(m.values());
            let err: Vec<S> = m.out.clone().err().unwrap_or_default();
            obs.nontrivial(m.is_ok() || err.len() > 1);
            let t = Arc::new(Mutex::new(vec![]));
            let seen = || std::mem::take(&mut *t.lock().unwrap());
            let f = {
                let t = t.clone();
                move |a: S| {
                    t.lock().unwrap().push(a.clone());
                    let t = t.clone();
                    async move {
                        t.lock().unwrap().push(format!("run {a}"));
                        a
                    }
                }
            };
            let turns = |v: &[S]| v.iter().map(|a| format!("run {a}")).collect::<Vec<_>>();
            // The function is called in order and each future it gives runs once, in order.
            let split = |c: Vec<S>| c.into_iter().partition::<Vec<S>, _>(|a| !a.starts_with("run "));
            block_on(x.fmap_valid_async(f.clone()));
            ensure_eq!(split(seen()), (ok.clone(), turns(&ok)), "calls made by fmap_valid_async");
            block_on(x.fmap_invalid_async(f.clone()));
            ensure_eq!(split(seen()), (err.clone(), turns(&err)), "calls made by fmap_invalid_async");
            let g = move |a: S| {
                let r = f(a);
                async move { Validated::<S, S>::Valid(r.await) }
            };
            block_on(x.and_then_async(g));
            ensure_eq!(split(seen()), (ok.clone(), turns(&ok)), "calls made by and_then_async");
            Ok(())
        },
    );
    s.check(
        "plain-values",
        "the two values differ and there is more than one function",
        20_000,
        || (val(), val(), vec(fun(), 0..6)),
        |(a, b, fs), obs| {
            obs.nontrivial(a != b && fs.len() > 1);
            let t = &Tape::default();
            let both = |x: &S, y: &S| {
                t.on(format!("{x}|{y}"));
                x.len() + y.len()
            };
            let want = vec![format!("{a}|{b}")];
            calls!(t, want, "combine_with (option)", PureExt::combine_with::<Option<S>, S, usize>(a, b, both));
            calls!(t, want, "combine_with (vector)", PureExt::combine_with::<Vec<S>, S, usize>(a, b, both));
            calls!(t, want, "combine_with (maybe)", PureExt::combine_with::<Maybe<S>, S, usize>(a, b, both));
            let tape = Rc::new(Tape::default());
            let steps: Vec<Box<dyn Fn(S) -> S>> = fs
                .iter()
                .map(|f| {
                    let (f, tape) = (f.clone(), tape.clone());
                    Box::new(move |x: S| {
                        tape.on(&x);
                        f.ap(&x)
                    }) as Box<dyn Fn(S) -> S>
                })
                .collect();
            let all = hu::compose_all::<S, S>(steps);
            ensure_eq!(tape.take(), Vec::<S>::new(), "calls made by building a composition");
            for x in [a, b, a] {
                let mut want = vec![];
                let end = fs.iter().fold(x.clone(), |x, f| {
                    want.push(x.clone());
                    f.ap(&x)
                });
                ensure_eq!(all(x.clone()), end, "compose_all");
                ensure_eq!(tape.take(), want, "calls made by compose_all");
            }
            Ok(())
        },
    );
    s.check(
        "sequence-validated",
        "more than one operand",
        20_000,
        || vec(md(Kind::Val), 0..6),
        |ms, obs| {
            let t = &Tape::default();
            obs.nontrivial(ms.len() > 1);
            let good = ms.iter().all(|m| m.is_ok());
            obs.tag_if(good && ms.len() > 1, "all valid");
            let xs: Vec<Validated<S, S>> = ms.iter().map(|m| Repr::mk(m.clone())).collect();
            let want: Vec<S> = if good { vec![ms.iter().map(|m| m.values()[0].clone()).collect::<Vec<_>>().join("|")] } else { vec![] };
            let f = |v: &[S]| {
                t.on(v.join("|"));
                v.len()
            };
            calls!(t, want, "Validated::sequence", Validated::sequence(&xs.iter().collect::<Vec<_>>(), &f));
            calls!(t, want, "Validated::sequence_owned", Validated::sequence_owned(xs.clone(), |v: Vec<S>| f(&v)));
            Ok(())
        },
    );
    s.main()
}
