//! C32: throwing and catching errors.
use rustica::datatypes::either::Either;
use rustica::datatypes::validated::Validated;
use rustica::error::{ErrorCategory, ErrorOps};
use rustica::traits::monad::Monad;
use rustica::traits::monad_error::{ErrorMapper, MonadError};
use rustica::utils::error_utils::WithError;
use std::cell::RefCell;
use vharness::cont::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

fn kc<C: Repr<S>>(k: &Kl) -> impl Fn(&S) -> C + '_ {
    move |e: &S| C::mk(kl_md(C::KIND, k, e))
}

fn main() {
    let mut s = Suite::new("C32");
    s.assume("handlers are pure; an invalid validation converted to a result holds at least one error");
    s.check(
        "monad-error/Result",
        "the computation fails",
        120_000,
        || (md(Kind::Res), kl(), kl(), val(), fun()),
        |(m, h, k, e, f), obs| {
            type C = Result<S, S>;
            let x = C::mk(m.clone());
            obs.nontrivial(!m.is_ok());
            let hc = kc::<C>(h);
            let step = kc::<C>(k);
            let calls = RefCell::new(vec![]);
            let thrown = <C as MonadError<S>>::throw::<S>(e.clone());
            ensure_eq!(thrown, Err(e.clone()), "throw");
            ensure_eq!(thrown.catch(|e: &S| hc(e)), hc(e), "catch (throw e) h = h e");
            ensure_eq!(thrown.clone().catch_owned(|e: S| hc(&e)), hc(e), "catch_owned (throw e) h = h e");
            let want = match &x {
                Ok(_) => x.clone(),
                Err(e) => hc(e),
            };
            obs.tag_if(!m.is_ok() && want.is_ok(), "recovered");
            obs.tag_if(!m.is_ok() && want.is_err(), "handler fails");
            let got = x.catch(|e: &S| {
                calls.borrow_mut().push(e.clone());
                hc(e)
            });
            ensure_eq!(got, want, "catch");
            ensure_eq!(calls.take(), m.out.clone().err().unwrap_or_default(), "errors the handler saw");
            let got = x.clone().catch_owned(|e: S| {
                calls.borrow_mut().push(e.clone());
                hc(&e)
            });
            ensure_eq!(got, want, "catch_owned");
            ensure_eq!(calls.take(), m.out.clone().err().unwrap_or_default(), "errors the handler saw (owned)");
            ensure_eq!(thrown.bind(|a: &S| { calls.borrow_mut().push(a.clone()); step(a) }), Err(e.clone()), "throw e >>= k = throw e");
            ensure!(calls.take().is_empty(), "a step after a thrown error ran");
            ensure_eq!(x.catch(|e: &S| <C as MonadError<S>>::throw(e.clone())), x, "catch m throw = m");
            ensure_eq!(x.clone().catch_owned(<C as MonadError<S>>::throw), x, "catch_owned m throw = m");
            // catch (catch m h) k = catch m (\e -> catch (h e) k)
            let l = x.catch(|e: &S| hc(e)).catch(|e: &S| step(e));
            let r = x.catch(|e: &S| hc(e).catch(|e: &S| step(e)));
            ensure_eq!(l, r, "nested catch");
            // mapping the error
            let em = x.clone().map_err(|e| f.ap(&e));
            ensure_eq!(x.map_error_to(|e: &S| f.ap(e)), em, "map_error_to");
            ensure_eq!(x.clone().map_error_to_owned(|e: S| f.ap(&e)), em, "map_error_to_owned");
            ensure_eq!(x.clone().fmap_error(|e: S| f.ap(&e)), em, "fmap_error");
            ensure_eq!(x.map_error_to(|e: &S| e.len()), x.clone().map_err(|e| e.len()), "map_error_to another type");
            ensure_eq!(WithError::<S>::to_result(x.clone()), x, "to_result");
            // error operations
            ensure_eq!(ErrorOps::recover(x.clone(), |e: S| { calls.borrow_mut().push(e.clone()); hc(&e) }), want, "recover");
            ensure_eq!(calls.take(), m.out.clone().err().unwrap_or_default(), "errors recovery saw");
            let bi = x.clone().map(|a| a.len()).map_err(|e| f.ap(&e));
            ensure_eq!(ErrorOps::bimap_result(x.clone(), |a: S| a.len(), |e: S| f.ap(&e)), bi, "bimap_result");
            ensure_eq!(<Result<(), S> as ErrorCategory<S>>::lift(e.clone()), Ok(e.clone()), "lift");
            ensure_eq!(<Result<(), S> as ErrorCategory<S>>::handle_error::<S>(e.clone()), Err(e.clone()), "handle_error");
            Ok(())
        },
    );
    s.check(
        "monad-error/Option",
        "the computation is absent",
        40_000,
        || (md(Kind::Opt), md(Kind::Opt), kl(), fun()),
        |(m, h, k, f), obs| {
            type C = Option<S>;
            let (x, hv) = (C::mk(m.clone()), C::mk(h.clone()));
            obs.nontrivial(x.is_none() && hv.is_some());
            let calls = RefCell::new(0);
            let step = kc::<C>(k);
            let thrown = <C as MonadError<()>>::throw::<S>(());
            ensure_eq!(thrown, None, "throw");
            ensure_eq!(thrown.catch(|_: &()| hv.clone()), hv, "catch (throw e) h = h e");
            ensure_eq!(thrown.clone().catch_owned(|_: ()| hv.clone()), hv, "catch_owned (throw e) h = h e");
            let want = x.clone().or(hv.clone());
            ensure_eq!(x.catch(|_: &()| { *calls.borrow_mut() += 1; hv.clone() }), want, "catch");
            ensure_eq!(calls.take(), x.is_none() as i32, "handler calls");
            ensure_eq!(x.clone().catch_owned(|_: ()| { *calls.borrow_mut() += 1; hv.clone() }), want, "catch_owned");
            ensure_eq!(calls.take(), x.is_none() as i32, "handler calls (owned)");
            ensure_eq!(thrown.bind(|a: &S| step(a)), None, "throw >>= k");
            ensure_eq!(x.catch(|_: &()| <C as MonadError<()>>::throw(())), x, "catch m throw = m");
            let e = f.ap(&"e".to_string());
            let er = x.clone().ok_or(e.clone());
            ensure_eq!(x.map_error_to(|_: &()| e.clone()), er, "map_error_to");
            ensure_eq!(x.clone().map_error_to_owned(|_: ()| e.clone()), er, "map_error_to_owned");
            Ok(())
        },
    );
    s.check(
        "error-ops/Either",
        "the computation fails",
        60_000,
        || (md(Kind::Res), kl(), val(), fun()),
        |(m, h, e, f), obs| {
            type C = Either<S, S>;
            let x = C::mk(m.clone());
            obs.nontrivial(!m.is_ok());
            let hc = kc::<C>(h);
            let calls = RefCell::new(vec![]);
            let want = match &m.out {
                Ok(_) => m.clone(),
                Err(e) => kl_md(Kind::Res, h, &e[0]),
            };
            ensure_eq!(ErrorOps::recover(x.clone(), |e: S| { calls.borrow_mut().push(e.clone()); hc(&e) }).view(), want, "recover");
            ensure_eq!(calls.take(), m.out.clone().err().unwrap_or_default(), "errors recovery saw");
            let r: Result<S, S> = Repr::mk(m.clone());
            ensure_eq!(ErrorOps::bimap_result(x.clone(), |a: S| a.len(), |e: S| f.ap(&e)), r.clone().map(|a| a.len()).map_err(|e| f.ap(&e)), "bimap_result");
            ensure_eq!(WithError::<S>::to_result(x.clone()), r, "to_result");
            ensure_eq!(WithError::<S>::fmap_error(x.clone(), |e: S| f.ap(&e)), C::mk(Md { log: vec![], out: m.out.clone().map_err(|v| vec![f.ap(&v[0])]) }), "fmap_error");
            ensure_eq!(<Either<S, ()> as ErrorCategory<S>>::lift(e.clone()), Either::Right(e.clone()), "lift");
            ensure_eq!(<Either<S, ()> as ErrorCategory<S>>::handle_error::<S>(e.clone()), Either::Left(e.clone()), "handle_error");
            Ok(())
        },
    );
    s.check(
        "error-ops/Validated",
        "the validation fails with more than one error",
        60_000,
        || (md(Kind::Val), val(), fun()),
        |(m, e, f), obs| {
            type C = Validated<S, S>;
            let x = C::mk(m.clone());
            obs.nontrivial(m.out.as_ref().err().is_some_and(|e| e.len() > 1));
            obs.tag(if m.is_ok() { "valid" } else { "invalid" });
            let mapped = Md { log: vec![], out: m.out.clone().map_err(|v| v.iter().map(|e| f.ap(e)).collect()) };
            ensure_eq!(WithError::<S>::fmap_error(x.clone(), |e: S| f.ap(&e)).view(), mapped, "fmap_error");
            if m.out.as_ref().err().is_none_or(|e| !e.is_empty()) {
                ensure_eq!(WithError::<S>::to_result(x.clone()), m.out.clone().map(|v| v[0].clone()).map_err(|e| e[0].clone()), "to_result");
            }
            ensure_eq!(<Validated<S, ()> as ErrorCategory<S>>::lift(e.clone()).view(), Md::ok(vec![e.clone()]), "lift");
            ensure_eq!(<Validated<S, ()> as ErrorCategory<S>>::handle_error::<S>(e.clone()).view(), Md::err(vec![e.clone()]), "handle_error");
            Ok(())
        },
    );
    s.main()
}
