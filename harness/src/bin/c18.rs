//! C18: reader computations.
use proptest::prelude::*;
use rustica::datatypes::id::Id;
use rustica::datatypes::reader::Reader;
use rustica::error::{ComposableError, ErrorContext};
use rustica::traits::monad::Monad;
use rustica::transformers::{MonadTransformer, ReaderT};
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use vharness::cont::*;
use vharness::ensure_eq;
use vharness::prog::*;
use vharness::runner::*;
use vharness::sym::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum A {
    Ask(u8),
    Asks(u8, Fun),
    /// transformer only: outcome depends on the environment
    Kl(Kl),
    /// transformer only: a lifted base value
    Lift(Md<S>),
}
pub type Pr = P<A, Fun, u8>;
/// An environment that owns memory in several places; local changes act on all of it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ev {
    name: S,
    path: Vec<S>,
}
impl From<Ev> for S {
    fn from(e: Ev) -> S {
        format!("{}/{}", e.name, e.path.join("/"))
    }
}
fn shown(e: &Ev) -> S {
    format!("{}/{}", e.name, e.path.join("/"))
}
fn chg(f: &Fun, e: Ev) -> Ev {
    let name = run1(f, &e.name);
    let mut path = e.path;
    path.push(e.name);
    Ev { name, path }
}
pub fn ev() -> BoxedStrategy<Ev> {
    (val(), prop::collection::vec(val(), 0..3)).prop_map(|(name, path)| Ev { name, path }).boxed()
}
pub fn env0() -> Env {
    Arc::new(vec![])
}

pub type Rd = Reader<Ev, S>;
pub fn build(p: &Pr, env: &Env) -> Rd {
    match p {
        P::Pure(v) => {
            let v = v.eval(env);
            Reader::new(move |_| v.clone())
        }
        P::Prim(A::Ask(_)) => Reader::ask(),
        P::Prim(A::Asks(n, f)) => {
            let f = f.clone();
            match n % 4 {
                0 => Reader::asks(move |e: Ev| run1(&f, &shown(&e))),
                1 => Reader::ask_transform(move |e: Ev| run1(&f, &shown(&e))),
                2 => Reader::ask_with(|e: &Ev| shown(e), move |s: S| Id::new(run1(&f, &s))),
                _ => Reader::from(ReaderT::new(move |e: Ev| Id::new(run1(&f, &shown(&e))))),
            }
        }
        P::Prim(_) => unreachable!(),
        P::Map(f, p) => {
            let f = f.clone();
            build(p, env).fmap(move |a: S| run1(&f, &a))
        }
        P::Bind(p, salt, ks) => {
            let (ks, salt, e) = (ks.clone(), *salt, env.clone());
            build(p, env).bind(move |a: S| {
                emit(format!("k {a}"));
                build(P::pick(&ks, salt, &a), &push(&e, a))
            })
        }
        P::U(f, p) => {
            let f = f.clone();
            build(p, env).local(move |e| chg(&f, e))
        }
        P::B(_, f, p, q) => {
            let f = f.clone();
            let (x, y) = operands(p, q, |p| build(p, env));
            x.combine(if p == q { &x } else { &y }, move |a: S, b: S| run2(&f, &a, &b))
        }
    }
}
pub fn eval(p: &Pr, env: &Env, r: &Ev) -> S {
    match p {
        P::Pure(v) => v.eval(env),
        P::Prim(A::Ask(_)) => shown(r),
        P::Prim(A::Asks(_, f)) => run1(f, &shown(r)),
        P::Prim(_) => unreachable!(),
        P::Map(f, p) => run1(f, &eval(p, env, r)),
        P::Bind(p, salt, ks) => {
            let a = eval(p, env, r);
            emit(format!("k {a}"));
            eval(P::pick(ks, *salt, &a), &push(env, a), r)
        }
        P::U(f, p) => eval(p, env, &chg(f, r.clone())),
        P::B(_, f, p, q) => {
            let (a, b) = (eval(p, env, r), eval(q, env, r));
            run2(f, &a, &b)
        }
    }
}
pub fn locals(p: &Pr) -> bool {
    p.any(&|p| matches!(p, P::U(..))) && p.any(&|p| matches!(p, P::Prim(A::Ask(_) | A::Asks(..) | A::Kl(_)))) && p.any(&|p| matches!(p, P::Bind(..) | P::B(..)))
}

pub trait Base: Repr<S> + Monad<Source = S, Output<S> = Self> + Clone + Send + Sync + 'static {}
impl<M: Repr<S> + Monad<Source = S, Output<S> = M> + Clone + Send + Sync + 'static> Base for M {}
fn ret<M: Base>(x: S) -> M {
    M::mk(Md::ok(vec![x]))
}
pub fn build_t<M: Base>(p: &Pr, env: &Env) -> ReaderT<Ev, M, S> {
    type T<M> = ReaderT<Ev, M, S>;
    match p {
        P::Pure(v) => T::<M>::pure(v.eval(env), ret::<M>),
        P::Prim(A::Ask(n)) => {
            if *n % 2 == 0 {
                // the computation of the environment itself, viewed as a string
                ReaderT::<Ev, M, Ev>::asks(|e| shown(&e), ret::<M>)
            } else {
                let r: ReaderT<Ev, M, Ev> = T::<M>::ask(|e| ret(shown(&e)));
                ReaderT::new(move |e| r.run_reader(e))
            }
        }
        P::Prim(A::Asks(n, f)) => {
            let f = f.clone();
            match n % 4 {
                0 => T::<M>::asks(move |e: Ev| run1(&f, &shown(&e)), ret::<M>),
                1 => T::<M>::ask_with(move |e: &Ev| run1(&f, &shown(e)), ret::<M>),
                2 => T::<M>::asks_with(|e: &Ev| shown(e), move |s: S| run1(&f, &s), ret::<M>),
                _ => ReaderT::new(move |e: Ev| ret(run1(&f, &shown(&e)))),
            }
        }
        P::Prim(A::Kl(k)) => {
            let k = k.clone();
            ReaderT::new(move |e: Ev| M::mk(kl_md(M::KIND, &k, &shown(&e))))
        }
        P::Prim(A::Lift(m)) => <T<M> as MonadTransformer>::lift(M::mk(fit(M::KIND, m))),
        P::Map(f, p) => {
            let f = f.clone();
            let r = build_t::<M>(p, env);
            if p.size() % 2 == 0 {
                r.fmap(move |a: S| run1(&f, &a))
            } else {
                r.fmap_with(move |a: S| run1(&f, &a), |m: M, g| m.fmap(|a: &S| g(a.clone())))
            }
        }
        P::Bind(p, salt, ks) => {
            let (ks, salt, e) = (ks.clone(), *salt, env.clone());
            let k = move |a: S| {
                emit(format!("k {a}"));
                build_t::<M>(P::pick(&ks, salt, &a), &push(&e, a))
            };
            let r = build_t::<M>(p, env);
            if p.size() % 2 == 0 {
                r.bind(k)
            } else {
                r.bind_with(k, |m: M, g| m.bind::<S, _>(|a: &S| g(a.clone())))
            }
        }
        P::U(f, p) => {
            let f = f.clone();
            build_t::<M>(p, env).local(move |e| chg(&f, e))
        }
        P::B(n, f, p, q) => {
            let f = f.clone();
            let (a, b) = operands(p, q, |p| build_t::<M>(p, env));
            match n % 4 {
                0 => a.combine(&b, move |a: S, b: S| run2(&f, &a, &b)),
                1 => a.combine_with(&b, move |a: S, b: S| run2(&f, &a, &b), |x: M, y: M, g: Box<dyn Fn(&S, &S) -> S + Send + Sync>| M::lift2(|a: &S, b: &S| g(a, b), &x, &y)),
                2 => {
                    let l = a.lift2(move |a: S, b: S| run2(&f, &a, &b), |x: M, y: M, g| M::lift2(|a: &S, b: &S| g(a.clone(), b.clone()), &x, &y));
                    l(&a, &b)
                }
                _ => {
                    // a function in the second reader, stood for by its first argument
                    let fs: ReaderT<Ev, M, fn(S) -> S> = {
                        let b = b.clone();
                        ReaderT::new(move |e| b.run_reader(e))
                    };
                    a.apply_with(&fs, move |x: M, y: M| M::lift2(|a: &S, b: &S| run2(&f, a, b), &x, &y))
                }
            }
        }
    }
}
/// Make any model one of the given kind.
fn fit(k: Kind, m: &Md<S>) -> Md<S> {
    let first = || m.values().first().cloned().unwrap_or_else(|| "v".into());
    match k {
        Kind::Opt => if m.is_ok() { Md::ok(vec![first()]) } else { Md::err(vec![]) },
        Kind::Res => match &m.out {
            Ok(_) => Md::ok(vec![first()]),
            Err(e) => Md::err(vec![e.first().cloned().unwrap_or_else(|| "e".into())]),
        },
        Kind::Val => match &m.out {
            Ok(_) => Md::ok(vec![first()]),
            Err(e) => Md::err(e.clone()),
        },
        Kind::List => Md::ok(m.values().to_vec()),
        Kind::One => Md::ok(vec![first()]),
        Kind::Log => Md { log: m.log.clone(), out: Ok(vec![first()]) },
    }
}
pub fn eval_t(k: Kind, p: &Pr, env: &Env, r: &Ev) -> Md<S> {
    match p {
        P::Pure(v) => Md::ok(vec![v.eval(env)]),
        P::Prim(A::Ask(_)) => Md::ok(vec![shown(r)]),
        P::Prim(A::Asks(_, f)) => Md::ok(vec![run1(f, &shown(r))]),
        P::Prim(A::Kl(f)) => kl_md(k, f, &shown(r)),
        P::Prim(A::Lift(m)) => fit(k, m),
        P::Map(f, p) => eval_t(k, p, env, r).map(|a| run1(f, a)),
        P::Bind(p, salt, ks) => eval_t(k, p, env, r).bind(|a| {
            emit(format!("k {a}"));
            eval_t(k, P::pick(ks, *salt, a), &push(env, a.clone()), r)
        }),
        P::U(f, p) => eval_t(k, p, env, &chg(f, r.clone())),
        P::B(_, f, p, q) => {
            let a = eval_t(k, p, env, r);
            let b = eval_t(k, q, env, r);
            a.ap(&b, k == Kind::Val, |a, b| run2(f, a, b))
        }
    }
}
fn plain_prims() -> BoxedStrategy<A> {
    prop_oneof![2 => any::<u8>().prop_map(A::Ask), 3 => (any::<u8>(), fun()).prop_map(|(n, f)| A::Asks(n, f))].boxed()
}
/// Chains of steps that mostly succeed, once.
fn t_chain() -> BoxedStrategy<Pr> {
    let prims = prop_oneof![40 => plain_prims(), 1 => prop::collection::vec(val(), 1..4).prop_map(Md::err).prop_map(A::Lift), 1 => (prop::collection::vec(val(), 0..3), val()).prop_map(|(log, v)| A::Lift(Md { log, out: Ok(vec![v]) }))].boxed();
    chain(prims, Some(fun()), Some(any::<u8>().boxed()), 100)
}
pub fn t_prog() -> BoxedStrategy<Pr> {
    let lifted = prop_oneof![
        2 => prop::collection::vec(val(), 0..4).prop_map(Md::ok),
        1 => prop::collection::vec(val(), 1..4).prop_map(Md::err),
        1 => (prop::collection::vec(val(), 0..3), val()).prop_map(|(log, v)| Md { log, out: Ok(vec![v]) }),
    ];
    prog(
        prop_oneof![
            2 => any::<u8>().prop_map(A::Ask),
            3 => (any::<u8>(), fun()).prop_map(|(n, f)| A::Asks(n, f)),
            2 => kl().prop_map(A::Kl),
            1 => lifted.prop_map(A::Lift),
        ]
        .boxed(),
        Some(fun()),
        Some(any::<u8>().boxed()),
    )
}
fn check_t<M: Base>(p: &Pr, r: &Ev, obs: &mut Obs) -> Res {
    trace();
    let want = eval_t(M::KIND, p, &env0(), r);
    let want_tr = trace();
    obs.nontrivial(locals(p) && !want.values().is_empty());
    obs.tag_if(!want.is_ok(), "fails");
    obs.tag_if(want.values().len() > 1, "several results");
    let t = build_t::<M>(p, &env0());
    ensure_eq!(trace(), Vec::<S>::new(), "functions run while building");
    ensure_eq!(t.run_reader(r.clone()).view(), want, "run_reader");
    let tr = trace();
    // (an accumulating bind may stop at the first failure: compare what ran only for one outcome)
    if M::KIND != Kind::List && M::KIND != Kind::Val {
        ensure_eq!(tr, want_tr, "functions run, in order");
    }
    ensure_eq!(t.clone().run_reader(r.clone()).view(), want, "run_reader of a clone, second run");
    ensure_eq!(t.unwrap_with(r.clone()).view(), want, "unwrap_with");
    trace();
    Ok(())
}

fn main() {
    let mut s = Suite::new("C18");
    s.assume("programs are closed terms over the primitives, run on one thread; ReaderT::apply cannot be called with the library's own containers (its bounds need a base whose element type is a function on itself)");
    s.check(
        "reader/programs",
        "the environment is read both under and outside a local change, or at least under one, by dependent steps",
        60_000,
        || (prop_oneof![60 => prog(plain_prims(), Some(fun()), Some(any::<u8>().boxed())), 1 => chain(plain_prims(), Some(fun()), Some(any::<u8>().boxed()), 120)], ev(), ev()),
        |(p, e1, e2), obs| {
            obs.nontrivial(locals(p));
            obs.tag_if(p.size() > 8, "more than 8 steps");
            trace();
            let rd = build(p, &env0());
            ensure_eq!(trace(), Vec::<S>::new(), "functions run while building");
            for (e, rd) in [(e1, &rd), (e2, &rd), (e1, &rd.clone())] {
                let want = eval(p, &env0(), e);
                let tr = trace();
                ensure_eq!(rd.run_reader(e.clone()), want, "run_reader on {e:?}");
                ensure_eq!(trace(), tr, "functions run, in order");
            }
            let rd2 = rd.clone();
            let t: ReaderT<Ev, Id<S>, S> = ReaderT::new(move |e| Id::new(rd2.run_reader(e)));
            ensure_eq!(Reader::from(t).run_reader(e1.clone()), eval(p, &env0(), e1), "From<ReaderT>");
            trace();
            Ok(())
        },
    );
    s.check(
        "reader/laws",
        "the computation reads the environment under a local change",
        20_000,
        || {
            let pr = || prog(prop_oneof![any::<u8>().prop_map(A::Ask), (any::<u8>(), fun()).prop_map(|(n, f)| A::Asks(n, f))].boxed(), Some(fun()), Some(any::<u8>().boxed()));
            (pr(), pr(), pr(), val(), fun(), fun(), ev())
        },
        |(p, k, l, x, f, g, e), obs| {
            obs.nontrivial(locals(p));
            let kk = |k: &Pr| {
                let k = k.clone();
                move |a: S| build(&k, &Arc::new(vec![a]))
            };
            let run = |r: Rd| {
                trace();
                let v = r.run_reader(e.clone());
                (v, trace())
            };
            let m = build(p, &env0());
            let pure = |x: S| Rd::new(move |_| x.clone());
            ensure_eq!(run(pure(x.clone()).bind(kk(k))), run(kk(k)(x.clone())), "left identity");
            ensure_eq!(run(m.bind(pure)), run(m.clone()), "right identity");
            let (k2, l2) = (k.clone(), l.clone());
            ensure_eq!(
                run(m.bind(kk(k)).bind(kk(l))),
                run(m.bind(move |a: S| {
                    let l2 = l2.clone();
                    build(&k2, &Arc::new(vec![a])).bind(move |a: S| build(&l2, &Arc::new(vec![a])))
                })),
                "associativity"
            );
            // local changes compose outermost first, and do not leak
            let (f1, g1, f2, g2, f3, f4) = (f.clone(), g.clone(), f.clone(), g.clone(), f.clone(), f.clone());
            ensure_eq!(run(m.local(move |e| chg(&f1, e)).local(move |e| chg(&g1, e))), run(m.local(move |e| chg(&f2, chg(&g2, e)))), "nested local changes");
            let r = m.local(move |e| chg(&f3, e)).bind(|_| Rd::ask());
            ensure_eq!(r.run_reader(e.clone()), shown(e), "the environment after a local change");
            let r = Rd::ask().local(move |e| chg(&f4, e)).combine(&Rd::ask(), |a, b| format!("{a}|{b}"));
            ensure_eq!(r.run_reader(e.clone()), format!("{}|{}", shown(&chg(f, e.clone())), shown(e)), "one operand under a local change");
            trace();
            Ok(())
        },
    );
    macro_rules! t {
        ($name:literal, $C:ident, $n:literal) => {
            s.check(concat!("transformer/", $name, "/long"), "the environment is read under a local change, by dependent steps, and there is a result", 300, || (t_chain(), ev()), |(p, e), obs| check_t::<$C<S>>(p, e, obs));
            s.check(concat!("transformer/", $name), "the environment is read under a local change, by dependent steps, and there is a result", $n, || (t_prog(), ev()), |(p, e), obs| check_t::<$C<S>>(p, e, obs));
        };
    }
    t!("option", COpt, 15_000);
    t!("result", CRes, 15_000);
    t!("maybe", CMay, 10_000);
    t!("either", CEi, 10_000);
    t!("validated", CVal, 15_000);
    t!("choice", CCh, 15_000);
    t!("id", CId, 10_000);
    t!("writer", CWr, 15_000);
    s.check(
        "transformer/fallible",
        "the environment is read under a local change, by dependent steps",
        25_000,
        || (t_prog(), ev(), val()),
        |(p, e, ctx), obs| {
            let want = match eval_t(Kind::Res, p, &env0(), e).out {
                Ok(v) => Ok(v[0].clone()),
                Err(e) => Err(e[0].clone()),
            };
            obs.nontrivial(locals(p));
            obs.tag_if(want.is_err(), "fails");
            let t = build_t::<Result<S, S>>(p, &env0());
            let evr = |r: Result<S, ComposableError<S>>| r.map_err(|e| (e.core_error().clone(), e.context(), e.error_code()));
            let w = |c: Vec<S>| want.clone().map_err(|e| (e, c, None));
            ensure_eq!(evr(t.try_run_reader(e.clone())), w(vec![]), "try_run_reader");
            ensure_eq!(evr(t.try_run_reader_with_context(e.clone(), ctx.clone())), w(vec![ctx.clone()]), "try_run_reader_with_context");
            ensure_eq!(evr(t.try_run_reader_with_context(e.clone(), ErrorContext::new(ctx.as_str()))), w(vec![ctx.clone()]), "try_run_reader_with_context");
            ensure_eq!(t.map_error(|e: S| e.len()).run_reader(e.clone()), want.clone().map_err(|e| e.len()), "map_error");
            trace();
            Ok(())
        },
    );
    s.main();
}
