//! C20: IO.
use proptest::prelude::*;
use rustica::datatypes::io::{IOError, IO};
use rustica::error::ComposableError;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};
use vharness::prog::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum A {
    Effect(S),
    /// panics with a formatted string, a literal, or a value that is no string
    Panic(u8, S),
    When(Pred, S),
    Delay(S),
    /// what it does depends on how many of its kind ran before it
    Tick(u8, S),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum U {
    RecoverWith(V),
    /// recovery by a program that sees the error message
    Recover(Box<Pr>),
    /// mapping by a function that panics on some values
    MapPanic(Pred, S),
    Sequence(u8),
    Clone,
    New,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum B {
    Apply,
    Combine,
    Sequence,
}
pub type Pr = P<A, U, B>;
thread_local! {
    /// How many effects of the kind `Tick` this thread has run.
    static WORLD: Cell<usize> = const { Cell::new(0) };
}
fn tick() -> usize {
    WORLD.with(|w| w.replace(w.get() + 1))
}
fn holds(n: u8, t: usize) -> bool {
    (n as usize >> (t % 8)) & 1 == 1
}
const LITERALS: [&str; 2] = ["boom", "bang"];
const FUTURE_FAILS: &str = "the future fails";
const UNKNOWN: &str = "IO operation panicked with unknown error";
fn blow(n: u8, s: &S) -> ! {
    match n % 4 {
        0 => panic!("{s}"),
        1 => panic!("boom"),
        2 => std::panic::panic_any(LITERALS[1]),
        _ => std::panic::panic_any(17u32),
    }
}
fn blown(n: u8, s: &S) -> S {
    match n % 4 {
        0 => s.clone(),
        1 => LITERALS[0].into(),
        2 => LITERALS[1].into(),
        _ => UNKNOWN.into(),
    }
}
fn message(e: &ComposableError<IOError>) -> S {
    match e.core_error() {
        IOError::Other(m) => m.clone(),
        o => format!("unexpected error {o:?}"),
    }
}

pub fn build(p: &Pr, env: &Env) -> IO<S> {
    match p {
        P::Pure(v) => IO::pure(v.eval(env)),
        P::Prim(A::Effect(s)) => {
            let s = s.clone();
            IO::new(move || {
                emit(format!("effect {s}"));
                format!("v{s}")
            })
        }
        P::Prim(A::Panic(n, s)) => {
            let (n, s) = (*n, s.clone());
            IO::new(move || {
                emit(format!("panic {s}"));
                blow(n, &s)
            })
        }
        P::Prim(A::When(c, s)) => {
            let (c, s, t, u) = (c.clone(), s.clone(), s.clone(), s.clone());
            IO::when(
                move || {
                    emit("condition");
                    c.ok(&s)
                },
                move || {
                    emit("computation");
                    format!("c{t}")
                },
                move || {
                    emit("default");
                    format!("d{u}")
                },
            )
        }
        P::Prim(A::Delay(s)) => IO::delay_sync(Duration::from_nanos(1), s.clone()),
        P::Prim(A::Tick(n, s)) => {
            let (n, s) = (*n, s.clone());
            let run = move || {
                let t = tick();
                emit(format!("tick {t}"));
                if holds(n, t) && n % 2 == 0 {
                    blow(n >> 1, &s)
                }
                format!("{t}{s}")
            };
            if n % 3 == 0 {
                let (no, m) = (run.clone(), n / 3);
                IO::when(
                    move || holds(m, tick()),
                    run,
                    move || {
                        emit("otherwise");
                        no()
                    },
                )
            } else {
                IO::new(run)
            }
        }
        P::Map(f, p) => {
            let f = f.clone();
            build(p, env).fmap(move |a: S| run1(&f, &a))
        }
        P::Bind(p, salt, ks) => {
            let (ks, salt, e) = (ks.clone(), *salt, env.clone());
            build(p, env).bind(move |a: S| {
                emit(format!("k {a}"));
                build(P::pick(&ks, salt, &a), &push(&e, a))
            })
        }
        P::U(U::RecoverWith(v), p) => build(p, env).recover_with(v.eval(env)),
        P::U(U::Recover(q), p) => {
            let (q, e) = (q.clone(), env.clone());
            build(p, env).recover(move |err| {
                emit(format!("recover {} {}", message(&err), err.context().len()));
                build(&q, &push(&e, message(&err)))
            })
        }
        P::U(U::MapPanic(c, s), p) => {
            let (c, s) = (c.clone(), s.clone());
            build(p, env).fmap(move |a: S| {
                emit(format!("check {a}"));
                if c.ok(&a) {
                    panic!("{s}{a}")
                }
                a
            })
        }
        P::U(U::Sequence(n), p) => {
            let io = build(p, env);
            IO::sequence((0..n % 4).map(|_| io.clone()).collect::<Vec<_>>()).fmap(|v: Vec<S>| v.join(";"))
        }
        P::U(U::Clone, p) => {
            let io = build(p, env);
            io.clone()
        }
        P::U(U::New, p) => {
            let io = build(p, env);
            IO::new(move || io.run())
        }
        P::B(b, f, p, q) => {
            let (x, y) = operands(p, q, |p| build(p, env));
            let f = f.clone();
            match b {
                B::Apply => {
                    let fs = y.fmap(move |b: S| {
                        let f = f.clone();
                        move |a: S| run2(&f, &a, &b)
                    });
                    x.apply(fs)
                }
                B::Combine => IO::<S>::combine(&x, &y).fmap(move |(a, b)| run2(&f, &a, &b)),
                B::Sequence => IO::sequence([x, y]).fmap(move |v: Vec<S>| run2(&f, &v[0], &v[1])),
            }
        }
    }
}

/// The reference: a plain value, or an effect that may panic with a message.
#[derive(Clone)]
pub enum M {
    Pure(S),
    Eff(Rc<dyn Fn() -> Result<S, S>>),
}
impl M {
    fn eff(f: impl Fn() -> Result<S, S> + 'static) -> M {
        M::Eff(Rc::new(f))
    }
    pub fn run(&self) -> Result<S, S> {
        match self {
            M::Pure(s) => Ok(s.clone()),
            M::Eff(f) => f(),
        }
    }
    fn map(self, f: impl Fn(S) -> Result<S, S> + 'static) -> Result<M, S> {
        Ok(match self {
            M::Pure(s) => M::Pure(f(s)?),
            M::Eff(g) => M::eff(move || g().and_then(&f)),
        })
    }
}
pub fn model(p: &Pr, env: &Env) -> Result<M, S> {
    Ok(match p {
        P::Pure(v) => M::Pure(v.eval(env)),
        P::Prim(A::Effect(s)) => {
            let s = s.clone();
            M::eff(move || {
                emit(format!("effect {s}"));
                Ok(format!("v{s}"))
            })
        }
        P::Prim(A::Panic(n, s)) => {
            let (n, s) = (*n, s.clone());
            M::eff(move || {
                emit(format!("panic {s}"));
                Err(blown(n, &s))
            })
        }
        P::Prim(A::When(c, s)) => {
            let (c, s) = (c.clone(), s.clone());
            M::eff(move || {
                emit("condition");
                Ok(if c.ok(&s) {
                    emit("computation");
                    format!("c{s}")
                } else {
                    emit("default");
                    format!("d{s}")
                })
            })
        }
        P::Prim(A::Tick(n, s)) => {
            let (n, s) = (*n, s.clone());
            M::eff(move || {
                if n % 3 == 0 && !holds(n / 3, tick()) {
                    emit("otherwise");
                }
                let t = tick();
                emit(format!("tick {t}"));
                if holds(n, t) && n % 2 == 0 {
                    return Err(blown(n >> 1, &s));
                }
                Ok(format!("{t}{s}"))
            })
        }
        P::Prim(A::Delay(s)) => {
            let s = s.clone();
            M::eff(move || Ok(s.clone()))
        }
        P::Map(f, p) => {
            let f = f.clone();
            model(p, env)?.map(move |a| Ok(run1(&f, &a)))?
        }
        P::Bind(p, salt, ks) => {
            let (ks, salt, e) = (ks.clone(), *salt, env.clone());
            let k = move |a: S| {
                emit(format!("k {a}"));
                model(P::pick(&ks, salt, &a), &push(&e, a))
            };
            match model(p, env)? {
                M::Pure(s) => k(s)?,
                M::Eff(g) => M::eff(move || k(g()?)?.run()),
            }
        }
        P::U(U::RecoverWith(v), p) => {
            let (m, v) = (model(p, env)?, v.eval(env));
            M::eff(move || Ok(m.run().unwrap_or_else(|_| v.clone())))
        }
        P::U(U::Recover(q), p) => {
            let (m, q, e) = (model(p, env)?, q.clone(), env.clone());
            M::eff(move || {
                m.run().or_else(|msg| {
                    emit(format!("recover {msg} 0"));
                    model(&q, &push(&e, msg))?.run()
                })
            })
        }
        P::U(U::MapPanic(c, s), p) => {
            let (c, s) = (c.clone(), s.clone());
            model(p, env)?.map(move |a| {
                emit(format!("check {a}"));
                if c.ok(&a) {
                    Err(format!("{s}{a}"))
                } else {
                    Ok(a)
                }
            })?
        }
        P::U(U::Sequence(n), p) => {
            let (m, n) = (model(p, env)?, n % 4);
            M::eff(move || Ok((0..n).map(|_| m.run()).collect::<Result<Vec<_>, _>>()?.join(";")))
        }
        P::U(U::Clone, p) => model(p, env)?,
        P::U(U::New, p) => {
            let m = model(p, env)?;
            M::eff(move || m.run())
        }
        P::B(b, f, p, q) => {
            let x = model(p, env)?;
            let y = if p == q { x.clone() } else { model(q, env)? };
            let f = f.clone();
            match (b, x, y) {
                (B::Apply, M::Pure(a), M::Pure(b)) => M::Pure(run2(&f, &a, &b)),
                // the function is computed before its argument
                (B::Apply, x, y) => M::eff(move || {
                    let b = y.run()?;
                    let a = x.run()?;
                    Ok(run2(&f, &a, &b))
                }),
                (_, x, y) => M::eff(move || {
                    let a = x.run()?;
                    let b = y.run()?;
                    Ok(run2(&f, &a, &b))
                }),
            }
        }
    })
}
pub fn effects(p: &Pr) -> bool {
    p.any(&|p| matches!(p, P::Prim(A::Effect(_) | A::Panic(..) | A::When(..)))) && p.any(&|p| matches!(p, P::Bind(..) | P::B(..) | P::U(U::Recover(_) | U::Sequence(_), _)))
}
pub fn progs() -> BoxedStrategy<Pr> {
    progs_in(false)
}
/// Programs; in a changing world, what an effect does depends on those run before it.
fn progs_in(changing: bool) -> BoxedStrategy<Pr> {
    let prims = move || {
        prop_oneof![
            if changing { 12 } else { 0 } => (any::<u8>(), val()).prop_map(|(n, s)| A::Tick(n, s)),
            6 => val().prop_map(A::Effect),
            2 => (any::<u8>(), val()).prop_map(|(n, s)| A::Panic(n, s)),
            1 => (pred(), val()).prop_map(|(c, s)| A::When(c, s)),
            1 => val().prop_map(A::Delay),
        ]
        .boxed()
    };
    let bins = || Some(prop_oneof![2 => Just(B::Apply), 1 => Just(B::Combine), 1 => Just(B::Sequence)].boxed());
    let small: BoxedStrategy<Pr> = prop_oneof![
        prims().prop_map(P::Prim),
        vexp().prop_map(P::Pure),
        (fun(), prims()).prop_map(|(f, a)| P::Map(f, Box::new(P::Prim(a)))),
        (prims(), any::<u8>(), vexp()).prop_map(|(a, s, v)| P::Bind(Box::new(P::Prim(a)), s, vec![P::Pure(v)])),
    ]
    .boxed();
    let long = chain(
        prop_oneof![if changing { 1 } else { 6 } => val().prop_map(A::Effect), if changing { 6 } else { 1 } => prims()].boxed(),
        Some(
            prop_oneof![
                4 => val().prop_map(V::Lit).prop_map(U::RecoverWith),
                4 => small.clone().prop_map(|p| U::Recover(Box::new(p))),
                1 => (pred(), val()).prop_map(|(c, s)| U::MapPanic(c, s)),
                2 => Just(U::Clone),
                2 => Just(U::New),
            ]
            .boxed(),
        ),
        bins(),
        80,
    );
    let short = prog(
        prims(),
        Some(
            prop_oneof![
                2 => vexp().prop_map(U::RecoverWith),
                3 => small.prop_map(|p| U::Recover(Box::new(p))),
                2 => (pred(), val()).prop_map(|(c, s)| U::MapPanic(c, s)),
                1 => (0u8..4).prop_map(U::Sequence),
                1 => Just(U::Clone),
                1 => Just(U::New),
            ]
            .boxed(),
        ),
        bins(),
    );
    prop_oneof![100 => short, 1 => long].boxed()
}
pub fn env0() -> Env {
    Arc::new(vec![])
}
/// Everything a failed operation reports.
fn seen(r: Result<S, &ComposableError<IOError>>) -> Result<S, (S, Vec<S>, Option<u32>)> {
    r.map_err(|e| (message(e), e.context(), e.error_code()))
}
/// Run, turning a panic into its message.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, S> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| match e.downcast::<S>() {
        Ok(s) => *s,
        Err(e) => e.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or(UNKNOWN.into()),
    })
}

fn main() {
    let mut s = Suite::new("C20");
    s.assume("programs are closed terms over the operations; a concurrent run is compared with the sequential reference on its own thread");
    s.check(
        "programs",
        "at least one effect and one combination of steps",
        60_000,
        || (progs(), val()),
        |(p, ctx), obs| {
            obs.nontrivial(effects(p));
            trace();
            let m = model(p, &env0());
            let eager = trace();
            let io = caught(|| build(p, &env0()));
            ensure_eq!(trace(), eager, "functions run while building");
            let (m, io) = match (m, io) {
                (Ok(m), Ok(io)) => (m, io),
                (m, io) => {
                    ensure_eq!(io.err(), m.err(), "panic while building");
                    obs.tag("panics while building");
                    return Ok(());
                }
            };
            ensure_eq!(io.is_pure(), matches!(m, M::Pure(_)), "is_pure");
            ensure_eq!(io.is_effect(), !io.is_pure(), "is_effect");
            let want = m.run();
            let tr = trace();
            obs.tag_if(want.is_err(), "fails");
            obs.tag_if(tr.iter().any(|t| t.starts_with("recover")), "recovers");
            ensure_eq!(caught(|| io.run()), want, "run");
            ensure_eq!(trace(), tr, "effects, in order");
            let cl = io.clone();
            ensure_eq!(caught(|| cl.run()), want, "run of a clone, second run");
            ensure_eq!(trace(), tr, "effects of a clone, in order");
            drop(cl);
            let fail = |c: Vec<S>| want.clone().map_err(|e| (e, c, None));
            ensure_eq!(seen(io.try_get().as_ref().cloned()), fail(vec![]), "try_get");
            ensure_eq!(trace(), tr, "effects of try_get");
            ensure_eq!(seen(io.try_get_with_context(ctx.clone()).as_ref().cloned()), fail(vec![ctx.clone()]), "try_get_with_context");
            ensure_eq!(trace(), tr, "effects of try_get_with_context");
            ensure_eq!(seen(io.try_get_composable().as_ref().cloned().map_err(|e| &**e)), fail(vec![]), "try_get_composable");
            ensure_eq!(trace(), tr, "effects of try_get_composable");
            ensure_eq!(seen(io.try_get_composable_with_context(ctx.as_str()).as_ref().cloned().map_err(|e| &**e)), fail(vec![ctx.clone()]), "try_get_composable_with_context");
            ensure_eq!(trace(), tr, "effects of try_get_composable_with_context");
            let r = io.clone().into_error_pipeline().map_error(|e| message(&e)).finish_without_box();
            ensure_eq!(r.map_err(|e| e.core_error().clone()), want, "into_error_pipeline");
            ensure_eq!(trace(), tr, "effects of into_error_pipeline");
            if let Ok(v) = &want {
                ensure_eq!(io.evaluate(), v.clone(), "evaluate");
                ensure_eq!(io.clone().evaluate_owned(), v.clone(), "evaluate_owned");
                ensure_eq!(io.filter_evaluate(|x| x == v), Some(v.clone()), "filter_evaluate");
                trace();
            }
            // recovery around the whole program
            let r = io.clone().recover_with(ctx.clone());
            ensure_eq!(trace(), Vec::<S>::new(), "effects of adding recovery");
            ensure_eq!(caught(|| r.run()), Ok(want.clone().unwrap_or_else(|_| ctx.clone())), "recover_with");
            ensure_eq!(trace(), tr, "effects of recover_with");
            Ok(())
        },
    );
    s.check(
        "changing",
        "the runs give at least two different outcomes",
        30_000,
        || (progs_in(true), list(any::<u8>(), 6, 12), 0usize..4),
        |(p, how, start), obs| {
            trace();
            let (m, io) = match (model(p, &env0()), caught(|| build(p, &env0()))) {
                (Ok(m), Ok(io)) => (m, io),
                (m, io) => {
                    ensure_eq!(io.err(), m.err(), "panic while building");
                    return Ok(());
                }
            };
            trace();
            WORLD.set(*start);
            let wants: Vec<_> = (0..how.len() + 2).map(|_| (m.run(), trace(), WORLD.get())).collect();
            obs.nontrivial(wants.iter().any(|w| w.0 != wants[0].0));
            obs.tag_if(wants.iter().any(|w| w.0.is_ok()) && wants.iter().any(|w| w.0.is_err()), "fails in some runs only");
            WORLD.set(*start);
            // all of these run the operation anew, whatever was done with it before
            let copy = io.clone();
            let wrapped = { let io = io.clone(); IO::new(move || io.run()) };
            let (mapped, bound) = { (io.clone().fmap(|a| a), io.clone().bind(IO::pure)) };
            let mut n = 0;
            let mut check = |what: &str, got: Result<S, S>| {
                let got = (got, trace(), WORLD.get());
                ensure_eq!(got, wants[n], "{what}, run {n}");
                n += 1;
                Ok(())
            };
            trace();
            WORLD.set(*start);
            check("run", caught(|| io.run()))?;
            for h in how {
                let msg = |e: &ComposableError<IOError>| message(e);
                match h % 9 {
                    0 => check("run", caught(|| io.run())),
                    1 => check("run of a copy", caught(|| copy.run())),
                    2 => check("run of a fresh copy", caught(|| io.clone().run())),
                    3 => check("try_get", io.try_get().map_err(|e| msg(&e))),
                    4 => check("try_get_composable", io.try_get_composable().map_err(|e| msg(&e))),
                    5 => check("run of a wrapper", caught(|| wrapped.run())),
                    6 => check("run of a mapped copy", caught(|| mapped.run())),
                    7 => check("run of a bound copy", caught(|| bound.run())),
                    _ => check("try_get_with_context", copy.try_get_with_context(S::new()).map_err(|e| msg(&e))),
                }?
            }
            check("run", caught(|| io.run()))
        },
    );
    s.check(
        "laws",
        "at least one effect and one combination of steps",
        20_000,
        || (progs(), progs(), progs(), val(), fun()),
        |(p, k, l, x, f), obs| {
            obs.nontrivial(effects(p));
            let env = |a: S| Arc::new(vec![a]);
            // what building and running does
            let whole = |f: &dyn Fn() -> IO<S>| {
                trace();
                let r = caught(|| f().run());
                (r, trace())
            };
            ensure_eq!(
                whole(&|| {
                    let k = k.clone();
                    IO::pure(x.clone()).bind(move |a: S| build(&k, &env(a)))
                }),
                whole(&|| build(k, &env(x.clone()))),
                "left identity"
            );
            ensure_eq!(whole(&|| build(p, &env0()).bind(IO::pure)), whole(&|| build(p, &env0())), "right identity");
            ensure_eq!(
                whole(&|| {
                    let (k, l) = (k.clone(), l.clone());
                    build(p, &env0()).bind(move |a: S| build(&k, &env(a))).bind(move |a: S| build(&l, &env(a)))
                }),
                whole(&|| {
                    let (k, l) = (k.clone(), l.clone());
                    build(p, &env0()).bind(move |a: S| {
                        let l = l.clone();
                        build(&k, &env(a)).bind(move |a: S| build(&l, &env(a)))
                    })
                }),
                "associativity"
            );
            ensure_eq!(
                whole(&|| {
                    let f = f.clone();
                    build(p, &env0()).fmap(move |a| f.ap(&a))
                }),
                whole(&|| {
                    let f = f.clone();
                    build(p, &env0()).bind(move |a| IO::pure(f.ap(&a)))
                }),
                "mapping is binding a lifted function"
            );
            Ok(())
        },
    );
    s.check(
        "batch",
        "at least two operations, one of which fails",
        30_000,
        || (prop_oneof![4 => list((prop::bool::weighted(0.6), any::<u8>(), val()), 9, 60), 1 => list((prop::bool::weighted(0.95), any::<u8>(), val()), 9, 60)], prop::bool::ANY),
        |(ops, pure), obs| {
            let fails = ops.iter().filter(|o| !o.0).count();
            obs.nontrivial(ops.len() > 1 && fails > 0);
            obs.tag_if(fails > 4, "more than four failures");
            let ios = || {
                ops.iter()
                    .map(|(ok, n, s)| {
                        let (ok, n, s) = (*ok, *n, s.clone());
                        if ok && *pure && n % 3 == 0 {
                            return IO::pure(s);
                        }
                        IO::new(move || {
                            emit(format!("run {s}"));
                            if !ok {
                                blow(n, &s)
                            }
                            s.clone()
                        })
                    })
                    .collect::<Vec<_>>()
            };
            let runs: Vec<S> = ops.iter().filter(|(ok, n, _)| !(*ok && *pure && n % 3 == 0)).map(|o| format!("run {}", o.2)).collect();
            let want: Result<Vec<S>, Vec<S>> = if fails == 0 { Ok(ops.iter().map(|o| o.2.clone()).collect()) } else { Err(ops.iter().filter(|o| !o.0).map(|(_, n, s)| blown(*n, s)).collect()) };
            trace();
            let got = IO::sequence_composable(ios()).map_err(|e| e.iter().map(|e| message(e)).collect::<Vec<_>>());
            ensure_eq!(got, want, "sequence_composable");
            ensure_eq!(trace(), runs, "effects of sequence_composable");
            let seq = IO::sequence(ios());
            ensure_eq!(trace(), Vec::<S>::new(), "effects of building a sequence");
            ensure_eq!(caught(|| seq.run()), want.map_err(|e| e[0].clone()), "sequence");
            let upto = ops.iter().position(|o| !o.0).map(|i| ops[..=i].iter().filter(|(ok, n, _)| !(*ok && *pure && n % 3 == 0)).count()).unwrap_or(runs.len());
            ensure_eq!(trace(), runs[..upto].to_vec(), "effects of sequence");
            Ok(())
        },
    );
    s.check(
        "threads",
        "at least one effect and one combination of steps",
        1_500,
        || (progs(), 2usize..5),
        |(p, n), obs| {
            obs.nontrivial(effects(p));
            let Ok(m) = model(p, &env0()) else { return Ok(()) };
            trace();
            let want = m.run();
            let tr = trace();
            let io = Arc::new(build(p, &env0()));
            let start = Arc::new(Barrier::new(*n));
            let hs: Vec<_> = (0..*n)
                .map(|i| {
                    let (io, start) = (io.clone(), start.clone());
                    std::thread::spawn(move || {
                        start.wait();
                        (0..3).map(|j| {
                            let io = if (i + j) % 2 == 0 { (*io).clone() } else { io.fmap(|a| a) };
                            trace();
                            let r = caught(|| io.run());
                            (r, trace())
                        }).collect::<Vec<_>>()
                    })
                })
                .collect();
            for h in hs {
                for got in h.join().map_err(|_| Fail::with_sig("threads", "a runner panicked"))? {
                    ensure_eq!(got, (want.clone(), tr.clone()), "a concurrent run");
                }
            }
            Ok(())
        },
    );
    s.check(
        "async",
        "several concurrent callers, or a future that suspends",
        800,
        || (val(), 1usize..6, 0u32..4, prop::bool::ANY, prop::bool::ANY, fun(), prop::bool::weighted(0.1)),
        |(v, n, yields, sleep, via_async, f, fails), obs| {
            obs.nontrivial(*n > 1 || *yields > 0 || *sleep);
            obs.tag_if(*fails, "the future panics");
            let runs = Arc::new(AtomicUsize::new(0));
            let maps = Arc::new(AtomicUsize::new(0));
            let (r2, m2, v2, f2, yields, sleep, fails) = (runs.clone(), maps.clone(), v.clone(), f.clone(), *yields, *sleep, *fails);
            let io = IO::new_async(async move {
                r2.fetch_add(1, SeqCst);
                for _ in 0..yields {
                    tokio::task::yield_now().await;
                }
                if sleep {
                    tokio::time::sleep(Duration::from_micros(200)).await;
                }
                if fails {
                    panic!("{FUTURE_FAILS}")
                }
                v2
            });
            let mapped = io.fmap(move |a: S| {
                m2.fetch_add(1, SeqCst);
                f2.ap(&a)
            });
            ensure!(io.is_effect() && mapped.is_effect(), "an asynchronous computation is a plain value");
            ensure_eq!(runs.load(SeqCst), 0, "runs before the first run");
            let start = Arc::new(Barrier::new(*n));
            let hs: Vec<_> = (0..*n)
                .map(|i| {
                    let (io, mapped, start, via) = (io.clone(), mapped.clone(), start.clone(), *via_async);
                    std::thread::spawn(move || {
                        start.wait();
                        let mapped_too = i % 2 == 0;
                        let io = if mapped_too { mapped } else { io };
                        let r = if via && !fails {
                            let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                            Ok(rt.block_on(io.run_async()))
                        } else {
                            io.try_get().map_err(|e| message(&e))
                        };
                        (mapped_too, r)
                    })
                })
                .collect();
            let mut told = 0;
            for h in hs {
                let (mapped, r) = h.join().map_err(|_| Fail::with_sig("async", "a caller of an asynchronous computation panicked"))?;
                told += usize::from(r.as_ref().is_err_and(|m| m == FUTURE_FAILS));
                if fails {
                    ensure!(r.is_err(), "a failing future gave {r:?}");
                } else {
                    ensure_eq!(r, Ok(if mapped { f.ap(v) } else { v.clone() }), "a caller's value");
                }
            }
            ensure_eq!(runs.load(SeqCst), 1, "runs of the future");
            if fails {
                ensure!(told > 0, "no caller was told why the future failed");
                ensure!(io.try_get().is_err(), "a run after the future failed");
                ensure_eq!(runs.load(SeqCst), 1, "runs of a failed future after a later run");
            } else {
                ensure_eq!(maps.load(SeqCst), n.div_ceil(2), "runs of the mapped function");
                ensure_eq!(io.run(), v.clone(), "a later run");
                ensure_eq!(runs.load(SeqCst), 1, "runs of the future after a later run");
                let d = IO::delay(Duration::from_micros(50), v.clone());
                ensure_eq!((d.run(), d.clone().run()), (v.clone(), v.clone()), "delay");
            }
            Ok(())
        },
    );
    s.check(
        "run-async",
        "at least one effect and one combination of steps",
        1_500,
        progs,
        |p, obs| {
            obs.nontrivial(effects(p));
            let Ok(m) = model(p, &env0()) else { return Ok(()) };
            let Ok(want) = m.run() else { return Ok(()) };
            trace();
            let io = build(p, &env0());
            let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
            ensure_eq!(rt.block_on(io.run_async()), want, "run_async");
            ensure_eq!(rt.block_on(async { tokio::join!(io.run_async(), io.run_async()) }), (want.clone(), want), "run_async twice at once");
            trace();
            Ok(())
        },
    );
    s.check(
        "run-async/effects",
        "an effect panics after another one",
        1_500,
        || (prop::collection::vec((val(), prop::bool::weighted(0.2), 0u8..4), 1..6), 1usize..4, any::<bool>()),
        |(steps, callers, joined), obs| {
            let log: Arc<Mutex<Vec<S>>> = Default::default();
            let effect = |(s, bad, _): &(S, bool, u8)| {
                let (log, s, bad) = (log.clone(), s.clone(), *bad);
                move || {
                    log.lock().unwrap().push(s.clone());
                    if bad {
                        panic!("{s}");
                    }
                    s.clone()
                }
            };
            let mut io = IO::new(effect(&steps[0]));
            for st in &steps[1..] {
                let e = effect(st);
                io = match st.2 {
                    0 => io.bind(move |_| IO::new(e.clone())),
                    1 => io.fmap(move |_| e()),
                    2 => IO::combine(&io, &IO::new(e)).fmap(|(_, b)| b),
                    _ => IO::sequence([io, IO::new(e)]).fmap(|v| v[1].clone()),
                };
            }
            let want: Vec<S> = steps.iter().map(|s| s.0.clone()).take(steps.iter().position(|s| s.1).map_or(steps.len(), |i| i + 1)).collect();
            let fails = steps.iter().any(|s| s.1);
            obs.nontrivial(fails && want.len() > 1);
            ensure_eq!(*log.lock().unwrap(), Vec::<S>::new(), "effects while building");
            let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
            for _ in 0..*callers {
                let r = caught(|| rt.block_on(io.run_async()));
                ensure_eq!(std::mem::take(&mut *log.lock().unwrap()), want, "effects of run_async, in order");
                ensure_eq!(r.ok(), (!fails).then(|| steps[steps.len() - 1].0.clone()), "the value of run_async");
            }
            if *joined && !fails {
                let (a, b) = rt.block_on(async { tokio::join!(io.run_async(), io.run_async()) });
                ensure!(a == b, "two runs at once differ");
                let mut all = std::mem::take(&mut *log.lock().unwrap());
                let mut twice = [&want[..], &want[..]].concat();
                all.sort();
                twice.sort();
                ensure_eq!(all, twice, "effects of two runs at once");
            }
            Ok(())
        },
    );
    s.check(
        "run-async/alongside",
        "an action that waits for something that happens after it was started",
        300,
        || (prop::collection::vec((0u8..3, any::<bool>(), val(), fun()), 1..5), 0usize..3),
        |(acts, unpolled), obs| {
            obs.nontrivial(acts.iter().any(|a| a.0 > 0));
            let runs: Arc<Mutex<Vec<usize>>> = Default::default();
            // each action may wait for the next one (in a circle: the last one for none), or for a task of the same runtime
            let gates: Vec<_> = acts.iter().map(|_| std::sync::mpsc::channel::<()>()).collect();
            let (tx, rx): (Vec<_>, Vec<_>) = gates.into_iter().map(|(t, r)| (t, Arc::new(Mutex::new(r)))).unzip();
            let ios: Vec<IO<Option<S>>> = acts
                .iter()
                .enumerate()
                .map(|(i, (waits, mapped, v, f))| {
                    let (waits, v, f, runs, rx) = (*waits, v.clone(), f.clone(), runs.clone(), rx[i].clone());
                    let before = (i > 0 && acts[i - 1].0 == 1).then(|| tx[i - 1].clone());
                    let wait = move || {
                        runs.lock().unwrap().push(i);
                        if let Some(t) = &before {
                            let _ = t.send(());
                        }
                        waits == 0 || rx.lock().unwrap().recv_timeout(Duration::from_secs(10)).is_ok()
                    };
                    if *mapped {
                        IO::new(wait).fmap(move |ok| ok.then(|| f.ap(&v)))
                    } else {
                        IO::pure(f.ap(&v)).bind(move |a| {
                            let w = wait.clone();
                            IO::new(move || w().then(|| a.clone()))
                        })
                    }
                })
                .collect();
            let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
            rt.block_on(async {
                for io in ios.iter().cycle().take(*unpolled) {
                    drop(io.run_async());
                }
            });
            ensure_eq!(*runs.lock().unwrap(), Vec::<usize>::new(), "effects of asynchronous runs that were never awaited");
            let got = rt.block_on(async {
                let all: Vec<_> = ios.iter().map(|io| { let io = io.clone(); tokio::spawn(async move { io.run_async().await }) }).collect();
                tokio::task::yield_now().await;
                for (t, a) in tx.iter().zip(acts) {
                    if a.0 == 2 {
                        let _ = t.send(());
                    }
                }
                // the last action has none to wait for
                if acts[acts.len() - 1].0 == 1 {
                    let _ = tx[acts.len() - 1].send(());
                }
                let mut got = vec![];
                for h in all {
                    got.push(h.await.ok().flatten());
                }
                got
            });
            for (i, (g, a)) in got.into_iter().zip(acts).enumerate() {
                ensure_eq!(g, Some(a.3.ap(&a.2)), "the value of action {i}; a run that waits must leave the others free to go on");
            }
            let mut order = runs.lock().unwrap().clone();
            order.sort();
            ensure_eq!(order, (0..acts.len()).collect::<Vec<_>>(), "runs of the actions");
            Ok(())
        },
    );
    s.check(
        "delays",
        "a delay of more than nothing",
        200,
        || (val(), prop_oneof![Just(0u64), 1u64..2_000, 2_000u64..8_000], any::<bool>(), prop::collection::vec(any::<bool>(), 1..4), fun()),
        |(v, micros, early, forms, f), obs| {
            obs.nontrivial(*micros > 0);
            let wait = Duration::from_micros(*micros);
            for form in forms {
                let start = Instant::now();
                let d = if *form { IO::delay_sync(wait, v.clone()) } else { IO::delay(wait, v.clone()) };
                let (g, calls) = (f.clone(), Arc::new(AtomicUsize::new(0)));
                let n = calls.clone();
                let m = d.fmap(move |x| {
                    n.fetch_add(1, SeqCst);
                    g.ap(&x)
                });
                let built = start.elapsed();
                ensure_eq!(calls.load(SeqCst), 0, "calls of a function mapped over a delay of {wait:?}, before a run");
                if *early {
                    // time that passes before the run does not count
                    std::thread::sleep(wait);
                }
                let start = Instant::now();
                ensure_eq!(m.run(), f.ap(v), "the mapped value of a delay");
                ensure!(start.elapsed() >= wait, "a run of a delay of {wait:?} took {:?} (building it took {built:?})", start.elapsed());
                let start = Instant::now();
                ensure_eq!(d.run(), v.clone(), "the value of a delay");
                if *form {
                    ensure!(start.elapsed() >= wait, "a second run of a delay of {wait:?} took {:?}", start.elapsed());
                }
            }
            Ok(())
        },
    );
    s.main();
}
