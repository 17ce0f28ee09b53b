//! C19: writer computations.
use proptest::prelude::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::id::Id;
use rustica::datatypes::wrapper::first::First;
use rustica::datatypes::wrapper::last::Last;
use rustica::datatypes::wrapper::product::Product;
use rustica::datatypes::wrapper::sum::Sum;
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::applicative::Applicative;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monoid::Monoid;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::Semigroup;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::sync::Arc;
use vharness::cont::Cat;
use vharness::ensure_eq;
use vharness::prog::*;
use vharness::runner::*;
use vharness::sym::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum A {
    /// tell, then answer with a value
    Tell(Vec<V>, V),
    New(Vec<V>, V),
    PureOf(V),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum U {
    Join,
    JoinOwned,
    Void,
    Lift3(Fun3, bool),
    Clone,
    /// a bare tell, whose value is (), put before or after the step in one of many ways
    Told(V, u8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum B {
    Lift2,
    Lift2Owned,
    Ap2,
    Apply,
    ApplyOwned,
    SeqL,
    SeqR,
    SeqLOwned,
    SeqROwned,
    Combine,
    CombineOwned,
    JoinNested,
    JoinNestedOwned,
}
type Pr = P<A, U, B>;
/// The ways of [`U::Told`].
const TOLD: u8 = 26;

/// A log type, and what a list of messages told looks like in it.
trait Log: Monoid + Clone + PartialEq + Debug + 'static {
    fn of(v: &[S]) -> Self;
}
impl Log for Vec<S> {
    fn of(v: &[S]) -> Self {
        v.to_vec()
    }
}
impl Log for S {
    fn of(v: &[S]) -> Self {
        v.iter().map(|s| format!("[{s}]")).collect()
    }
}
impl Log for PersistentVector<S> {
    fn of(v: &[S]) -> Self {
        v.iter().cloned().collect()
    }
}
impl Log for Sum<Cat> {
    fn of(v: &[S]) -> Self {
        Sum(Cat(S::of(v)))
    }
}
impl Log for Product<Cat> {
    fn of(v: &[S]) -> Self {
        Product(Cat(S::of(v)))
    }
}
impl Log for Choice<S> {
    fn of(v: &[S]) -> Self {
        Choice::of_many(v.to_vec())
    }
}
impl Log for Id<S> {
    fn of(v: &[S]) -> Self {
        Id::new(S::of(v))
    }
}
impl Log for First<S> {
    fn of(v: &[S]) -> Self {
        First(v.first().cloned())
    }
}
impl Log for Last<S> {
    fn of(v: &[S]) -> Self {
        Last(v.last().cloned())
    }
}
impl Log for Writer<Vec<S>, S> {
    fn of(v: &[S]) -> Self {
        Writer::new(Vec::of(v), S::of(v))
    }
}

fn msgs(v: &[V], e: &Env) -> Vec<S> {
    v.iter().map(|v| v.eval(e)).collect()
}
fn build<W: Log>(p: &Pr, env: &Env) -> Writer<W, S> {
    type Wr<W, A> = Writer<W, A>;
    match p {
        P::Pure(v) => <Wr<W, S> as Pure>::pure(&v.eval(env)),
        P::Prim(A::PureOf(v)) => {
            let v = v.eval(env);
            match v.len() % 2 {
                0 => Wr::<W, S>::pure_value(v),
                _ => <Wr<W, ()> as Pure>::pure_owned(v),
            }
        }
        P::Prim(A::Tell(m, v)) => {
            let v = v.eval(env);
            Wr::<W, S>::tell(W::of(&msgs(m, env))).fmap(|()| v.clone())
        }
        P::Prim(A::New(m, v)) => Writer::new(W::of(&msgs(m, env)), v.eval(env)),
        P::Map(f, p) => match p.size() % 2 {
            0 => build::<W>(p, env).fmap(|a: &S| run1(f, a)),
            _ => build::<W>(p, env).fmap_owned(|a: S| run1(f, &a)),
        },
        P::Bind(p, salt, ks) => {
            let k = |a: &S| {
                emit(format!("k {a}"));
                build::<W>(P::pick(ks, *salt, a), &push(env, a.clone()))
            };
            let w = build::<W>(p, env);
            match salt % 4 {
                0 => w.bind(k),
                1 => w.bind_owned(|a: S| k(&a)),
                2 => w.flat_map(k),
                _ => w.flat_map_owned(|a: S| k(&a)),
            }
        }
        P::U(U::Join, p) => {
            let w = build::<W>(p, env);
            Writer::new(W::of(&["outer".into()]), w).join::<S>()
        }
        P::U(U::JoinOwned, p) => {
            let w = build::<W>(p, env);
            Writer::new(W::of(&["outer".into()]), w).join_owned::<S>()
        }
        P::U(U::Void, p) => build::<W>(p, env).void().replace_owned("void".to_string()),
        P::U(U::Lift3(f, owned), p) => {
            let w = build::<W>(p, env);
            let x: Writer<W, S> = Writer::new(W::of(&["x".into(), "y".into()]), "X".into());
            let y: Writer<W, S> = Writer::new(W::of(&["z".into()]), "Z".into());
            if *owned {
                Wr::<W, S>::lift3_owned(|a: S, b: S, c: S| f.ap(&a, &b, &c), x, w, y)
            } else {
                Wr::<W, S>::lift3(|a: &S, b: &S, c: &S| f.ap(a, b, c), &x, &w, &y)
            }
        }
        P::U(U::Clone, p) => {
            let w = build::<W>(p, env);
            w.clone()
        }
        P::U(U::Told(m, how), p) => {
            type Un<W> = Writer<W, ()>;
            let m = m.eval(env);
            let w = build::<W>(p, env);
            let t: Un<W> = Un::tell(W::of(&[m]));
            match how % TOLD {
                // before
                0 => Un::<W>::lift2(|_: &(), a: &S| a.clone(), &t, &w),
                1 => Un::<W>::lift2_owned(|_: (), a: S| a, t, w),
                2 => Un::<W>::sequence_right(&t, &w),
                3 => Un::<W>::sequence_right_owned(t, w),
                4 => t.bind(|_| w.clone()),
                5 => t.bind_owned(|_| w.clone()),
                6 => t.fmap(|_| w.clone()).join::<S>(),
                7 => t.fmap_owned(|_| w.clone()).join_owned::<S>(),
                8 => t.fmap(|_| |a: &S| a.clone()).apply(&w),
                9 => t.fmap_owned(|_| |a: S| a).apply_owned(w),
                10 => Un::<W>::lift3(|_: &(), _: &(), a: &S| a.clone(), &t, &Un::<W>::pure_value(()), &w),
                11 => Un::<W>::lift3_owned(|_: (), _: (), a: S| a, t, Un::<W>::pure_value(()), w),
                12 => {
                    // only units, and the value put in afterwards
                    let v = w.value().clone();
                    Un::<W>::lift2_owned(|_: (), _: ()| (), t, w.void()).replace_owned(v)
                }
                13 => {
                    let v = w.value().clone();
                    Un::<W>::sequence_left(&t, &w.fmap(|_| ())).replace(&v)
                }
                // after
                14 => Wr::<W, S>::lift2(|a: &S, _: &()| a.clone(), &w, &t),
                15 => Wr::<W, S>::lift2_owned(|a: S, _: ()| a, w, t),
                16 => Wr::<W, S>::sequence_left(&w, &t),
                17 => Wr::<W, S>::sequence_left_owned(w, t),
                18 => w.bind(|a: &S| t.fmap(|_| a.clone())),
                19 => w.bind_owned(|a: S| t.clone().replace_owned(a)),
                20 => w.fmap(|a: &S| t.fmap(|_| a.clone())).join::<S>(),
                21 => w.fmap_owned(|a: S| t.clone().replace_owned(a)).join_owned::<S>(),
                22 => Wr::<W, S>::lift3(|a: &S, _: &(), _: &()| a.clone(), &w, &Un::<W>::pure_value(()), &t),
                23 => Wr::<W, S>::lift3_owned(|a: S, _: (), _: ()| a, w, t, Un::<W>::pure_value(())),
                24 => {
                    let v = w.value().clone();
                    Un::<W>::lift2(|_: &(), _: &()| (), &w.void(), &t).replace_owned(v)
                }
                _ => {
                    let v = w.value().clone();
                    Un::<W>::sequence_right_owned(w.void(), t).replace_owned(v)
                }
            }
        }
        P::B(b, f, p, q) => {
            let x = build::<W>(p, env);
            let y = build::<W>(q, env);
            match b {
                B::Lift2 => Wr::<W, S>::lift2(|a: &S, b: &S| run2(f, a, b), &x, &y),
                B::Lift2Owned => Wr::<W, S>::lift2_owned(|a: S, b: S| run2(f, &a, &b), x, y),
                B::Ap2 => Wr::<W, S>::ap2(|a: &S, b: &S| run2(f, a, b), &x, &y),
                B::Apply => {
                    let g = x.fmap(|a: &S| {
                        let (f, a) = (f.clone(), a.clone());
                        move |b: &S| run2(&f, &a, b)
                    });
                    g.apply(&y)
                }
                B::ApplyOwned => {
                    let g = x.fmap(|a: &S| {
                        let (f, a) = (f.clone(), a.clone());
                        move |b: S| run2(&f, &a, &b)
                    });
                    g.apply_owned(y)
                }
                B::SeqL => Wr::<W, S>::sequence_left(&x, &y),
                B::SeqR => Wr::<W, S>::sequence_right(&x, &y),
                B::SeqLOwned => Wr::<W, S>::sequence_left_owned(x, y),
                B::SeqROwned => Wr::<W, S>::sequence_right_owned(x, y),
                B::Combine => x.combine(&y),
                B::CombineOwned => x.combine_owned(y),
                B::JoinNested => x.fmap(|_| y.clone()).join::<S>(),
                B::JoinNestedOwned => x.fmap(|_| y.clone()).join_owned::<S>(),
            }
        }
    }
}
fn eval(p: &Pr, env: &Env, log: &mut Vec<S>) -> S {
    match p {
        P::Pure(v) | P::Prim(A::PureOf(v)) => v.eval(env),
        P::Prim(A::Tell(m, v) | A::New(m, v)) => {
            log.extend(msgs(m, env));
            v.eval(env)
        }
        P::Map(f, p) => {
            let a = eval(p, env, log);
            run1(f, &a)
        }
        P::Bind(p, salt, ks) => {
            let a = eval(p, env, log);
            emit(format!("k {a}"));
            eval(P::pick(ks, *salt, &a), &push(env, a), log)
        }
        P::U(U::Join | U::JoinOwned, p) => {
            log.push("outer".into());
            eval(p, env, log)
        }
        P::U(U::Void, p) => {
            eval(p, env, log);
            "void".into()
        }
        P::U(U::Lift3(f, _), p) => {
            log.extend(["x".into(), "y".into()]);
            let a = eval(p, env, log);
            log.push("z".into());
            f.ap(&"X".into(), &a, &"Z".into())
        }
        P::U(U::Clone, p) => eval(p, env, log),
        P::U(U::Told(m, how), p) => {
            let m = m.eval(env);
            if how % TOLD < 14 {
                log.push(m);
                eval(p, env, log)
            } else {
                let a = eval(p, env, log);
                log.push(m);
                a
            }
        }
        P::B(b, f, p, q) => {
            let x = eval(p, env, log);
            let y = eval(q, env, log);
            match b {
                B::Lift2 | B::Lift2Owned | B::Ap2 | B::Apply | B::ApplyOwned => run2(f, &x, &y),
                B::SeqL | B::SeqLOwned => x,
                B::SeqR | B::SeqROwned | B::JoinNested | B::JoinNestedOwned => y,
                B::Combine | B::CombineOwned => format!("{x}{y}"),
            }
        }
    }
}
fn prims(v: BoxedStrategy<V>) -> BoxedStrategy<A> {
    let ms = prop_oneof![1 => Just(vec![]), 4 => prop::collection::vec(v.clone(), 1..=1), 2 => prop::collection::vec(v.clone(), 2..5)];
    prop_oneof![
        4 => (ms.clone(), v.clone()).prop_map(|(m, v)| A::Tell(m, v)),
        3 => (ms, v.clone()).prop_map(|(m, v)| A::New(m, v)),
        1 => v.prop_map(A::PureOf),
    ]
    .boxed()
}
fn bins() -> BoxedStrategy<B> {
    prop::sample::select(vec![B::Lift2, B::Lift2Owned, B::Ap2, B::Apply, B::ApplyOwned, B::SeqL, B::SeqR, B::SeqLOwned, B::SeqROwned, B::Combine, B::CombineOwned, B::JoinNested, B::JoinNestedOwned])
        .boxed()
}
fn progs() -> BoxedStrategy<Pr> {
    let short = prog(
        prims(vexp()),
        Some(prop_oneof![Just(U::Join), Just(U::JoinOwned), Just(U::Void), (fun3(), any::<bool>()).prop_map(|(f, o)| U::Lift3(f, o)), Just(U::Clone), (vexp(), 0..TOLD).prop_map(|(m, h)| U::Told(m, h))].boxed()),
        Some(bins()),
    );
    let long = chain(prims(vexp1()), Some(prop_oneof![Just(U::Join), Just(U::JoinOwned), Just(U::Clone), (val().prop_map(V::Lit), 0..TOLD).prop_map(|(m, h)| U::Told(m, h))].boxed()), Some(bins()), 100);
    prop_oneof![60 => short, 1 => long].boxed()
}
fn check<W: Log>(p: &Pr, obs: &mut Obs) -> Res {
    let env = || Arc::new(vec![]);
    trace();
    let mut log = vec![];
    let v = eval(p, &env(), &mut log);
    let want_tr = trace();
    obs.nontrivial(log.len() > 1 && p.size() > 2);
    obs.tag_if(log.len() > 5, "more than 5 messages");
    obs.tag_if(p.size() > 60, "more than 60 steps");
    let w = build::<W>(p, &env());
    ensure_eq!(trace(), want_tr, "functions run, in order");
    ensure_eq!(w.clone().run(), (W::of(&log), v.clone()), "run");
    ensure_eq!(w.clone().log(), W::of(&log), "log");
    ensure_eq!(w.unwrap(), v, "unwrap");
    ensure_eq!(*w.value(), v, "value");
    ensure_eq!(w.clone().into_value(), v, "into_value");
    // laws at the level of whole computations
    ensure_eq!(w.clone().bind_owned(|a: S| Writer::<W, S>::pure_value(a)), w, "binding pure");
    ensure_eq!(Writer::<W, S>::pure_value(v.clone()).bind(|_| w.clone()), w, "binding from pure");
    ensure_eq!(w.fmap(|a| a.clone()), w, "mapping the identity");
    ensure_eq!(w.fmap(|a| a.len()).run(), (W::of(&log), v.len()), "mapping to another type");
    ensure_eq!(Writer::<W, S>::tell(W::empty()).bind(|_| w.clone()), w, "telling nothing");
    ensure_eq!(w.combine(&Monoid::empty()), w, "combining with the empty computation");
    ensure_eq!(<Writer<W, S> as Monoid>::empty().combine(&w), w, "combining with the empty computation");
    ensure_eq!((&w).into_iter().cloned().collect::<Vec<S>>(), vec![v.clone()], "iteration");
    let mut m = w.clone();
    for a in &mut m {
        a.push('!');
    }
    ensure_eq!(m.run(), (W::of(&log), format!("{v}!")), "mutable iteration");
    ensure_eq!(w.into_iter().collect::<Vec<S>>(), vec![v], "owned iteration");
    trace();
    Ok(())
}

fn main() {
    let mut s = Suite::new("C19");
    s.assume("programs are closed terms over the primitives; logs are lawful monoids");
    macro_rules! w {
        ($name:literal, $W:ty, $n:literal) => {
            s.check(concat!("programs/", $name), "at least two messages are told", $n, progs, |p, obs| check::<$W>(p, obs));
        };
    }
    w!("list", Vec<S>, 40_000);
    w!("string", S, 40_000);
    w!("pvec", PersistentVector<S>, 15_000);
    w!("sum", Sum<Cat>, 10_000);
    w!("product", Product<Cat>, 10_000);
    w!("choice", Choice<S>, 10_000);
    w!("id", Id<S>, 10_000);
    w!("first", First<S>, 10_000);
    w!("last", Last<S>, 10_000);
    w!("writer", Writer<Vec<S>, S>, 15_000);
    s.check(
        "long",
        "at least 100 messages",
        200,
        || (prop::collection::vec(val(), 0..600), 0u8..4),
        |ms, obs| {
            let (ms, how) = ms;
            obs.nontrivial(ms.len() >= 100);
            let tell = |m: &S| Writer::<PersistentVector<S>, ()>::tell(PersistentVector::from(vec![m.clone()]));
            let one = |m: &S| Writer::new(PersistentVector::from(vec![m.clone()]), m.clone());
            let start: Writer<PersistentVector<S>, S> = Writer::pure_value(String::new());
            let w = match how {
                0 => ms.iter().fold(start, |w, m| w.bind(|_| one(m))),
                1 => ms.iter().fold(start, |w, m| w.bind_owned(|_| one(m))),
                2 => ms.iter().rev().fold(start, |w, m| tell(m).bind(|_| w.clone())),
                _ => ms.iter().fold(start, |w, m| Writer::<PersistentVector<S>, S>::lift2(|_: &S, b: &S| b.clone(), &w, &one(m))),
            };
            let (log, _) = w.run();
            ensure_eq!(log.to_vec(), ms.clone(), "log");
            Ok(())
        },
    );
    s.main();
}
