//! C27: the function category and its arrow operations.
#![allow(deprecated)]
use proptest::collection::vec;
use proptest::prelude::*;
use rustica::category::function_category::{FunctionCategory as FC, FunctionMorphism};
use rustica::traits::arrow::Arrow;
use rustica::traits::category::Category;
use rustica::{compose, function, pipe};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use vharness::ensure_eq;
use vharness::runner::*;
use vharness::sym::*;

pub type Mor = FunctionMorphism<S, S>;

/// A morphism of texts.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum E {
    Id,
    Arrow(Fun),
    Lift(Fun),
    Compose(Box<E>, Box<E>),
    When(Pred, Fun),
    ThenIf(Box<E>, Box<E>, Pred, bool),
    Seq(Vec<Fun>),
    /// split, then join the two results
    Split(Box<E>, Box<E>, Fun2),
    /// duplicate, act on the components, join
    First(Box<E>, Fun2),
    Second(Box<E>, Fun2),
    Combine(Box<E>, Box<E>, Fun2),
    Both(Fun, Fun2),
    Macro(bool, Box<E>, Box<E>, Box<E>),
}
pub fn e(depth: u32) -> BoxedStrategy<E> {
    let leaf = prop_oneof![
        1 => Just(E::Id),
        3 => fun().prop_map(E::Arrow),
        1 => fun().prop_map(E::Lift),
        2 => (pred(), fun()).prop_map(|(p, f)| E::When(p, f)),
        2 => prop_oneof![3 => vec(fun(), 0..6), 1 => vec(fun(), 6..70)].prop_map(E::Seq),
        1 => (fun(), fun2()).prop_map(|(f, g)| E::Both(f, g)),
    ];
    if depth == 0 {
        return leaf.boxed();
    }
    let b = e(depth - 1).prop_map(Box::new);
    let b2 = || prop_oneof![3 => (b.clone(), b.clone()), 1 => b.clone().prop_map(|f| (f.clone(), f))];
    prop_oneof![
        6 => leaf,
        4 => b2().prop_map(|(f, g)| E::Compose(f, g)),
        2 => (b2(), pred(), any::<bool>()).prop_map(|((f, g), p, d)| E::ThenIf(f, g, p, d)),
        2 => (b2(), fun2()).prop_map(|((f, g), h)| E::Split(f, g, h)),
        1 => (b.clone(), fun2()).prop_map(|(f, h)| E::First(f, h)),
        1 => (b.clone(), fun2()).prop_map(|(f, h)| E::Second(f, h)),
        2 => (b2(), fun2()).prop_map(|((f, g), h)| E::Combine(f, g, h)),
        2 => (any::<bool>(), b.clone(), b.clone(), b).prop_map(|(p, f, g, h)| E::Macro(p, f, g, h)),
    ]
    .boxed()
}

pub type Log = Rc<RefCell<Vec<S>>>;
fn leaf(f: &Fun, log: &Log) -> impl Fn(S) -> S + 'static {
    let (f, log) = (f.clone(), log.clone());
    move |x| {
        log.borrow_mut().push(format!("{f:?} on {x}"));
        vharness::prog::tick();
        f.ap(&x)
    }
}
fn test(p: &Pred, log: &Log) -> impl Fn(&S) -> bool + 'static {
    let (p, log) = (p.clone(), log.clone());
    move |x| {
        log.borrow_mut().push(format!("{p:?} on {x}"));
        vharness::prog::tick();
        p.ok(x)
    }
}
fn dup() -> FunctionMorphism<S, (S, S)> {
    FC::arrow(|x: S| (format!("l{x}"), format!("r{x}")))
}
fn join(h: &Fun2) -> FunctionMorphism<(S, S), S> {
    let h = h.clone();
    FC::arrow(move |(a, b): (S, S)| h.ap(&a, &b))
}
/// Of two equal morphisms, one is the very other.
fn two(f: &E, g: &E, log: &Log) -> (Mor, Mor) {
    let x = build(f, log);
    let y = if f == g { x.clone() } else { build(g, log) };
    (x, y)
}
pub fn build(e: &E, log: &Log) -> Mor {
    match e {
        E::Id => FC::identity_morphism(),
        E::Arrow(f) => FC::arrow(leaf(f, log)),
        E::Lift(f) => FC::lift(leaf(f, log)),
        E::Compose(g, f) => {
            let (g, f) = two(g, f, log);
            FC::compose_morphisms(&g, &f)
        }
        E::When(p, f) => FC::when(test(p, log), leaf(f, log)),
        E::ThenIf(f, g, p, old) => {
            let (f, g) = two(f, g, log);
            if *old { FC::compose_when(&f, &g, test(p, log)) } else { FC::then_if(&f, &g, test(p, log)) }
        }
        E::Seq(fs) => FC::sequence(fs.iter().map(|f| leaf(f, log)).collect()),
        E::Split(f, g, h) => {
            let (f, g) = two(f, g, log);
            FC::compose_morphisms(&join(h), &FC::split(&f, &g))
        }
        E::First(f, h) => FC::compose_morphisms(&join(h), &FC::compose_morphisms(&FC::first(&build(f, log)), &dup())),
        E::Second(f, h) => FC::compose_morphisms(&join(h), &FC::compose_morphisms(&FC::second(&build(f, log)), &dup())),
        E::Combine(f, g, h) => {
            let (f, g) = two(f, g, log);
            FC::compose_morphisms(&join(h), &FC::compose_morphisms(&FC::combine_morphisms(&f, &g), &dup()))
        }
        E::Both(f, h) => FC::compose_morphisms(&join(h), &FC::compose_morphisms(&FC::both(leaf(f, log)), &dup())),
        E::Macro(p, f, g, h) => {
            let (f, g, h) = (build(f, log), build(g, log), build(h, log));
            let (f, g, h) = (move |x: S| f(x), move |x: S| g(x), move |x: S| h(x));
            if *p { pipe!(f, g, h) } else { compose!(f, g, h) }
        }
    }
}
/// The direct reading.
pub fn eval(e: &E, x: S, log: &Log) -> S {
    let ap = |f: &Fun, x: S| leaf(f, log)(x);
    let ok = |p: &Pred, x: &S| test(p, log)(x);
    match e {
        E::Id => x,
        E::Arrow(f) | E::Lift(f) => ap(f, x),
        E::Compose(g, f) => {
            let y = eval(f, x, log);
            eval(g, y, log)
        }
        E::When(p, f) => {
            if ok(p, &x) {
                ap(f, x)
            } else {
                x
            }
        }
        E::ThenIf(f, g, p, _) => {
            let y = eval(f, x, log);
            if ok(p, &y) {
                eval(g, y, log)
            } else {
                y
            }
        }
        E::Seq(fs) => fs.iter().fold(x, |a, f| ap(f, a)),
        E::Split(f, g, h) => {
            let a = eval(f, x.clone(), log);
            h.ap(&a, &eval(g, x, log))
        }
        E::First(f, h) => h.ap(&eval(f, format!("l{x}"), log), &format!("r{x}")),
        E::Second(f, h) => h.ap(&format!("l{x}"), &eval(f, format!("r{x}"), log)),
        E::Combine(f, g, h) => {
            let a = eval(f, format!("l{x}"), log);
            h.ap(&a, &eval(g, format!("r{x}"), log))
        }
        E::Both(f, h) => {
            let a = ap(f, format!("l{x}"));
            h.ap(&a, &ap(f, format!("r{x}")))
        }
        E::Macro(true, f, g, h) => eval(h, eval(g, eval(f, x, log), log), log),
        E::Macro(false, f, g, h) => eval(f, eval(g, eval(h, x, log), log), log),
    }
}
pub fn size(e: &E) -> usize {
    match e {
        E::Compose(a, b) | E::ThenIf(a, b, ..) | E::Split(a, b, _) | E::Combine(a, b, _) => 1 + size(a) + size(b),
        E::First(a, _) | E::Second(a, _) => 1 + size(a),
        E::Macro(_, a, b, c) => 1 + size(a) + size(b) + size(c),
        E::Seq(v) => 1 + v.len(),
        _ => 1,
    }
}

/// Functions that also write a log: a second category, to reach the default arrow operations.
struct Logged;
type LMor<A, B> = Rc<dyn Fn(A) -> (B, Vec<S>)>;
impl Category for Logged {
    type Morphism<A, B> = LMor<A, B>;
    fn identity_morphism<A>() -> LMor<A, A> {
        Rc::new(|x| (x, vec![]))
    }
    fn compose_morphisms<A: 'static, B: 'static, C: 'static>(g: &LMor<B, C>, f: &LMor<A, B>) -> LMor<A, C> {
        let (f, g) = (f.clone(), g.clone());
        Rc::new(move |x| {
            let (y, mut l) = f(x);
            let (z, m) = g(y);
            l.extend(m);
            (z, l)
        })
    }
}
impl Arrow for Logged {
    fn arrow<B, C, F: Fn(B) -> C + 'static>(f: F) -> LMor<B, C> {
        Rc::new(move |x| (f(x), vec![]))
    }
    fn first<B: 'static, C: 'static, D: 'static>(f: &LMor<B, C>) -> LMor<(B, D), (C, D)> {
        let f = f.clone();
        Rc::new(move |(b, d)| {
            let (c, l) = f(b);
            ((c, d), l)
        })
    }
    fn second<B: 'static, C: 'static, D: 'static>(f: &LMor<B, C>) -> LMor<(D, B), (D, C)> {
        let f = f.clone();
        Rc::new(move |(d, b)| {
            let (c, l) = f(b);
            ((d, c), l)
        })
    }
    fn combine_morphisms<B: 'static, C: 'static, D: 'static, E: 'static>(f: &LMor<B, C>, g: &LMor<D, E>) -> LMor<(B, D), (C, E)> {
        let (f, g) = (f.clone(), g.clone());
        Rc::new(move |(b, d)| {
            let (c, mut l) = f(b);
            let (e, m) = g(d);
            l.extend(m);
            ((c, e), l)
        })
    }
}

fn sorted(log: &Log) -> Vec<S> {
    let mut v = log.take();
    v.sort();
    v
}

fn main() {
    let mut s = Suite::new("C27");
    s.assume("the order in which the two components of a pair are computed is not specified");
    s.check(
        "programs",
        "the morphism has at least four parts",
        120_000,
        || (e(5), vec(val(), 1..4)),
        |(e, xs), obs| {
            obs.nontrivial(size(e) >= 4);
            obs.tag_if(size(e) > 15, "more than 15 parts");
            let (log, log2) = (Log::default(), Log::default());
            let m = build(e, &log);
            ensure_eq!(log.take(), Vec::<S>::new(), "run by building");
            for x in xs {
                let want = eval(e, x.clone(), &log2);
                ensure_eq!(m(x.clone()), want, "on {x:?}");
                ensure_eq!(sorted(&log), sorted(&log2), "functions run on {x:?}");
                ensure_eq!(m.clone()(x.clone()), want, "shared, on {x:?}");
                ensure_eq!(sorted(&log), { eval(e, x.clone(), &log2); sorted(&log2) }, "functions run the second time on {x:?}");
            }
            Ok(())
        },
    );
    s.check(
        "laws",
        "no morphism is the identity",
        60_000,
        || (e(2), e(2), e(2), (val(), val(), val())),
        |(f, g, h, (x, y, z)), obs| {
            obs.nontrivial([f, g, h].iter().all(|e| !matches!(e, E::Id)));
            let log = Log::default();
            let (f, g, h) = (build(f, &log), build(g, &log), build(h, &log));
            let c = |g: &Mor, f: &Mor| FC::compose_morphisms(g, f);
            ensure_eq!(c(&h, &c(&g, &f))(x.clone()), c(&c(&h, &g), &f)(x.clone()), "composition is associative");
            let id: Mor = FC::identity_morphism();
            ensure_eq!(c(&id, &f)(x.clone()), f(x.clone()), "identity after");
            ensure_eq!(c(&f, &id)(x.clone()), f(x.clone()), "identity before");
            let p = (x.clone(), y.clone());
            let c2 = |b: &FunctionMorphism<(S, S), (S, S)>, a: &FunctionMorphism<(S, S), (S, S)>| FC::compose_morphisms(b, a);
            ensure_eq!(FC::first(&c(&g, &f))(p.clone()), c2(&FC::first(&g), &FC::first(&f))(p.clone()), "first distributes");
            ensure_eq!(FC::second(&c(&g, &f))(p.clone()), c2(&FC::second(&g), &FC::second(&f))(p.clone()), "second distributes");
            ensure_eq!(FC::first::<S, S, S>(&id)(p.clone()), p, "first of the identity");
            ensure_eq!(FC::second::<S, S, S>(&id)(p.clone()), p, "second of the identity");
            ensure_eq!(FC::first(&f)(p.clone()), (f(x.clone()), y.clone()), "first");
            ensure_eq!(FC::second(&f)(p.clone()), (x.clone(), f(y.clone())), "second");
            ensure_eq!(FC::combine_morphisms(&f, &g)(p.clone()), (f(x.clone()), g(y.clone())), "combine_morphisms");
            ensure_eq!(c2(&FC::second(&g), &FC::first(&f))(p.clone()), FC::combine_morphisms(&f, &g)(p.clone()), "second after first");
            ensure_eq!(FC::split(&f, &g)(x.clone()), (f(x.clone()), g(x.clone())), "split");
            let (f2, g2) = (f.clone(), g.clone());
            ensure_eq!(FC::both(move |a: S| f2(a))(p.clone()), FC::combine_morphisms(&f, &f)(p.clone()), "both");
            let fst: FunctionMorphism<(S, S), S> = FC::arrow(|(a, _)| a);
            ensure_eq!(FC::compose_morphisms(&fst, &FC::first(&f))(p.clone()), FC::compose_morphisms(&f, &fst)(p.clone()), "first then projection");
            // nested pairs
            type P3 = ((S, S), S);
            let assoc: FunctionMorphism<P3, (S, (S, S))> = FC::arrow(|((a, b), c)| (a, (b, c)));
            let n = ((x.clone(), y.clone()), z.clone());
            let ff: FunctionMorphism<P3, P3> = FC::first(&FC::first(&f));
            ensure_eq!(FC::compose_morphisms(&assoc, &ff)(n.clone()), FC::compose_morphisms(&FC::first(&f), &assoc)(n), "first of first, reassociated");
            // other types
            let len: FunctionMorphism<S, usize> = FC::arrow(|a: S| a.len());
            ensure_eq!(FC::compose_morphisms(&len, &f)(x.clone()), f(x.clone()).len(), "composition with another type");
            ensure_eq!(FC::split(&len, &g)(x.clone()), (x.len(), g(x.clone())), "split with another type");
            function!(named: S => S = move |a: S| g2(a));
            ensure_eq!(named(x.clone()), g(x.clone()), "function!");
            let (f2, f3) = (f.clone(), f.clone());
            {
                let t = |k: u8| move |a: S| format!("{k}{a}");
                ensure_eq!(compose!(t(1), t(2))(x.clone()), format!("12{x}"), "compose! of two");
                ensure_eq!(compose!(t(1), t(2), t(3), t(4),)(x.clone()), format!("1234{x}"), "compose! of four");
                ensure_eq!(compose!(t(1), t(2), t(3), t(4), t(5))(x.clone()), format!("12345{x}"), "compose! of five");
                ensure_eq!(pipe!(t(1), t(2))(x.clone()), format!("21{x}"), "pipe! of two");
                ensure_eq!(pipe!(t(1), t(2), t(3), t(4),)(x.clone()), format!("4321{x}"), "pipe! of four");
                ensure_eq!(pipe!(t(1), t(2), t(3), t(4), t(5), t(6))(x.clone()), format!("654321{x}"), "pipe! of six");
            }
            ensure_eq!(compose!(move |a: S| f2(a))(x.clone()), f(x.clone()), "compose! of one");
            ensure_eq!(pipe!(move |a: S| f3(a))(x.clone()), f(x.clone()), "pipe! of one");
            let (f2, g2) = (f.clone(), g.clone());
            ensure_eq!(compose!(|a: S| a.len(), move |a: S| f2(a), move |a: S| g2(a))(x.clone()), f(g(x.clone())).len(), "compose! of three");
            let (f2, g2) = (f.clone(), g.clone());
            ensure_eq!(pipe!(move |a: S| f2(a), move |a: S| g2(a), |a: S| a.len(), |n: usize| n + 1)(x.clone()), g(f(x.clone())).len() + 1, "pipe! of four");
            Ok(())
        },
    );
    s.check(
        "defaults",
        "both functions differ",
        40_000,
        || (fun(), fun(), fun(), val()),
        |(f, g, h, x), obs| {
            obs.nontrivial(f != g);
            let m = |name: &'static str, f: &Fun| -> LMor<S, S> {
                let f = f.clone();
                Rc::new(move |x: S| (f.ap(&x), vec![format!("{name} {x}")]))
            };
            let split = <Logged as Arrow>::split(&m("f", f), &m("g", g));
            ensure_eq!(split(x.clone()), ((f.ap(x), g.ap(x)), vec![format!("f {x}"), format!("g {x}")]), "default split");
            let k = Logged::compose_morphisms(&<Logged as Arrow>::split(&m("f", f), &m("g", g)), &m("h", h));
            let y = h.ap(x);
            ensure_eq!(k(x.clone()), ((f.ap(&y), g.ap(&y)), vec![format!("h {x}"), format!("f {y}"), format!("g {y}")]), "default split after a function");
            Ok(())
        },
    );
    s.main()
}
