//! Closed monadic programs as data: values, primitives, mapping, binding with branching
//! continuations over the values bound so far, and unary and binary combinators. Every check gives
//! its own reading of them, once through the library and once directly.
use crate::sym::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::sync::Arc;

/// A value expression over the bound variables.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum V {
    Lit(S),
    Var(u8),
    Ap(Fun, u8),
    Two(Fun2, u8, u8),
}
/// The values bound so far, most recent last.
pub type Env = Arc<Vec<S>>;
pub fn push(e: &Env, v: S) -> Env {
    let mut w = (**e).clone();
    w.push(v);
    Arc::new(w)
}
fn var(e: &Env, i: u8) -> S {
    if e.is_empty() {
        "·".into()
    } else {
        e[e.len() - 1 - i as usize % e.len()].clone()
    }
}
impl V {
    pub fn eval(&self, e: &Env) -> S {
        match self {
            V::Lit(s) => s.clone(),
            V::Var(i) => var(e, *i),
            V::Ap(f, i) => f.ap(&var(e, *i)),
            V::Two(f, i, j) => f.ap(&var(e, *i), &var(e, *j)),
        }
    }
}
pub fn vexp() -> BoxedStrategy<V> {
    prop_oneof![
        3 => val().prop_map(V::Lit),
        3 => (0u8..3).prop_map(V::Var),
        1 => (fun(), 0u8..3).prop_map(|(f, i)| V::Ap(f, i)),
        1 => (fun2(), 0u8..3, 0u8..3).prop_map(|(f, i, j)| V::Two(f, i, j)),
    ]
    .boxed()
}

/// Expressions that use one earlier value at most, so that long programs keep their values short.
pub fn vexp1() -> BoxedStrategy<V> {
    prop_oneof![1 => val().prop_map(V::Lit), 3 => (0u8..3).prop_map(V::Var), 1 => ((0u8..3).prop_map(Fun::Tag), 0u8..3).prop_map(|(f, i)| V::Ap(f, i))].boxed()
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum P<A, U, B> {
    Pure(V),
    Prim(A),
    Map(Fun, Box<P<A, U, B>>),
    /// The continuation is picked by the bound value.
    Bind(Box<P<A, U, B>>, u8, Vec<P<A, U, B>>),
    U(U, Box<P<A, U, B>>),
    B(B, Fun2, Box<P<A, U, B>>, Box<P<A, U, B>>),
}
impl<A, U, B> P<A, U, B> {
    pub fn pick<'a>(ks: &'a [P<A, U, B>], salt: u8, x: &S) -> &'a P<A, U, B> {
        &ks[(h(x, salt) % ks.len() as u64) as usize]
    }
    pub fn size(&self) -> usize {
        1 + match self {
            P::Pure(_) | P::Prim(_) => 0,
            P::Map(_, p) | P::U(_, p) => p.size(),
            P::Bind(p, _, ks) => p.size() + ks.iter().map(|k| k.size()).max().unwrap_or(0),
            P::B(_, _, p, q) => p.size() + q.size(),
        }
    }
    pub fn any(&self, f: &dyn Fn(&Self) -> bool) -> bool {
        f(self)
            || match self {
                P::Pure(_) | P::Prim(_) => false,
                P::Map(_, p) | P::U(_, p) => p.any(f),
                P::Bind(p, _, ks) => p.any(f) || ks.iter().any(|k| k.any(f)),
                P::B(_, _, p, q) => p.any(f) || q.any(f),
            }
    }
}
/// Both operands of a combination: of two equal programs, one is the very other.
pub fn operands<T: Clone, A: PartialEq, U: PartialEq, B: PartialEq>(p: &P<A, U, B>, q: &P<A, U, B>, build: impl Fn(&P<A, U, B>) -> T) -> (T, T) {
    let x = build(p);
    let y = if p == q { x.clone() } else { build(q) };
    (x, y)
}
/// Programs over the given primitives and combinators; no unary (binary) ones if the list is empty.
pub fn prog<A, U, B>(prim: BoxedStrategy<A>, un: Option<BoxedStrategy<U>>, bin: Option<BoxedStrategy<B>>) -> BoxedStrategy<P<A, U, B>>
where
    A: Clone + std::fmt::Debug + 'static,
    U: Clone + std::fmt::Debug + 'static,
    B: Clone + std::fmt::Debug + 'static,
{
    let leaf = prop_oneof![2 => vexp().prop_map(P::Pure), 5 => prim.prop_map(P::Prim)];
    leaf.prop_recursive(6, 24, 3, move |p| {
        let mut alts: Vec<(u32, BoxedStrategy<P<A, U, B>>)> = vec![
            (2, (fun(), p.clone()).prop_map(|(f, p)| P::Map(f, Box::new(p))).boxed()),
            (5, (p.clone(), any::<u8>(), prop::collection::vec(p.clone(), 1..3)).prop_map(|(p, s, k)| P::Bind(Box::new(p), s, k)).boxed()),
        ];
        if let Some(u) = &un {
            alts.push((2, (u.clone(), p.clone()).prop_map(|(u, p)| P::U(u, Box::new(p))).boxed()));
        }
        if let Some(b) = &bin {
            alts.push((1, (b.clone(), fun2(), p.clone()).prop_map(|(b, f, p)| P::B(b, f, Box::new(p.clone()), Box::new(p))).boxed()));
            alts.push((3, (b.clone(), fun2(), p.clone(), p).prop_map(|(b, f, p, q)| P::B(b, f, Box::new(p), Box::new(q))).boxed()));
        }
        prop::strategy::Union::new_weighted(alts)
    })
    .boxed()
}

/// Long programs: a chain of up to `max` steps around or after each other, each of them small. The
/// primitives must not build a value from two earlier ones.
pub fn chain<A, U, B>(prim: BoxedStrategy<A>, un: Option<BoxedStrategy<U>>, bin: Option<BoxedStrategy<B>>, max: usize) -> BoxedStrategy<P<A, U, B>>
where
    A: Clone + std::fmt::Debug + 'static,
    U: Clone + std::fmt::Debug + 'static,
    B: Clone + std::fmt::Debug + 'static,
{
    #[derive(Clone, Debug)]
    enum Step<A, U, B> {
        Map(Fun),
        Then(u8, Vec<P<A, U, B>>),
        After(P<A, U, B>, u8),
        U(U),
        B(B, Fun2, P<A, U, B>, bool),
    }
    // values stay short: nothing is built from two earlier ones
    let f = || prop_oneof![4 => Just(Fun::Id), 1 => val().prop_map(Fun::Const), 1 => (0u8..3).prop_map(Fun::Tag)];
    let g = || prop_oneof![2 => Just(Fun2::Left), 2 => Just(Fun2::Right), 1 => (0u8..3).prop_map(Fun2::Tag)];
    let leaf = prop_oneof![2 => vexp1().prop_map(P::Pure), 5 => prim.prop_map(P::Prim)].boxed();
    let mut alts: Vec<(u32, BoxedStrategy<Step<A, U, B>>)> = vec![
        (3, f().prop_map(Step::Map).boxed()),
        (5, (any::<u8>(), prop::collection::vec(leaf.clone(), 1..3)).prop_map(|(s, k)| Step::Then(s, k)).boxed()),
        (3, (leaf.clone(), any::<u8>()).prop_map(|(p, s)| Step::After(p, s)).boxed()),
    ];
    if let Some(u) = un {
        alts.push((2, u.prop_map(Step::U).boxed()));
    }
    if let Some(b) = bin {
        alts.push((2, (b, g(), leaf.clone(), any::<bool>()).prop_map(|(b, g, p, l)| Step::B(b, g, p, l)).boxed()));
    }
    // some chains repeat one kind of step
    let step = prop::strategy::Union::new_weighted(alts.clone()).boxed();
    let kinds: Vec<_> = alts.into_iter().map(|(_, s)| s).collect();
    let steps = prop_oneof![
        2 => prop::collection::vec(step, 8..max),
        1 => prop::strategy::Union::new(kinds).prop_flat_map(move |s| (Just(s), 8..max)).prop_map(|(s, n)| vec![s; n]),
    ];
    (leaf, steps)
        .prop_map(|(p, steps)| {
            steps.into_iter().fold(p, |p, s| match s {
                Step::Map(f) => P::Map(f, Box::new(p)),
                Step::Then(s, k) => P::Bind(Box::new(p), s, k),
                Step::After(q, s) => P::Bind(Box::new(q), s, vec![p]),
                Step::U(u) => P::U(u, Box::new(p)),
                Step::B(b, g, q, true) => P::B(b, g, Box::new(q), Box::new(p)),
                Step::B(b, g, q, false) => P::B(b, g, Box::new(p), Box::new(q)),
            })
        })
        .boxed()
}

thread_local! {
    static TRACE: RefCell<Vec<S>> = const { RefCell::new(vec![]) };
}
/// Report that a user function runs.
pub fn emit(s: impl Into<S>) {
    TRACE.with(|t| t.borrow_mut().push(s.into()));
    tick();
}
thread_local! {
    static LEFT: Cell<usize> = const { Cell::new(usize::MAX) };
    static HOOK: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
}
/// Have the n-th user function from now on (on this thread) run something else first.
pub fn at_tick(n: usize, f: impl FnOnce() + 'static) {
    LEFT.set(n);
    HOOK.set(Some(Box::new(f)));
}
/// Forget it; true if it has not run.
pub fn no_tick() -> bool {
    LEFT.set(usize::MAX);
    HOOK.take().is_some()
}
/// A user function runs.
pub fn tick() {
    match LEFT.get() {
        usize::MAX => {}
        0 => {
            LEFT.set(usize::MAX);
            if let Some(f) = HOOK.take() {
                let saved = trace();
                f();
                TRACE.set(saved);
            }
        }
        n => LEFT.set(n - 1),
    }
}
/// The functions run on this thread since the last call.
pub fn trace() -> Vec<S> {
    TRACE.with(|t| t.take())
}
/// Run a function, reporting it.
pub fn run1(f: &Fun, x: &S) -> S {
    emit(format!("{f:?} {x}"));
    f.ap(x)
}
pub fn run2(f: &Fun2, x: &S, y: &S) -> S {
    emit(format!("{f:?} {x} {y}"));
    f.ap(x, y)
}
