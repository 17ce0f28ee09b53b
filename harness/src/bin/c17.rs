//! C17: state computations.
use proptest::prelude::*;
use rustica::datatypes::id::Id;
use rustica::datatypes::state::{self, State};
use rustica::error::ErrorContext;
use rustica::transformers::{MonadTransformer, StateT};
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;
use std::sync::Arc;
use vharness::prog::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum A {
    Get,
    Put(V),
    Modify(Fun),
    New(Fun, Fun),
    /// fail, or answer without looking at the state (transformer only)
    Fail(V),
    Lift(V, V),
    LiftM(V, V),
    LiftErr(V),
    /// succeed only if the state satisfies the predicate (transformer only)
    Check(Pred),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum B {
    Apply,
    Combine,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum U {
    /// bind the raw pure variant, mapped by a function, to the program
    Raw(V, Fun),
    MapErr(Fun),
    Join,
}
pub type Pr = P<A, U, B>;
const UNIT: &str = "()";

pub fn plain_prims() -> BoxedStrategy<A> {
    prims_of(vexp())
}
fn prims_of(v: BoxedStrategy<V>) -> BoxedStrategy<A> {
    prop_oneof![
        2 => Just(A::Get),
        2 => v.prop_map(A::Put),
        2 => fun().prop_map(A::Modify),
        2 => (fun(), fun()).prop_map(|(f, g)| A::New(f, g)),
    ]
    .boxed()
}

// ---- State ----
pub type St = State<S, S>;
pub fn build(p: &Pr, env: &Env) -> St {
    match p {
        P::Pure(v) => State::pure(v.eval(env)),
        P::Prim(A::Get) => state::get(),
        P::Prim(A::Put(v)) => state::put(v.eval(env)).fmap(|()| UNIT.to_string()),
        P::Prim(A::Modify(f)) => {
            let f = f.clone();
            state::modify(move |s: S| run1(&f, &s)).fmap(|()| UNIT.to_string())
        }
        P::Prim(A::New(f, g)) => {
            let (f, g) = (f.clone(), g.clone());
            State::new(move |s: S| (run1(&f, &s), run1(&g, &s)))
        }
        P::Prim(_) => unreachable!(),
        P::Map(f, p) => {
            let f = f.clone();
            build(p, env).fmap(move |a: S| run1(&f, &a))
        }
        P::Bind(p, salt, ks) => {
            let (ks, salt, e) = (ks.clone(), *salt, env.clone());
            build(p, env).bind(move |a: S| {
                emit(format!("k {a}"));
                build(P::pick(&ks, salt, &a), &push(&e, a))
            })
        }
        P::U(..) => unreachable!(),
        P::B(_, f, p, q) => {
            let f = f.clone();
            let (x, y) = operands(p, q, |p| build(p, env));
            let fs = x.fmap(move |a: S| {
                let f = f.clone();
                Arc::new(move |b: S| run2(&f, &a, &b)) as Arc<dyn Fn(S) -> S + Send + Sync>
            });
            // `Arc<dyn Fn>` does not implement `Fn`: wrap it in a closure
            let fs = fs.fmap(|g| move |b: S| g(b));
            fs.apply(y)
        }
    }
}
pub fn eval(p: &Pr, env: &Env, s: S) -> (S, S) {
    match p {
        P::Pure(v) => (v.eval(env), s),
        P::Prim(A::Get) => (s.clone(), s),
        P::Prim(A::Put(v)) => (UNIT.into(), v.eval(env)),
        P::Prim(A::Modify(f)) => (UNIT.into(), run1(f, &s)),
        P::Prim(A::New(f, g)) => (run1(f, &s), run1(g, &s)),
        P::Map(f, p) => {
            let (a, s) = eval(p, env, s);
            (run1(f, &a), s)
        }
        P::Bind(p, salt, ks) => {
            let (a, s) = eval(p, env, s);
            emit(format!("k {a}"));
            eval(P::pick(ks, *salt, &a), &push(env, a), s)
        }
        P::B(_, f, p, q) => {
            let (a, s) = eval(p, env, s);
            let (b, s) = eval(q, env, s);
            (run2(f, &a, &b), s)
        }
        _ => unreachable!(),
    }
}
pub fn env0() -> Env {
    Arc::new(vec![])
}
pub fn stateful(p: &Pr) -> bool {
    p.size() > 2 && p.any(&|p| matches!(p, P::Prim(A::Put(_) | A::Modify(_) | A::New(..)))) && p.any(&|p| matches!(p, P::Bind(..) | P::B(..)))
}

// ---- StateT ----
pub type Outs = Result<Vec<(S, S)>, S>;
pub type K<M, X> = Box<dyn Fn((S, X)) -> M + Send + Sync>;
pub trait Base: Clone + Send + Sync + 'static {
    const FAILS: bool;
    fn ret(x: (S, S)) -> Self;
    fn fail(e: S) -> Self;
    fn bind<M: Base>(self, k: &dyn Fn((S, S)) -> M) -> M;
    fn view(self) -> Outs;
    fn lift(self) -> StateT<S, Self, S>;
    fn map_err(t: StateT<S, Self, S>, f: &Fun) -> StateT<S, Self, S>;
}
impl Base for Option<(S, S)> {
    const FAILS: bool = true;
    fn ret(x: (S, S)) -> Self {
        Some(x)
    }
    fn fail(_: S) -> Self {
        None
    }
    fn bind<M: Base>(self, k: &dyn Fn((S, S)) -> M) -> M {
        self.map(k).unwrap_or_else(|| M::fail("".into()))
    }
    fn view(self) -> Outs {
        self.map(|x| vec![x]).ok_or("".into())
    }
    fn lift(self) -> StateT<S, Self, S> {
        <StateT<S, Self, S> as MonadTransformer>::lift(self)
    }
    fn map_err(t: StateT<S, Self, S>, _: &Fun) -> StateT<S, Self, S> {
        t
    }
}
impl Base for Result<(S, S), S> {
    const FAILS: bool = true;
    fn ret(x: (S, S)) -> Self {
        Ok(x)
    }
    fn fail(e: S) -> Self {
        Err(e)
    }
    fn bind<M: Base>(self, k: &dyn Fn((S, S)) -> M) -> M {
        match self {
            Ok(x) => k(x),
            Err(e) => M::fail(e),
        }
    }
    fn view(self) -> Outs {
        self.map(|x| vec![x])
    }
    fn lift(self) -> StateT<S, Self, S> {
        rustica::transformers::lift(self)
    }
    fn map_err(t: StateT<S, Self, S>, f: &Fun) -> StateT<S, Self, S> {
        let f = f.clone();
        t.map_error(move |e: S| run1(&f, &e))
    }
}
impl Base for Id<(S, S)> {
    const FAILS: bool = false;
    fn ret(x: (S, S)) -> Self {
        Id::new(x)
    }
    fn fail(e: S) -> Self {
        Id::new((e, "no failure".into()))
    }
    fn bind<M: Base>(self, k: &dyn Fn((S, S)) -> M) -> M {
        k(self.into_inner())
    }
    fn view(self) -> Outs {
        Ok(vec![self.into_inner()])
    }
    fn lift(self) -> StateT<S, Self, S> {
        <StateT<S, Self, S> as MonadTransformer>::lift(self)
    }
    fn map_err(t: StateT<S, Self, S>, _: &Fun) -> StateT<S, Self, S> {
        t
    }
}
/// Nondeterminism: every primitive check forks, so programs have many runs.
impl Base for Vec<(S, S)> {
    const FAILS: bool = true;
    fn ret(x: (S, S)) -> Self {
        vec![x]
    }
    fn fail(_: S) -> Self {
        vec![]
    }
    fn bind<M: Base>(self, k: &dyn Fn((S, S)) -> M) -> M {
        M::cat(self.into_iter().map(k).collect())
    }
    fn view(self) -> Outs {
        Ok(self)
    }
    fn lift(self) -> StateT<S, Self, S> {
        StateT::new(move |_| self.clone())
    }
    fn map_err(t: StateT<S, Self, S>, _: &Fun) -> StateT<S, Self, S> {
        t
    }
}
pub trait Cat: Sized {
    fn cat(v: Vec<Self>) -> Self;
}
impl<M: Base> Cat for M {
    fn cat(v: Vec<Self>) -> Self {
        // Only reached from lists to lists (the harness never changes the base).
        let any: Vec<Box<dyn std::any::Any>> = v.into_iter().map(|m| Box::new(m) as Box<dyn std::any::Any>).collect();
        let mut all: Vec<(S, S)> = vec![];
        for m in any {
            all.extend(*m.downcast::<Vec<(S, S)>>().expect("lists only"));
        }
        let all: Box<dyn std::any::Any> = Box::new(all);
        *all.downcast::<M>().expect("lists only")
    }
}
fn fork<M: Base>(ok: bool, s: S) -> M {
    let any: Box<dyn std::any::Any> = Box::new(PhantomData::<M>);
    if any.is::<PhantomData<Vec<(S, S)>>>() {
        let v: Vec<(S, S)> = if ok { vec![(s.clone(), "y".into()), (format!("{s}'"), "n".into())] } else { vec![] };
        let v: Box<dyn std::any::Any> = Box::new(v);
        return *v.downcast::<M>().unwrap();
    }
    if ok {
        M::ret((s.clone(), s))
    } else {
        M::fail(s)
    }
}
fn run_of<M: Base>(t: StateT<S, M, S>) -> StateT<S, M, S> {
    match t {
        StateT::Effect(_) => t,
        other => StateT::new(move |s| other.run_state(s)),
    }
}
pub fn build_t<M: Base>(p: &Pr, env: &Env) -> StateT<S, M, S> {
    type T<M> = StateT<S, M, S>;
    let unit_k = |m: M, k: K<M, ()>| m.bind(&|(s, _)| k((s, ())));
    match p {
        P::Pure(v) => T::<M>::pure(v.eval(env), M::ret),
        P::Prim(A::Get) => StateT::<S, M, S>::get(M::ret),
        // the transformer's put answers with the state it replaced
        P::Prim(A::Put(v)) => T::<M>::put(v.eval(env), M::ret),
        P::Prim(A::Modify(f)) => {
            let f = f.clone();
            T::<M>::modify(move |s: S| run1(&f, &s), |(s, ())| M::ret((s, UNIT.into()))).bind_with(|()| T::<M>::pure(UNIT.into(), M::ret), unit_k)
        }
        P::Prim(A::New(f, g)) => {
            let (f, g) = (f.clone(), g.clone());
            StateT::new(move |s: S| {
                let a = run1(&f, &s);
                M::ret((run1(&g, &s), a))
            })
        }
        P::Prim(A::Fail(v)) => {
            let v = v.eval(env);
            StateT::new(move |_| M::fail(v.clone()))
        }
        P::Prim(A::Lift(s, v)) => M::ret((s.eval(env), v.eval(env))).lift(),
        P::Prim(A::LiftM(s, v)) => StateT::LiftM(M::ret((s.eval(env), v.eval(env)))),
        P::Prim(A::LiftErr(v)) => StateT::LiftM(M::fail(v.eval(env))),
        P::Prim(A::Check(p)) => {
            let p = p.clone();
            StateT::new(move |s: S| fork::<M>(p.ok(&s), s))
        }
        P::Map(f, p) => {
            let f = f.clone();
            build_t::<M>(p, env).fmap_with(move |a: S| run1(&f, &a), |m: M, g| m.bind(&|x| M::ret(g(x))))
        }
        P::Bind(p, salt, ks) => {
            let (ks, salt, e) = (ks.clone(), *salt, env.clone());
            build_t::<M>(p, env).bind_with(
                move |a: S| {
                    emit(format!("k {a}"));
                    build_t::<M>(P::pick(&ks, salt, &a), &push(&e, a))
                },
                |m: M, k: K<M, S>| m.bind(&|x| k(x)),
            )
        }
        P::U(U::Raw(v, f), p) => {
            let raw: T<M> = StateT::Pure(v.eval(env));
            let (f, p, e) = (f.clone(), p.clone(), env.clone());
            raw.fmap_with(move |a: S| run1(&f, &a), |_: M, _| unreachable!("no base value to map")).bind_with(
                move |a: S| {
                    emit(format!("k {a}"));
                    build_t::<M>(&p, &push(&e, a))
                },
                |_: M, _: K<M, S>| unreachable!("no base value to bind"),
            )
        }
        P::U(U::MapErr(f), p) => M::map_err(build_t::<M>(p, env), f),
        P::U(U::Join, p) => build_t::<M>(p, env).join(|m: M| m.bind(&|(s, a)| M::ret((s, format!("j{a}"))))),
        P::B(B::Apply, f, p, q) => {
            let f = f.clone();
            let (x, y) = operands_t::<M>(p, q, env);
            x.apply(y, move |mf: M, mv: M| {
                mf.bind(&|(s1, a)| mv.clone().bind(&|(s2, b)| M::ret((format!("{s1}&{s2}"), f.ap(&a, &b)))))
            })
        }
        P::B(B::Combine, f, p, q) => {
            let f = f.clone();
            let (mut a, mut b) = operands_t::<M>(p, q, env);
            if matches!(a, StateT::LiftM(_)) != matches!(b, StateT::LiftM(_)) {
                (a, b) = (run_of(a), run_of(b));
            }
            a.combine_with(&b, move |a: S, b: S| f.ap(&a, &b), |m1: M, m2: M, c| m1.bind(&|x| m2.clone().bind(&|y| M::ret(c(x.clone(), y)))))
        }
    }
}
/// Equal operands are one and the same, unless building them runs functions.
fn operands_t<M: Base>(p: &Pr, q: &Pr, env: &Env) -> (StateT<S, M, S>, StateT<S, M, S>) {
    match p.any(&|p| matches!(p, P::U(U::Raw(..), _) | P::Prim(A::LiftM(..) | A::LiftErr(_)))) {
        true => (build_t::<M>(p, env), build_t::<M>(q, env)),
        false => operands(p, q, |p| build_t::<M>(p, env)),
    }
}
fn is_lift_m(p: &Pr) -> bool {
    match p {
        P::Prim(A::LiftM(..) | A::LiftErr(_)) => true,
        P::Map(_, p) | P::U(_, p) => is_lift_m(p),
        P::B(_, _, p, q) => is_lift_m(p) && is_lift_m(q),
        _ => false,
    }
}
pub fn eval_t<M: Base>(p: &Pr, env: &Env, s: S) -> M {
    match p {
        P::Pure(v) => M::ret((s, v.eval(env))),
        P::Prim(A::Get) => M::ret((s.clone(), s)),
        P::Prim(A::Put(v)) => M::ret((v.eval(env), s)).bind(&|(new, old)| M::ret((old, new))).bind(&|(old, new)| M::ret((new, old))),
        P::Prim(A::Modify(f)) => M::ret((run1(f, &s), UNIT.into())),
        P::Prim(A::New(f, g)) => {
            let a = run1(f, &s);
            M::ret((run1(g, &s), a))
        }
        P::Prim(A::Fail(v) | A::LiftErr(v)) => M::fail(v.eval(env)),
        P::Prim(A::Lift(s, v) | A::LiftM(s, v)) => M::ret((s.eval(env), v.eval(env))),
        P::Prim(A::Check(p)) => fork::<M>(p.ok(&s), s),
        P::Map(f, p) => eval_t::<M>(p, env, s).bind(&|(s, a)| M::ret((s, run1(f, &a)))),
        P::Bind(p, salt, ks) => eval_t::<M>(p, env, s).bind(&|(s, a)| {
            emit(format!("k {a}"));
            eval_t::<M>(P::pick(ks, *salt, &a), &push(env, a), s)
        }),
        P::U(U::Raw(v, f), p) => {
            let a = run1(f, &v.eval(env));
            emit(format!("k {a}"));
            eval_t::<M>(p, &push(env, a), s)
        }
        P::U(U::MapErr(f), p) => {
            let m = eval_t::<M>(p, env, s);
            let any: &dyn std::any::Any = &m;
            match any.downcast_ref::<Result<(S, S), S>>() {
                Some(Err(e)) => M::fail(run1(f, e)),
                _ => m,
            }
        }
        P::U(U::Join, p) => eval_t::<M>(p, env, s).bind(&|(s, a)| M::ret((s, format!("j{a}")))),
        // The base values of both operands are computed from the same state; combining them is the
        // caller's function.
        P::B(B::Apply, f, p, q) => {
            let mf = eval_t::<M>(p, env, s.clone());
            let mv = eval_t::<M>(q, env, s);
            mf.bind(&|(s1, a)| mv.clone().bind(&|(s2, b)| M::ret((format!("{s1}&{s2}"), f.ap(&a, &b)))))
        }
        P::B(B::Combine, f, p, q) => {
            let both_lifted = is_lift_m(p) && is_lift_m(q);
            let ma = eval_t::<M>(p, env, s.clone());
            let mb = eval_t::<M>(q, env, s);
            ma.bind(&|(s1, a)| mb.clone().bind(&|(s2, b)| M::ret((if both_lifted { s1.clone() } else { s2 }, f.ap(&a, &b)))))
        }
    }
}
pub fn has_lift_m(p: &Pr) -> bool {
    p.any(&|p| matches!(p, P::Prim(A::LiftM(..) | A::LiftErr(_))))
}

fn t_prims() -> BoxedStrategy<A> {
    prop_oneof![
        8 => plain_prims(),
        1 => vexp().prop_map(A::Fail),
        1 => (vexp(), vexp()).prop_map(|(a, b)| A::Lift(a, b)),
        1 => (vexp(), vexp()).prop_map(|(a, b)| A::LiftM(a, b)),
        1 => vexp().prop_map(A::LiftErr),
        2 => pred().prop_map(A::Check),
    ]
    .boxed()
}
fn t_un() -> BoxedStrategy<U> {
    prop_oneof![2 => (vexp(), fun()).prop_map(|(v, f)| U::Raw(v, f)), 1 => fun().prop_map(U::MapErr), 1 => Just(U::Join)].boxed()
}
pub fn t_prog() -> BoxedStrategy<Pr> {
    prog(t_prims(), Some(t_un()), Some(prop_oneof![Just(B::Apply), Just(B::Combine)].boxed()))
}
/// Chains of steps that mostly succeed.
fn t_chain() -> BoxedStrategy<Pr> {
    let prims = prop_oneof![40 => prims_of(vexp1()), 1 => vexp1().prop_map(A::Fail), 1 => (vexp1(), vexp1()).prop_map(|(a, b)| A::LiftM(a, b)), 1 => vexp1().prop_map(A::LiftErr), 1 => pred().prop_map(A::Check)].boxed();
    let un = prop_oneof![2 => (vexp1(), fun()).prop_map(|(v, f)| U::Raw(v, f)), 1 => fun().prop_map(U::MapErr), 1 => Just(U::Join)];
    chain(prims, Some(un.boxed()), Some(Just(B::Apply).boxed()), 100)
}
fn check_t<M: Base>(p: &Pr, s0: &S, obs: &mut Obs) -> Res {
    trace();
    let want = eval_t::<M>(p, &env0(), s0.clone()).view();
    let want_tr = trace();
    obs.nontrivial(stateful(p) && want.as_ref().map(|v| !v.is_empty()).unwrap_or(true));
    obs.tag_if(want.is_err(), "fails");
    obs.tag_if(want.as_ref().map(|v| v.len() > 1).unwrap_or(false), "several runs");
    let t = build_t::<M>(p, &env0());
    let built = trace();
    // Running a lifted base value again needs no function calls: only compare what runs at all.
    let got = t.run_state(s0.clone()).view();
    let mut got_tr = built;
    got_tr.extend(trace());
    ensure_eq!(got, want, "run_state");
    if !has_lift_m(p) && !p.any(&|p| matches!(p, P::U(U::Raw(..), _))) {
        ensure_eq!(got_tr, want_tr, "functions run, in order");
    } else {
        let (mut a, mut b) = (got_tr, want_tr);
        a.sort();
        b.sort();
        ensure_eq!(a, b, "functions run");
    }
    ensure_eq!(t.clone().run_state(s0.clone()).view(), want, "run_state of a clone, second run");
    ensure_eq!(t.exec_state(s0.clone(), |m| m.view()), want, "exec_state");
    trace();
    Ok(())
}

fn main() {
    let mut s = Suite::new("C17");
    s.assume("programs are closed terms over the primitives, run on one thread; the transformer's combining functions (supplied by the caller) are lawful");
    s.check(
        "state/programs",
        "at least one primitive changes the state and at least one step depends on another",
        60_000,
        || (prop_oneof![60 => prog(plain_prims(), None, Some(Just(B::Apply).boxed())), 1 => chain(prims_of(vexp1()), None, Some(Just(B::Apply).boxed()), 120)], val(), val()),
        |(p, s0, s1), obs| {
            obs.nontrivial(stateful(p));
            obs.tag_if(p.size() > 8, "more than 8 steps");
            obs.tag_if(p.size() > 60, "more than 60 steps");
            trace();
            let st = build(p, &env0());
            ensure_eq!(trace(), Vec::<S>::new(), "functions run while building");
            for (s0, st) in [(s0, &st), (s1, &st), (s0, &st.clone())] {
                let want = eval(p, &env0(), s0.clone());
                let tr = trace();
                ensure_eq!(st.run_state(s0.clone()), want, "run_state on {s0:?}");
                ensure_eq!(trace(), tr, "functions run, in order");
                ensure_eq!(st.eval_state(s0.clone()), want.0, "eval_state");
                ensure_eq!(trace(), tr, "functions run by eval_state");
                ensure_eq!(st.exec_state(s0.clone()), want.1, "exec_state");
                ensure_eq!(trace(), tr, "functions run by exec_state");
                ensure_eq!(st.exec_pure(s0.clone()), want.1, "exec_pure");
                trace();
            }
            // conversion to the transformer form and back
            let t: StateT<S, Id<(S, S)>, S> = StateT::from_state(st.clone());
            let want = eval(p, &env0(), s0.clone());
            ensure_eq!(t.run_state(s0.clone()).into_inner(), (want.1.clone(), want.0.clone()), "from_state");
            ensure_eq!(t.to_state().run_state(s0.clone()), want, "from_state and to_state");
            let st2 = st.clone();
            let inner: StateT<S, Id<(S, S)>, S> = StateT::new(move |s| Id::new(st2.run_state(s)));
            ensure_eq!(State::from(inner).run_state(s0.clone()), want, "From<StateT>");
            trace();
            Ok(())
        },
    );
    s.check(
        "state/laws",
        "the computations change the state",
        20_000,
        || (prog(plain_prims(), None, Some(Just(B::Apply).boxed())), prog(plain_prims(), None, None), prog(plain_prims(), None, None), val(), val(), fun()),
        |(p, k, l, x, s0, f), obs| {
            obs.nontrivial(stateful(p));
            let m = || build(p, &env0());
            let kk = |k: &Pr| {
                let k = k.clone();
                move |a: S| build(&k, &Arc::new(vec![a]))
            };
            let run = |s: St| {
                trace();
                let r = s.run_state(s0.clone());
                (r, trace())
            };
            ensure_eq!(run(State::pure(x.clone()).bind(kk(k))), run(kk(k)(x.clone())), "left identity");
            ensure_eq!(run(m().bind(State::pure)), run(m()), "right identity");
            let (k2, l2) = (k.clone(), l.clone());
            ensure_eq!(
                run(m().bind(kk(k)).bind(kk(l))),
                run(m().bind(move |a: S| build(&k2, &Arc::new(vec![a])).bind({
                    let l2 = l2.clone();
                    move |a: S| build(&l2, &Arc::new(vec![a]))
                }))),
                "associativity"
            );
            let (f1, f2) = (f.clone(), f.clone());
            ensure_eq!(run(m().fmap(move |a| f1.ap(&a))), run(m().bind(move |a| State::pure(f2.ap(&a)))), "mapping is binding a lifted function");
            ensure_eq!(run(m().fmap(|a| a)), run(m()), "mapping the identity");
            // state primitives
            ensure_eq!(run(state::put(x.clone()).bind(|()| state::get())), (((x.clone(), x.clone())), vec![]), "put then get");
            ensure_eq!(run(state::get::<S>().bind(|s| state::put(s).fmap(|()| UNIT.to_string()))), (((UNIT.into(), s0.clone())), vec![]), "get then put");
            Ok(())
        },
    );
    s.check(
        "state/fallible",
        "the program changes the state and fails, or has a context",
        30_000,
        || (prog(plain_prims(), None, Some(Just(B::Apply).boxed())), pred(), val(), val()),
        |(p, ok, s0, ctx), obs| {
            let (v, fin) = eval(p, &env0(), s0.clone());
            let good = ok.ok(&v);
            obs.nontrivial(stateful(p));
            obs.tag_if(!good, "fails");
            let ok = ok.clone();
            let t: State<S, Result<S, S>> = build(p, &env0()).fmap(move |a| if ok.ok(&a) { Ok(a) } else { Err(format!("E{a}")) });
            let ev = |r: Result<S, rustica::error::ComposableError<S>>| r.map_err(|e| (e.core_error().clone(), e.context(), e.error_code()));
            let want = |c: Vec<S>| if good { Ok(v.clone()) } else { Err((format!("E{v}"), c, None)) };
            let want_s = |c: Vec<S>| if good { Ok(fin.clone()) } else { Err((format!("E{v}"), c, None)) };
            let (r, s) = t.try_run_state(s0.clone());
            ensure_eq!((ev(r), s), (want(vec![]), fin.clone()), "try_run_state");
            ensure_eq!(ev(t.try_eval_state(s0.clone())), want(vec![]), "try_eval_state");
            ensure_eq!(ev(t.try_exec_state(s0.clone())), want_s(vec![]), "try_exec_state");
            let one = vec![ctx.clone()];
            let (r, s) = t.try_run_state_with_context(s0.clone(), ctx.clone());
            ensure_eq!((ev(r), s), (want(one.clone()), fin.clone()), "try_run_state_with_context");
            ensure_eq!(ev(t.try_eval_state_with_context(s0.clone(), ctx.as_str())), want(one.clone()), "try_eval_state_with_context");
            ensure_eq!(ev(t.try_exec_state_with_context(s0.clone(), ErrorContext::new(ctx.clone()))), want_s(one), "try_exec_state_with_context");
            trace();
            Ok(())
        },
    );
    s.check("transformer/option", "the program changes the state, has dependent steps and some outcome", 30_000, || (t_prog(), val()), |(p, s0), obs| check_t::<Option<(S, S)>>(p, s0, obs));
    s.check("transformer/result", "the program changes the state, has dependent steps and some outcome", 30_000, || (t_prog(), val()), |(p, s0), obs| check_t::<Result<(S, S), S>>(p, s0, obs));
    s.check("transformer/option, long", "the program changes the state, has dependent steps and some outcome", 600, || (t_chain(), val()), |(p, s0), obs| check_t::<Option<(S, S)>>(p, s0, obs));
    s.check("transformer/result, long", "the program changes the state, has dependent steps and some outcome", 600, || (t_chain(), val()), |(p, s0), obs| check_t::<Result<(S, S), S>>(p, s0, obs));
    s.check("transformer/list", "the program changes the state, has dependent steps and some outcome", 20_000, || (t_prog(), val()), |(p, s0), obs| check_t::<Vec<(S, S)>>(p, s0, obs));
    s.check(
        "transformer/identity",
        "the program changes the state and has dependent steps",
        20_000,
        || (t_prog().prop_map(total), val()),
        |(p, s0), obs| {
            check_t::<Id<(S, S)>>(p, s0, obs)?;
            let want = eval_t::<Id<(S, S)>>(p, &env0(), s0.clone()).into_inner();
            let st = build_t::<Id<(S, S)>>(p, &env0()).to_state();
            trace();
            ensure_eq!(st.run_state(s0.clone()), (want.1.clone(), want.0.clone()), "to_state");
            ensure_eq!(StateT::<S, Id<(S, S)>, S>::from_state(st).run_state(s0.clone()).into_inner(), want, "to_state and from_state");
            trace();
            Ok(())
        },
    );
    s.check(
        "transformer/fallible",
        "the program changes the state and has dependent steps",
        30_000,
        || (t_prog(), val(), val()),
        |(p, s0, ctx), obs| {
            type M = Result<(S, S), S>;
            let want = eval_t::<M>(p, &env0(), s0.clone());
            obs.nontrivial(stateful(p));
            obs.tag_if(want.is_err(), "fails");
            let t = build_t::<M>(p, &env0());
            obs.tag_if(matches!(t, StateT::LiftM(_)), "lifted");
            fn ev<X>(r: Result<X, rustica::error::ComposableError<S>>) -> Result<X, (S, Vec<S>, Option<u32>)> {
                r.map_err(|e| (e.core_error().clone(), e.context(), e.error_code()))
            }
            let w = |c: Vec<S>| want.clone().map_err(|e| (e, c, None));
            ensure_eq!(ev(t.try_run_state(s0.clone())), w(vec![]), "try_run_state");
            ensure_eq!(ev(t.try_eval_state(s0.clone())), w(vec![]).map(|x| x.1), "try_eval_state");
            ensure_eq!(ev(t.try_exec_state(s0.clone())), w(vec![]).map(|x| x.0), "try_exec_state");
            let one = vec![ctx.clone()];
            ensure_eq!(ev(t.try_run_state_with_context(s0.clone(), ctx.clone())), w(one.clone()), "try_run_state_with_context");
            ensure_eq!(ev(t.try_eval_state_with_context(s0.clone(), ctx.clone())), w(one).map(|x| x.1), "try_eval_state_with_context");
            // mapping the error to another type
            let r = t.map_error(|e: S| e.len()).run_state(s0.clone());
            ensure_eq!(r, want.clone().map_err(|e| e.len()), "map_error");
            let raw: StateT<S, M, S> = StateT::Pure(s0.clone());
            ensure!(matches!(raw.map_error(|e: S| e.len()), StateT::Pure(v) if v == *s0), "map_error of a pure value");
            trace();
            Ok(())
        },
    );
    s.main();
}
/// Without failures.
fn total(p: Pr) -> Pr {
    match p {
        P::Prim(A::Fail(v)) => P::Prim(A::Put(v)),
        P::Prim(A::LiftErr(v)) => P::Prim(A::LiftM(v.clone(), v)),
        P::Prim(A::Check(_)) => P::Prim(A::Get),
        P::Map(f, p) => P::Map(f, Box::new(total(*p))),
        P::Bind(p, s, k) => P::Bind(Box::new(total(*p)), s, k.into_iter().map(total).collect()),
        P::U(u, p) => P::U(u, Box::new(total(*p))),
        P::B(b, f, p, q) => P::B(b, f, Box::new(total(*p)), Box::new(total(*q))),
        p => p,
    }
}
