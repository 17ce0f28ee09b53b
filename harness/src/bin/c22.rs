//! C22: continuations.
use proptest::prelude::*;
use rustica::datatypes::cont::{Cont, ContFn2};
use rustica::datatypes::id::Id;
use rustica::traits::monad::Monad;
use rustica::transformers::cont_t::ContT;
use rustica::transformers::MonadTransformer;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use vharness::cont::*;
use vharness::ensure_eq;
use vharness::prog::*;
use vharness::runner::*;
use vharness::sym::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum A {
    /// drops the rest
    Abort(S),
    /// runs the rest once, and then changes the answer
    Once(V, Fun),
    /// runs the rest twice and combines the answers
    Twice(V, V, Fun2),
    /// a computation of the base monad
    Lift(Kl, V),
    /// resumes after an enclosing captured block
    Escape(u8, V),
    /// resumes after any block captured so far, even one that is over
    Reenter(u8, V),
    /// drops the rest for now, keeping it for when the run is over
    Suspend(S),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum U {
    CallCc,
    /// runs the program within, changing its answer before going on
    Delim(Fun),
    Wrap,
    Convert,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum B {
    Apply,
}
pub type Pr = P<A, U, B>;
/// Runs of the rest beyond the first one, and resumptions of blocks that are over.
const FUEL: usize = 7;

thread_local! {
    /// The rests kept by suspensions.
    static KEPT: RefCell<Vec<Rc<dyn Fn(S) -> Md<S>>>> = const { RefCell::new(vec![]) };
}
fn keep(k: impl Fn(S) -> Md<S> + 'static) {
    KEPT.with(|r| r.borrow_mut().push(Rc::new(k)))
}
fn drop_kept() {
    let old = KEPT.with(|r| std::mem::take(&mut *r.borrow_mut()));
    drop(old);
}
/// After a run: takes up rests kept by it, and continuations it captured, with further values.
fn resume<K: Clone>(ctx: &Ctx<K>, calls: &[(u8, S)], enter: impl Fn(K, S) -> Md<S>) -> Vec<Md<S>> {
    let mut out = vec![];
    for (i, v) in calls {
        let kept: Vec<_> = KEPT.with(|r| r.borrow().clone());
        emit(format!("later with {v}"));
        match (ctx.slot(*i / 2), kept.len()) {
            (_, n) if n > 0 && i % 2 == 0 => out.push(kept[*i as usize / 2 % n](v.clone())),
            (Some(k), _) => out.push(enter(k, v.clone())),
            _ => (),
        }
    }
    out
}

/// The state of one run, on the library's side.
pub struct Ctx<K> {
    fuel: AtomicUsize,
    slots: Mutex<Vec<K>>,
}
impl<K> Ctx<K> {
    pub fn new() -> Arc<Self> {
        Arc::new(Ctx { fuel: AtomicUsize::new(FUEL), slots: Mutex::new(vec![]) })
    }
    #[allow(deprecated)]
    fn burn(&self) -> bool {
        self.fuel.fetch_update(SeqCst, SeqCst, |n| n.checked_sub(1)).is_ok()
    }
    pub fn reset(&self) {
        self.fuel.store(FUEL, SeqCst);
        self.slots.lock().unwrap().clear();
        drop_kept();
    }
}
impl<K: Clone> Ctx<K> {
    fn slot(&self, i: u8) -> Option<K> {
        let s = self.slots.lock().unwrap();
        match s.len() {
            0 => None,
            n => Some(s[i as usize % n].clone()),
        }
    }
}
/// The values bound so far, and the continuations captured around.
pub struct Scope<K> {
    vals: Env,
    ks: Arc<Vec<K>>,
    ctx: Arc<Ctx<K>>,
}
impl<K> Clone for Scope<K> {
    fn clone(&self) -> Self {
        Scope { vals: self.vals.clone(), ks: self.ks.clone(), ctx: self.ctx.clone() }
    }
}
impl<K: Clone> Scope<K> {
    pub fn new(ctx: &Arc<Ctx<K>>) -> Self {
        Scope { vals: Arc::new(vec![]), ks: Arc::new(vec![]), ctx: ctx.clone() }
    }
    fn val(&self, v: S) -> Self {
        Scope { vals: push(&self.vals, v), ..self.clone() }
    }
    fn captured(&self, k: K) -> Self {
        let mut ks = (*self.ks).clone();
        ks.push(k.clone());
        self.ctx.slots.lock().unwrap().push(k);
        Scope { ks: Arc::new(ks), ..self.clone() }
    }
    fn enclosing(&self, i: u8) -> Option<K> {
        match self.ks.len() {
            0 => None,
            n => Some(self.ks[n - 1 - i as usize % n].clone()),
        }
    }
}

pub trait Base: Repr<S> + Clone + Send + Sync + Monad<Source = S, Output<S> = Self> + 'static {}
impl<M: Repr<S> + Clone + Send + Sync + Monad<Source = S, Output<S> = M> + 'static> Base for M {}
fn amap<M: Base>(m: M, f: &Fun) -> M {
    M::mk(m.view().map(|a| f.ap(a)))
}
fn two<M: Base>(a: M, b: M, f: &Fun2) -> M {
    M::mk(both(M::KIND, &a.view(), &b.view(), f))
}
/// Two answers combined; those with several values are put one after the other.
fn both(k: Kind, a: &Md<S>, b: &Md<S>, f: &Fun2) -> Md<S> {
    if k == Kind::List {
        return Md::ok(a.values().iter().chain(b.values()).map(|x| f.ap(x, x)).collect());
    }
    a.ap(b, k == Kind::Val, |a, b| f.ap(a, b))
}
/// A computation of the base monad, with at most two values.
fn lifted(k: Kind, f: &Kl, x: &S) -> Md<S> {
    let mut m = kl_md(k, f, x);
    if let Ok(v) = &mut m.out {
        v.truncate(2)
    }
    m
}
/// The answer of an aborted computation.
fn aborted(k: Kind, s: &S) -> Md<S> {
    match k {
        Kind::Res | Kind::Val => Md::err(vec![s.clone()]),
        Kind::Opt => Md::err(vec![]),
        Kind::List => Md::ok(vec![]),
        Kind::One => Md::ok(vec![s.clone()]),
        Kind::Log => Md { log: vec![s.clone()], out: Ok(vec![s.clone()]) },
    }
}

pub type KT<M> = Arc<dyn Fn(S) -> ContT<S, M, S> + Send + Sync>;
pub fn build<M: Base>(p: &Pr, sc: &Scope<KT<M>>) -> ContT<S, M, S> {
    match p {
        P::Pure(v) => ContT::pure(v.eval(&sc.vals)),
        P::Prim(A::Abort(s)) => {
            let s = s.clone();
            ContT::new(move |_| {
                emit(format!("abort {s}"));
                M::mk(aborted(M::KIND, &s))
            })
        }
        P::Prim(A::Suspend(s)) => {
            let s = s.clone();
            ContT::new(move |k: Arc<dyn Fn(S) -> M + Send + Sync>| {
                emit(format!("suspend {s}"));
                keep(move |x| k(x).view());
                M::mk(aborted(M::KIND, &s))
            })
        }
        P::Prim(A::Once(v, f)) => {
            let (v, f) = (v.eval(&sc.vals), f.clone());
            ContT::new(move |k| {
                emit(format!("once {v}"));
                let r = k(v.clone());
                emit("back");
                amap(r, &f)
            })
        }
        P::Prim(A::Twice(v, w, f)) => {
            let (v, w, f, ctx) = (v.eval(&sc.vals), w.eval(&sc.vals), f.clone(), sc.ctx.clone());
            ContT::new(move |k| {
                emit("twice");
                let a = k(v.clone());
                if !ctx.burn() {
                    return a;
                }
                emit("again");
                two(a, k(w.clone()), &f)
            })
        }
        P::Prim(A::Lift(k, v)) => ContT::lift(M::mk(lifted(M::KIND, k, &v.eval(&sc.vals)))),
        P::Prim(A::Escape(i, v)) => match sc.enclosing(*i) {
            Some(k) => k(v.eval(&sc.vals)),
            None => ContT::pure(v.eval(&sc.vals)),
        },
        P::Prim(A::Reenter(i, v)) => {
            let (i, v, ctx) = (*i, v.eval(&sc.vals), sc.ctx.clone());
            ContT::pure(()).bind(move |()| match ctx.slot(i) {
                Some(k) if ctx.burn() => {
                    emit(format!("re-enter with {v}"));
                    k(v.clone())
                }
                _ => ContT::pure(v.clone()),
            })
        }
        P::Map(f, q) => {
            let f = f.clone();
            build(q, sc).fmap(move |a: S| run1(&f, &a))
        }
        P::Bind(q, salt, ks) => {
            let (ks, salt, s) = (ks.clone(), *salt, sc.clone());
            build(q, sc).bind(move |a: S| {
                emit(format!("k {a}"));
                build(P::pick(&ks, salt, &a), &s.val(a.clone()))
            })
        }
        P::U(U::CallCc, q) => {
            let (q, sc) = (q.clone(), sc.clone());
            ContT::call_cc(move |k: KT<M>| {
                emit("capture");
                build(&q, &sc.captured(k))
            })
        }
        P::U(U::Delim(f), q) => {
            let (f, m) = (f.clone(), build(q, sc));
            ContT::new(move |k| amap(m.run(move |x| k(x)), &f))
        }
        P::U(U::Wrap, q) => {
            let m = build(q, sc);
            ContT::new(move |k| {
                let m = m.clone();
                let run = &m.run_cont;
                run(k)
            })
        }
        P::U(U::Convert, q) => build(q, sc).clone(),
        P::B(B::Apply, f, q, r) => {
            let f = f.clone();
            let (x, y) = operands(q, r, |p| build(p, sc));
            let fs = y.fmap(move |b: S| -> Arc<dyn Fn(S) -> S + Send + Sync> {
                let f = f.clone();
                Arc::new(move |a| run2(&f, &a, &b))
            });
            x.apply(fs)
        }
    }
}

pub type KC = Arc<dyn Fn(S) -> Cont<S, ()> + Send + Sync>;
thread_local! {
    /// Blocks of captured continuations: their functions must be `Copy`.
    static BLOCKS: RefCell<Vec<(Rc<Pr>, Scope<KC>)>> = const { RefCell::new(vec![]) };
}
pub fn plain(p: &Pr, sc: &Scope<KC>) -> Cont<S, S> {
    match p {
        P::Pure(v) => {
            let v = v.eval(&sc.vals);
            if v.len() % 2 == 0 {
                Cont::pure(v)
            } else {
                Cont::return_cont(v)
            }
        }
        P::Prim(A::Abort(s)) => {
            let s = s.clone();
            Cont::new(move |_| {
                emit(format!("abort {s}"));
                s.clone()
            })
        }
        P::Prim(A::Suspend(s)) => {
            let s = s.clone();
            Cont::new(move |k| {
                emit(format!("suspend {s}"));
                keep(move |x| Md::ok(vec![k(x)]));
                s.clone()
            })
        }
        P::Prim(A::Once(v, f)) => {
            let (v, f) = (v.eval(&sc.vals), f.clone());
            Cont::new(move |k| {
                emit(format!("once {v}"));
                let r = k(v.clone());
                emit("back");
                f.ap(&r)
            })
        }
        P::Prim(A::Twice(v, w, f)) => {
            let (v, w, f, ctx) = (v.eval(&sc.vals), w.eval(&sc.vals), f.clone(), sc.ctx.clone());
            Cont::new(move |k| {
                emit("twice");
                let a = k(v.clone());
                if !ctx.burn() {
                    return a;
                }
                emit("again");
                f.ap(&a, &k(w.clone()))
            })
        }
        P::Prim(A::Lift(k, v)) => ContT::lift(<Id<S> as Repr<S>>::mk(kl_md(Kind::One, k, &v.eval(&sc.vals)))).to_cont(),
        P::Prim(A::Escape(i, v)) => match sc.enclosing(*i) {
            Some(k) => k(v.eval(&sc.vals)).fmap(|()| {
                emit("after an escape");
                S::new()
            }),
            None => Cont::pure(v.eval(&sc.vals)),
        },
        P::Prim(A::Reenter(i, v)) => {
            let (i, v, ctx) = (*i, v.eval(&sc.vals), sc.ctx.clone());
            Cont::pure(()).bind(move |()| match ctx.slot(i) {
                Some(k) if ctx.burn() => {
                    emit(format!("re-enter with {v}"));
                    k(v.clone()).bind(|()| {
                        emit("after re-entering");
                        Cont::pure(S::new())
                    })
                }
                _ => Cont::pure(v.clone()),
            })
        }
        P::Map(f, q) => {
            let f = f.clone();
            plain(q, sc).fmap(move |a: S| run1(&f, &a))
        }
        P::Bind(q, salt, ks) => {
            let (ks, salt, s) = (ks.clone(), *salt, sc.clone());
            plain(q, sc).bind(move |a: S| {
                emit(format!("k {a}"));
                plain(P::pick(&ks, salt, &a), &s.val(a.clone()))
            })
        }
        P::U(U::CallCc, q) => {
            let id = BLOCKS.with(|b| {
                b.borrow_mut().push((Rc::new((**q).clone()), sc.clone()));
                b.borrow().len() - 1
            });
            Cont::pure(()).call_cc(move |k: Box<dyn Fn(S) -> Cont<S, ()> + Send + Sync>| {
                emit("capture");
                let (q, sc) = BLOCKS.with(|b| b.borrow()[id].clone());
                plain(&q, &sc.captured(Arc::from(k)))
            })
        }
        P::U(U::Delim(f), q) => {
            let (f, m) = (f.clone(), plain(q, sc));
            Cont::new(move |k| f.ap(&m.run(move |x| k(x))))
        }
        P::U(U::Wrap, q) => {
            let m = plain(q, sc);
            Cont::new(move |k| m.run(move |x| k(x)))
        }
        P::U(U::Convert, q) => {
            let m = ContT::from_cont(plain(q, sc));
            if q.size() % 2 == 0 {
                Cont::from(m)
            } else {
                m.to_cont()
            }
        }
        P::B(B::Apply, f, q, r) => {
            let f = f.clone();
            let (x, y) = operands(q, r, |p| plain(p, sc));
            let fs = y.fmap(move |b: S| -> ContFn2<S, S> {
                let f = f.clone();
                Arc::new(move |a| run2(&f, &a, &b))
            });
            x.apply(fs)
        }
    }
}

/// The direct continuation-passing reading.
type KM = Rc<dyn Fn(S) -> Md<S>>;
fn eval(kind: Kind, p: &Pr, sc: &Scope<KM>, k: KM) -> Md<S> {
    match p {
        P::Pure(v) => k(v.eval(&sc.vals)),
        P::Prim(A::Abort(s)) => {
            emit(format!("abort {s}"));
            aborted(kind, s)
        }
        P::Prim(A::Suspend(s)) => {
            emit(format!("suspend {s}"));
            keep(move |x| k(x));
            aborted(kind, s)
        }
        P::Prim(A::Once(v, f)) => {
            let v = v.eval(&sc.vals);
            emit(format!("once {v}"));
            let r = k(v);
            emit("back");
            r.map(|a| f.ap(a))
        }
        P::Prim(A::Twice(v, w, f)) => {
            emit("twice");
            let a = k(v.eval(&sc.vals));
            if !sc.ctx.burn() {
                return a;
            }
            emit("again");
            let b = k(w.eval(&sc.vals));
            both(kind, &a, &b, f)
        }
        P::Prim(A::Lift(f, v)) => lifted(kind, f, &v.eval(&sc.vals)).bind(|a| k(a.clone())),
        P::Prim(A::Escape(i, v)) => match sc.enclosing(*i) {
            Some(k) => k(v.eval(&sc.vals)),
            None => k(v.eval(&sc.vals)),
        },
        P::Prim(A::Reenter(i, v)) => {
            let v = v.eval(&sc.vals);
            match sc.ctx.slot(*i) {
                Some(k) if sc.ctx.burn() => {
                    emit(format!("re-enter with {v}"));
                    k(v)
                }
                _ => k(v),
            }
        }
        P::Map(f, q) => {
            let f = f.clone();
            eval(kind, q, sc, Rc::new(move |a| k(run1(&f, &a))))
        }
        P::Bind(q, salt, ks) => {
            let (ks, salt, s) = (ks.clone(), *salt, sc.clone());
            eval(
                kind,
                q,
                sc,
                Rc::new(move |a| {
                    emit(format!("k {a}"));
                    eval(kind, P::pick(&ks, salt, &a), &s.val(a.clone()), k.clone())
                }),
            )
        }
        P::U(U::CallCc, q) => {
            emit("capture");
            eval(kind, q, &sc.captured(k.clone()), k)
        }
        P::U(U::Delim(f), q) => eval(kind, q, sc, k).map(|a| f.ap(a)),
        P::U(_, q) => eval(kind, q, sc, k),
        P::B(B::Apply, f, q, r) => {
            let (f, q, s) = (f.clone(), q.clone(), sc.clone());
            // the function first
            eval(
                kind,
                r,
                sc,
                Rc::new(move |b| {
                    let (f, k) = (f.clone(), k.clone());
                    eval(kind, &q, &s, Rc::new(move |a| k(run2(&f, &a, &b))))
                }),
            )
        }
    }
}
pub fn model(kind: Kind, p: &Pr, fin: &Kl) -> (Md<S>, Vec<S>) {
    let (r, tr, ..) = model_later(kind, p, fin, &[]);
    (r, tr)
}
/// With what follows when the given rests are taken up after the run.
fn model_later(kind: Kind, p: &Pr, fin: &Kl, calls: &[(u8, S)]) -> (Md<S>, Vec<S>, Vec<Md<S>>, Vec<S>) {
    let ctx: Arc<Ctx<KM>> = Ctx::new();
    trace();
    let fin = fin.clone();
    let r = eval(
        kind,
        p,
        &Scope::new(&ctx),
        Rc::new(move |x| {
            emit(format!("end {x}"));
            kl_md(kind, &fin, &x)
        }),
    );
    let tr = trace();
    let later = resume(&ctx, calls, |k, v| k(v));
    ctx.reset();
    (r, tr, later, trace())
}
fn laters() -> BoxedStrategy<Vec<(u8, S)>> {
    proptest::collection::vec((any::<u8>(), val()), 0..4).boxed()
}
pub fn control(p: &Pr) -> bool {
    p.any(&|p| matches!(p, P::Prim(_))) && p.any(&|p| matches!(p, P::Bind(..) | P::B(..)))
}
fn tags(p: &Pr, tr: &[S], obs: &mut Obs) {
    obs.nontrivial(control(p));
    obs.tag_if(p.any(&|p| matches!(p, P::U(U::CallCc, q) if q.any(&|p| matches!(p, P::Prim(A::Escape(..)))))), "escapes");
    obs.tag_if(p.any(&|p| matches!(p, P::U(U::CallCc, q) if q.any(&|p| matches!(p, P::U(U::CallCc, _))))), "nested captures");
    obs.tag_if(tr.iter().any(|t| t.starts_with("again")), "several runs of the rest");
    obs.tag_if(tr.iter().any(|t| t.starts_with("re-enter")), "re-enters a block");
    obs.tag_if(tr.iter().any(|t| t.starts_with("abort")), "aborts");
}
pub fn progs() -> BoxedStrategy<Pr> {
    let calm = prop_oneof![
        20 => (vexp1(), fun()).prop_map(|(v, f)| A::Once(v, f)),
        1 => (vexp1(), vexp1(), fun2()).prop_map(|(v, w, f)| A::Twice(v, w, f)),
        1 => (any::<u8>(), vexp1()).prop_map(|(i, v)| A::Escape(i, v)),
    ];
    let long = chain(calm.boxed(), Some(prop_oneof![6 => Just(U::CallCc), 1 => Just(U::Wrap), 1 => Just(U::Convert)].boxed()), Some(Just(B::Apply).boxed()), 60);
    let prims = prop_oneof![
        1 => val().prop_map(A::Abort),
        2 => val().prop_map(A::Suspend),
        4 => (vexp(), fun()).prop_map(|(v, f)| A::Once(v, f)),
        3 => (vexp(), vexp(), fun2()).prop_map(|(v, w, f)| A::Twice(v, w, f)),
        3 => (kl(), vexp()).prop_map(|(k, v)| A::Lift(k, v)),
        4 => (any::<u8>(), vexp()).prop_map(|(i, v)| A::Escape(i, v)),
        2 => (any::<u8>(), vexp()).prop_map(|(i, v)| A::Reenter(i, v)),
    ];
    let un = prop_oneof![
        6 => Just(U::CallCc),
        2 => fun().prop_map(U::Delim),
        1 => Just(U::Wrap),
        1 => Just(U::Convert),
    ];
    // blocks around most programs, so that captured continuations are in scope
    let p = prog(prims.boxed(), Some(un.boxed()), Some(Just(B::Apply).boxed()));
    prop_oneof![
        40 => p.clone(),
        1 => long,
        60 => p.prop_map(|p| P::U(U::CallCc, Box::new(p))),
    ]
    .boxed()
}

macro_rules! transformer {
    ($s:ident, $name:literal, $C:ident, $n:expr) => {
        $s.check(
            concat!("transformer/", $name),
            "at least one primitive and one combination of steps",
            $n,
            || (progs(), kl(), laters()),
            |(p, fin, calls), obs| {
                type M = $C<S>;
                let (want, tr, later, after) = model_later(<M as Repr<S>>::KIND, p, fin, calls);
                obs.tag_if(!later.is_empty(), "resumed after the run");
                tags(p, &tr, obs);
                obs.tag_if(!want.is_ok(), "the answer is a failure");
                let ctx: Arc<Ctx<KT<M>>> = Ctx::new();
                let m = build::<M>(p, &Scope::new(&ctx));
                ensure_eq!(trace(), Vec::<S>::new(), "effects of building");
                for i in 0..2 {
                    let fin = fin.clone();
                    ctx.reset();
                    let got = m.clone().run(move |x| {
                        emit(format!("end {x}"));
                        M::mk(kl_md(<M as Repr<S>>::KIND, &fin, &x))
                    });
                    ensure_eq!(got.view(), want, "the answer of run {i}");
                    ensure_eq!(trace(), tr, "what happened in run {i}");
                }
                // the computation is gone, what it left behind goes on
                drop(m);
                let got = resume(&ctx, calls, |k, v| {
                    k(v).run(|x| {
                        emit(format!("past the block with {x}"));
                        M::mk(aborted(M::KIND, &x))
                    })
                    .view()
                });
                ensure_eq!(got, later, "the answers of what was resumed after the run");
                ensure_eq!(trace(), after, "what happened after the run");
                ctx.reset();
                Ok(())
            },
        );
    };
}
fn main() {
    let mut s = Suite::new("C22");
    s.assume("programs are closed terms; the rest is run again, or a finished block resumed, at most seven times in one run");
    s.check(
        "plain",
        "at least one primitive and one combination of steps",
        60_000,
        || (progs(), kl(), laters()),
        |(p, fin, calls), obs| {
            let (want, tr, later, after) = model_later(Kind::One, p, fin, calls);
            obs.tag_if(!later.is_empty(), "resumed after the run");
            let want = want.values()[0].clone();
            tags(p, &tr, obs);
            BLOCKS.with(|b| b.borrow_mut().clear());
            let ctx: Arc<Ctx<KC>> = Ctx::new();
            let m = plain(p, &Scope::new(&ctx));
            ensure_eq!(trace(), Vec::<S>::new(), "effects of building");
            let end = |fin: &Kl| {
                let fin = fin.clone();
                move |x: S| {
                    emit(format!("end {x}"));
                    kl_md(Kind::One, &fin, &x).values()[0].clone()
                }
            };
            for i in 0..2 {
                ctx.reset();
                ensure_eq!(m.clone().run(end(fin)), want, "the answer of run {i}");
                ensure_eq!(trace(), tr, "what happened in run {i}");
            }
            // the same computation seen as its transformer form
            ctx.reset();
            let e = end(fin);
            let t: ContT<S, Id<S>, S> = ContT::from_cont(m);
            ensure_eq!(t.run(move |x| Id::new(e(x))).into_inner(), want, "the answer of the transformer form");
            ensure_eq!(trace(), tr, "what happened in the transformer form");
            drop(t);
            let got = resume(&ctx, calls, |k, v| {
                Md::ok(vec![k(v).run(|()| {
                    emit("past the block");
                    S::new()
                })])
            });
            ensure_eq!(got, later, "the answers of what was resumed after the run");
            ensure_eq!(trace(), after, "what happened after the run");
            ctx.reset();
            BLOCKS.with(|b| b.borrow_mut().clear());
            Ok(())
        },
    );
    transformer!(s, "Id", CId, 30_000);
    transformer!(s, "Option", COpt, 20_000);
    transformer!(s, "Result", CRes, 20_000);
    transformer!(s, "Validated", CVal, 20_000);
    transformer!(s, "Choice", CCh, 20_000);
    transformer!(s, "Writer", CWr, 20_000);
    s.check(
        "laws",
        "at least one primitive and one combination of steps",
        15_000,
        || (progs(), progs(), progs(), val(), fun(), kl()),
        |(p, k, l, x, f, fin), obs| {
            obs.nontrivial(control(p));
            type M = CRes<S>;
            let run = |mk: &dyn Fn(&Scope<KT<M>>) -> ContT<S, M, S>| {
                let ctx: Arc<Ctx<KT<M>>> = Ctx::new();
                let fin = fin.clone();
                trace();
                let r = mk(&Scope::new(&ctx)).run(move |x| {
                    emit(format!("end {x}"));
                    M::mk(kl_md(Kind::Res, &fin, &x))
                });
                ctx.reset();
                (r, trace())
            };
            let cont = |q: &Pr, sc: &Scope<KT<M>>| {
                let (q, sc) = (q.clone(), sc.clone());
                move |a: S| build::<M>(&q, &sc.val(a))
            };
            ensure_eq!(run(&|sc| ContT::pure(x.clone()).bind(cont(k, sc))), run(&|sc| build(k, &sc.val(x.clone()))), "left identity");
            ensure_eq!(run(&|sc| build(p, sc).bind(ContT::pure)), run(&|sc| build(p, sc)), "right identity");
            ensure_eq!(
                run(&|sc| build(p, sc).bind(cont(k, sc)).bind(cont(l, sc))),
                run(&|sc| {
                    let (kc, lc) = (cont(k, sc), Arc::new(cont(l, sc)));
                    build(p, sc).bind(move |a| {
                        let lc = lc.clone();
                        kc(a).bind(move |b| lc(b))
                    })
                }),
                "associativity"
            );
            let f2 = f.clone();
            ensure_eq!(
                run(&|sc| {
                    let f = f2.clone();
                    build(p, sc).fmap(move |a: S| f.ap(&a))
                }),
                run(&|sc| {
                    let f = f2.clone();
                    build(p, sc).bind(move |a: S| ContT::pure(f.ap(&a)))
                }),
                "mapping is binding a lifted function"
            );
            Ok(())
        },
    );
    s.main()
}
