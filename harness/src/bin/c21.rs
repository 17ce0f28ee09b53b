//! C21: asynchronous computations.
use proptest::prelude::*;
use rustica::datatypes::async_monad::AsyncM;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use vharness::prog::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum A {
    /// an effect that suspends that many times
    Effect(S, u8),
    /// the same, panicking at the end, or (at 3) before there is a future
    Panic(S, u8),
    /// a fallible effect with a default
    Fallible(bool, S, u8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum U {
    Recover(V),
    /// mapped by a function that panics on some values
    MapPanic(Pred),
    Clone,
    New,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum B {
    Apply,
    ApplyOwned,
    ZipWith,
    Zip,
}
pub type Pr = P<A, U, B>;

/// What the program does, as seen from outside. An event names the place in the program, so that
/// one evaluation of a program never has the same event twice.
#[derive(Clone, Default)]
pub struct Log(Arc<Mutex<Vec<S>>>, Arc<AtomicUsize>);
impl Log {
    /// The state of the world, which effects depend on and no program changes.
    fn world(&self) -> usize {
        self.1.load(SeqCst)
    }
    fn emit(&self, s: impl Into<S>) {
        self.0.lock().unwrap().push(s.into());
        tick();
    }
    pub fn take(&self) -> Vec<S> {
        self.put(vec![])
    }
    pub fn put(&self, events: Vec<S>) -> Vec<S> {
        std::mem::replace(&mut *self.0.lock().unwrap(), events)
    }
}
/// Suspends once, waking at once.
struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            return Poll::Ready(());
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
async fn suspend(n: u8) {
    for _ in 0..n {
        Yield(false).await
    }
}
/// What an effect makes of its text in a state of the world.
fn made(s: &S, world: usize) -> S {
    match world {
        0 => format!("v{s}"),
        w => format!("v{s}@{w}"),
    }
}
/// Is the effect the other way round in this state of the world?
fn turned(s: &S, world: usize) -> bool {
    world > 0 && (s.len() + world) % 2 == 1
}
/// A formatted string, a literal, an error or a number: what a panic carries depends on the text.
fn blow(s: &S) -> ! {
    use std::panic::panic_any;
    match s.bytes().fold(0u8, |h, b| h.wrapping_mul(31).wrapping_add(b)) % 4 {
        0 => panic!("{s}"),
        1 => panic!("boom"),
        2 => panic_any(std::io::Error::other(s.clone())),
        _ => panic_any(17u32),
    }
}
fn is_pure(p: &Pr) -> bool {
    match p {
        P::Pure(_) => true,
        P::U(U::Clone, p) => is_pure(p),
        P::B(B::ApplyOwned, ..) => false,
        P::B(_, _, p, q) => is_pure(p) && is_pure(q),
        _ => false,
    }
}

pub fn build(p: &Pr, env: &Env, at: &str, log: &Log) -> AsyncM<S> {
    let (log, at) = (log.clone(), at.to_string());
    match p {
        P::Pure(v) => AsyncM::pure(v.eval(env)),
        P::Prim(A::Effect(s, n)) => {
            let (s, n) = (s.clone(), *n);
            AsyncM::new(move || {
                log.emit(format!("{at} call"));
                let (s, at, log) = (s.clone(), at.clone(), log.clone());
                async move {
                    log.emit(format!("{at} start"));
                    suspend(n).await;
                    log.emit(format!("{at} end"));
                    made(&s, log.world())
                }
            })
        }
        P::Prim(A::Panic(s, n)) => {
            let (s, n) = (s.clone(), *n);
            AsyncM::new(move || {
                let (s, at, log) = (s.clone(), at.clone(), log.clone());
                let fine = turned(&s, log.world());
                if n == 3 && !fine {
                    log.emit(format!("{at} start"));
                    log.emit(format!("{at} panic"));
                    blow(&s)
                }
                async move {
                    log.emit(format!("{at} start"));
                    suspend(n).await;
                    if fine {
                        log.emit(format!("{at} end"));
                        return made(&s, log.world());
                    }
                    log.emit(format!("{at} panic"));
                    blow(&s)
                }
            })
        }
        P::Prim(A::Fallible(ok, s, n)) => {
            let (ok, s, n) = (*ok, s.clone(), *n);
            let default = format!("d{s}");
            AsyncM::<S>::from_result_or_default(
                move || {
                    let (s, at, log) = (s.clone(), at.clone(), log.clone());
                    async move {
                        log.emit(format!("{at} start"));
                        suspend(n).await;
                        log.emit(format!("{at} end"));
                        if ok != turned(&s, log.world()) {
                            Ok(made(&s, log.world()))
                        } else {
                            Err(s)
                        }
                    }
                },
                default,
            )
        }
        P::Map(f, q) => {
            let owned = at.len() % 2 == 0;
            let m = build(q, env, &format!("{at}m"), &log);
            let f = f.clone();
            let step = move |a: S| {
                let (f, at, log) = (f.clone(), at.clone(), log.clone());
                log.emit(format!("{at} map {a}"));
                async move {
                    suspend((a.len() % 3) as u8).await;
                    log.emit(format!("{at} mapped"));
                    f.ap(&a)
                }
            };
            if owned {
                m.fmap_owned(step)
            } else {
                m.fmap(step)
            }
        }
        P::Bind(q, salt, ks) => {
            let owned = *salt % 2 == 0;
            let m = build(q, env, &format!("{at}b"), &log);
            let (ks, salt, env) = (ks.clone(), *salt, env.clone());
            let step = move |a: S| {
                let (ks, env, at, log) = (ks.clone(), env.clone(), at.clone(), log.clone());
                log.emit(format!("{at} k {a}"));
                async move {
                    suspend((a.len() % 2) as u8).await;
                    log.emit(format!("{at} kk"));
                    build(P::pick(&ks, salt, &a), &push(&env, a), &format!("{at}k"), &log)
                }
            };
            if owned {
                m.bind_owned(step)
            } else {
                m.bind(step)
            }
        }
        P::U(U::Recover(v), q) => build(q, env, &format!("{at}r"), &log).recover_with(v.eval(env)),
        P::U(U::MapPanic(c), q) => {
            let c = c.clone();
            build(q, env, &format!("{at}p"), &log).fmap(move |a: S| {
                log.emit(format!("{at} check {a}"));
                if c.ok(&a) {
                    blow(&a)
                }
                async move { a }
            })
        }
        P::U(U::Clone, q) => {
            let m = build(q, env, &format!("{at}c"), &log);
            m.clone()
        }
        P::U(U::New, q) => {
            let m = build(q, env, &format!("{at}n"), &log);
            AsyncM::new(move || {
                let m = m.clone();
                async move { m.try_get().await }
            })
        }
        P::B(b, f, q, r) => {
            let quiet = is_pure(q) && is_pure(r);
            let (x, y) = (build(q, env, &format!("{at}l"), &log), build(r, env, &format!("{at}r"), &log));
            let f = f.clone();
            let two = move |a: &S, b: &S| {
                if !quiet {
                    log.emit(format!("{at} two {a} {b}"));
                }
                f.ap(a, b)
            };
            match b {
                B::Zip => x.zip(y).fmap(move |(a, b)| {
                    let r = two(&a, &b);
                    async move { r }
                }),
                B::ZipWith => x.zip_with(y, move |a, b| two(&a, &b)),
                B::Apply | B::ApplyOwned => {
                    let mk = move |b: S| {
                        let two = two.clone();
                        move |a: S| two(&a, &b)
                    };
                    // a plain function stays a plain one
                    let fs = match is_pure(r) {
                        true => {
                            let b = futures_now(y.try_get());
                            AsyncM::pure(mk(b))
                        }
                        false => y.fmap(move |b: S| {
                            let g = mk(b);
                            async move { g }
                        }),
                    };
                    if *b == B::Apply {
                        x.apply(fs)
                    } else {
                        x.apply_owned(fs)
                    }
                }
            }
        }
    }
}
/// The value of a future that is ready at once.
fn futures_now<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut Context::from_waker(std::task::Waker::noop())) {
        Poll::Ready(v) => v,
        Poll::Pending => panic!("a plain value is not ready"),
    }
}

/// An event of the synchronous reading: its name, the sides it is on of the joins around it, and
/// whether a panic on the other side of one of them may cut it off.
#[derive(Clone, Debug)]
pub struct Ev {
    pub name: S,
    sides: BTreeMap<S, bool>,
    pub may: bool,
}
struct Model {
    evs: Vec<Ev>,
    sides: BTreeMap<S, bool>,
    world: usize,
}
impl Model {
    fn emit(&mut self, name: S) {
        self.evs.push(Ev { name, sides: self.sides.clone(), may: false })
    }
    fn run(&mut self, p: &Pr, env: &Env, at: &str) -> Result<S, ()> {
        Ok(match p {
            P::Pure(v) => v.eval(env),
            P::Prim(A::Effect(s, _)) => {
                self.emit(format!("{at} call"));
                self.emit(format!("{at} start"));
                self.emit(format!("{at} end"));
                made(s, self.world)
            }
            P::Prim(A::Panic(s, _)) => {
                self.emit(format!("{at} start"));
                if turned(s, self.world) {
                    self.emit(format!("{at} end"));
                    return Ok(made(s, self.world));
                }
                self.emit(format!("{at} panic"));
                Err(())?
            }
            P::Prim(A::Fallible(ok, s, _)) => {
                self.emit(format!("{at} start"));
                self.emit(format!("{at} end"));
                match *ok != turned(s, self.world) {
                    true => made(s, self.world),
                    false => format!("d{s}"),
                }
            }
            P::Map(f, q) => {
                let a = self.run(q, env, &format!("{at}m"))?;
                self.emit(format!("{at} map {a}"));
                self.emit(format!("{at} mapped"));
                f.ap(&a)
            }
            P::Bind(q, salt, ks) => {
                let a = self.run(q, env, &format!("{at}b"))?;
                self.emit(format!("{at} k {a}"));
                self.emit(format!("{at} kk"));
                self.run(P::pick(ks, *salt, &a), &push(env, a.clone()), &format!("{at}k"))?
            }
            P::U(U::Recover(v), q) => self.run(q, env, &format!("{at}r")).unwrap_or_else(|_| v.eval(env)),
            P::U(U::MapPanic(c), q) => {
                let a = self.run(q, env, &format!("{at}p"))?;
                self.emit(format!("{at} check {a}"));
                if c.ok(&a) {
                    Err(())?
                }
                a
            }
            P::U(U::Clone, q) => self.run(q, env, &format!("{at}c"))?,
            P::U(U::New, q) => self.run(q, env, &format!("{at}n"))?,
            P::B(_, f, q, r) => {
                let outer = self.sides.clone();
                let from = self.evs.len();
                self.sides.insert(at.to_string(), false);
                let x = self.run(q, env, &format!("{at}l"));
                let mid = self.evs.len();
                self.sides.insert(at.to_string(), true);
                let y = self.run(r, env, &format!("{at}r"));
                self.sides = outer;
                if y.is_err() {
                    self.evs[from..mid].iter_mut().for_each(|e| e.may = true);
                }
                if x.is_err() {
                    self.evs[mid..].iter_mut().for_each(|e| e.may = true);
                }
                let (x, y) = (x?, y?);
                if !(is_pure(q) && is_pure(r)) {
                    self.emit(format!("{at} two {x} {y}"));
                }
                f.ap(&x, &y)
            }
        })
    }
}
/// Is the first event ordered before the second (which comes later in the synchronous reading)?
fn ordered(a: &Ev, b: &Ev) -> bool {
    a.sides.iter().all(|(j, s)| b.sides.get(j).is_none_or(|t| s == t))
}
/// The events seen are those of the synchronous reading, each once, in an order it allows.
fn agree(evs: &[Ev], seen: &[S]) -> Result<(), S> {
    let mut pos: BTreeMap<&str, usize> = BTreeMap::new();
    for (i, s) in seen.iter().enumerate() {
        if pos.insert(s, i).is_some() {
            return Err(format!("{s:?} happened twice"));
        }
    }
    for (i, e) in evs.iter().enumerate() {
        let p = pos.remove(&*e.name);
        if p.is_none() && !e.may {
            return Err(format!("{:?} did not happen", e.name));
        }
        for f in &evs[..i] {
            if !ordered(f, e) {
                continue;
            }
            let q = seen.iter().position(|s| *s == f.name);
            match (q, p) {
                (None, Some(_)) if f.sides.iter().all(|(j, s)| e.sides.get(j) == Some(s)) => return Err(format!("{:?} happened without {:?}", e.name, f.name)),
                (Some(q), Some(p)) if q > p => return Err(format!("{:?} happened before {:?}", e.name, f.name)),
                _ => {}
            }
        }
    }
    match pos.keys().next() {
        Some(s) => Err(format!("{s:?} should not happen")),
        None => Ok(()),
    }
}
pub fn model(p: &Pr) -> (Result<S, ()>, Vec<Ev>) {
    model_in(p, 0)
}
fn model_in(p: &Pr, world: usize) -> (Result<S, ()>, Vec<Ev>) {
    let mut m = Model { evs: vec![], sides: BTreeMap::new(), world };
    let r = m.run(p, &env0(), "");
    (r, m.evs)
}
pub fn env0() -> Env {
    Arc::new(vec![])
}
pub fn effects(p: &Pr) -> bool {
    p.any(&|p| matches!(p, P::Prim(_))) && p.any(&|p| matches!(p, P::Bind(..) | P::B(..)))
}
pub fn progs() -> BoxedStrategy<Pr> {
    let prims = prop_oneof![
        6 => (val(), 0u8..4).prop_map(|(s, n)| A::Effect(s, n)),
        1 => (val(), 0u8..4).prop_map(|(s, n)| A::Panic(s, n)),
        2 => (any::<bool>(), val(), 0u8..4).prop_map(|(b, s, n)| A::Fallible(b, s, n)),
    ];
    let bins = || Some(prop_oneof![Just(B::Apply), Just(B::ApplyOwned), Just(B::ZipWith), Just(B::Zip)].boxed());
    let long = chain(
        prop_oneof![12 => (val(), prop_oneof![8 => Just(0u8), 1 => 1u8..4]).prop_map(|(s, n)| A::Effect(s, n)), 1 => prims.clone()].boxed(),
        Some(prop_oneof![4 => val().prop_map(V::Lit).prop_map(U::Recover), 1 => pred().prop_map(U::MapPanic), 2 => Just(U::Clone), 2 => Just(U::New)].boxed()),
        bins(),
        60,
    );
    let short = prog(
        prims.boxed(),
        Some(
            prop_oneof![
                4 => vexp().prop_map(U::Recover),
                2 => pred().prop_map(U::MapPanic),
                1 => Just(U::Clone),
                1 => Just(U::New),
            ]
            .boxed(),
        ),
        bins(),
    );
    prop_oneof![100 => short, 1 => long].boxed()
}
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ())
}
pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
}
thread_local! {
    static RT: tokio::runtime::Runtime = rt();
}
fn block_on<T>(f: impl Future<Output = T>) -> T {
    RT.with(|rt| rt.block_on(f))
}
fn happened(what: &str, evs: &[Ev], seen: Vec<S>) -> Res {
    agree(evs, &seen).map_err(|e| Fail::with_sig(what, format!("{what}: {e}; happened: {seen:?}")))
}

fn main() {
    let mut s = Suite::new("C21");
    s.assume("programs are closed terms over the operations; functions combining two plain values may run early or late");
    s.check(
        "programs",
        "at least one effect and one combination of steps",
        60_000,
        progs,
        |p, obs| {
            obs.nontrivial(effects(p));
            let log = Log::default();
            let m = build(p, &env0(), "", &log);
            ensure_eq!(log.take(), Vec::<S>::new(), "effects of building");
            let (want, evs) = model(p);
            obs.tag_if(want.is_err(), "panics");
            obs.tag_if(want.is_ok() && evs.iter().any(|e| e.name.ends_with("panic")), "recovers");
            obs.tag_if(evs.iter().any(|e| e.may), "a panic on one side of a join");
            ensure_eq!(caught(|| block_on(m.try_get())), want, "awaiting the program");
            happened("first await", &evs, log.take())?;
            let c = m.clone();
            ensure_eq!(caught(|| block_on(c.try_get())), want, "awaiting a clone, a second time");
            happened("second await", &evs, log.take())?;
            let d = m.clone().recover_with("dflt".into());
            ensure_eq!(log.take(), Vec::<S>::new(), "effects of adding recovery");
            ensure_eq!(caught(|| block_on(d.try_get())), Ok(want.clone().unwrap_or("dflt".into())), "awaiting the program with recovery");
            happened("await with recovery", &evs, log.take())?;
            drop((m, d));
            ensure_eq!(caught(|| block_on(c.try_get())), want, "awaiting after the original is gone");
            log.take();
            // an await that is not driven does nothing; one that is abandoned has run at most a part
            drop(c.try_get());
            ensure_eq!(log.take(), Vec::<S>::new(), "effects of a future never polled");
            Ok(())
        },
    );
    s.check(
        "changing",
        "the awaits give at least two different outcomes",
        30_000,
        || (progs(), prop::collection::vec((0usize..4, any::<u8>()), 2..6)),
        |(p, awaits), obs| {
            let log = Log::default();
            let enter = |w: usize| log.1.store(w, SeqCst);
            enter(awaits[0].0);
            let m = build(p, &env0(), "", &log);
            let (copy, safe) = (m.clone(), m.clone().recover_with("dflt".into()));
            let wrapped = {
                let m = m.clone();
                AsyncM::new(move || {
                    let m = m.clone();
                    async move { m.try_get().await }
                })
            };
            log.take();
            let mut seen = vec![];
            for (i, (world, how)) in awaits.iter().enumerate() {
                enter(*world);
                let (want, evs) = model_in(p, *world);
                let (want, got) = match how % 6 {
                    0 | 1 => (want, caught(|| block_on(m.try_get()))),
                    2 => (want, caught(|| block_on(copy.try_get()))),
                    3 => (want, caught(|| block_on(m.clone().try_get()))),
                    4 => (Ok(want.unwrap_or("dflt".into())), caught(|| block_on(safe.try_get()))),
                    _ => (want, caught(|| block_on(wrapped.try_get()))),
                };
                ensure_eq!(got, want, "await {i}");
                happened("await", &evs, log.take())?;
                seen.push(got);
            }
            obs.nontrivial(seen.iter().any(|s| *s != seen[0]));
            obs.tag_if(seen.iter().any(|s| s.is_ok()) && seen.iter().any(|s| s.is_err()), "panics in some awaits only");
            Ok(())
        },
    );
    s.check(
        "laws",
        "at least one effect and one combination of steps",
        15_000,
        || (progs(), progs(), progs(), val(), fun()),
        |(p, k, l, x, f), obs| {
            obs.nontrivial(effects(p));
            let log = Log::default();
            let cont = |q: &Pr, at: &'static str| {
                let (q, log) = (q.clone(), log.clone());
                move |a: S| {
                    let m = build(&q, &Arc::new(vec![a]), at, &log);
                    async move { m }
                }
            };
            let base = || build(p, &env0(), "p", &log);
            let seen = |m: AsyncM<S>| {
                let r = caught(|| block_on(m.try_get()));
                (r, log.take())
            };
            ensure_eq!(seen(AsyncM::pure(x.clone()).bind(cont(k, "k"))), seen(build(k, &Arc::new(vec![x.clone()]), "k", &log)), "left identity");
            ensure_eq!(seen(base().bind(|a: S| async move { AsyncM::pure(a) })), seen(base()), "right identity");
            let (kc, lc) = (cont(k, "k"), cont(l, "l"));
            let l1 = lc.clone();
            let left = base().bind(kc.clone()).bind(lc);
            let right = base().bind(move |a: S| {
                let (kc, l1) = (kc.clone(), l1.clone());
                async move { kc(a).await.bind(l1) }
            });
            ensure_eq!(seen(left), seen(right), "associativity");
            let f1 = f.clone();
            let g1 = f.clone();
            let mapped = base().fmap(move |a: S| {
                let r = f1.ap(&a);
                async move { r }
            });
            let bound = base().bind(move |a: S| {
                let r = g1.ap(&a);
                async move { AsyncM::pure(r) }
            });
            ensure_eq!(seen(mapped), seen(bound), "mapping is binding a lifted function");
            Ok(())
        },
    );
    s.check(
        "concurrent-operands",
        "at least two operands",
        3_000,
        || (2usize..6, prop::collection::vec((0u8..4, any::<u8>()), 5), val()),
        |(n, shape, v), obs| {
            obs.nontrivial(true);
            // every operand waits for all of them: only concurrent operands get past the barrier
            let bar = Arc::new(tokio::sync::Barrier::new(*n));
            let calls = Arc::new(AtomicUsize::new(0));
            let leaf = |i: usize| {
                let (bar, calls, v, (y, _)) = (bar.clone(), calls.clone(), v.clone(), shape[i % shape.len()]);
                AsyncM::new(move || {
                    let (bar, calls, v) = (bar.clone(), calls.clone(), v.clone());
                    async move {
                        calls.fetch_add(1, SeqCst);
                        suspend(y).await;
                        bar.wait().await;
                        format!("{v}{i}")
                    }
                })
            };
            let mut m = leaf(0);
            let first = m.clone();
            let mut want = format!("{v}0");
            for i in 1..*n {
                // some operands are one and the same computation
                let (op, w) = if shape[i % 5].1 / 8 % 3 == 0 { (first.clone(), format!("{v}0")) } else { (leaf(i), format!("{v}{i}")) };
                let (x, y) = if shape[i % 5].1 % 2 == 0 { (m, op) } else { (op, m) };
                let (wl, wr) = if shape[i % 5].1 % 2 == 0 { (want, w) } else { (w, want) };
                want = format!("({wl},{wr})");
                let fs = |y: AsyncM<S>| {
                    y.fmap(|b: S| async move {
                        let b = b.clone();
                        move |a: S| format!("({a},{b})")
                    })
                };
                m = match shape[i % 5].1 / 2 % 4 {
                    0 => x.zip_with(y, |a, b| format!("({a},{b})")),
                    1 => x.zip(y).fmap(|(a, b)| async move { format!("({a},{b})") }),
                    2 => x.apply(fs(y)),
                    _ => x.apply_owned(fs(y)),
                };
            }
            for i in 0..2 {
                let got = block_on(async { tokio::time::timeout(Duration::from_secs(20), m.try_get()).await });
                ensure!(got.is_ok(), "independent operands wait for each other forever");
                ensure_eq!(got.unwrap(), want, "value");
                ensure_eq!(calls.load(SeqCst), (i + 1) * n, "effects");
            }
            Ok(())
        },
    );
    s.check(
        "concurrent-awaits",
        "at least one effect and one combination of steps",
        4_000,
        || (progs(), 2usize..5, any::<bool>()),
        |(p, n, threads), obs| {
            obs.nontrivial(effects(p));
            let (want, evs) = model(p);
            let log = Log::default();
            let m = build(p, &env0(), "", &log);
            let got: Vec<Result<S, ()>> = if *threads {
                let hs: Vec<_> = (0..*n)
                    .map(|_| {
                        let m = m.clone();
                        std::thread::spawn(move || caught(|| rt().block_on(m.try_get())))
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            } else {
                block_on(async {
                    let hs: Vec<_> = (0..*n)
                        .map(|_| {
                            let m = m.clone();
                            tokio::spawn(async move { m.try_get().await })
                        })
                        .collect();
                    let mut r = vec![];
                    for h in hs {
                        r.push(h.await.map_err(|_| ()));
                    }
                    r
                })
            };
            for r in got {
                ensure_eq!(r, want, "one of several awaits at once");
            }
            let mut count: BTreeMap<S, usize> = BTreeMap::new();
            for e in log.take() {
                *count.entry(e).or_default() += 1;
            }
            for e in &evs {
                let c = count.remove(&e.name).unwrap_or(0);
                ensure!(if e.may { c <= *n } else { c == *n }, "{:?} happened {c} times in {n} awaits", e.name);
            }
            ensure!(count.is_empty(), "unexpected effects {count:?}");
            Ok(())
        },
    );
    s.check(
        "schedules",
        "at least one effect and one combination of steps, and an await that suspends",
        20_000,
        || (progs(), 2usize..5, prop::collection::vec((0u8..8, prop::bool::weighted(0.15)), 0..24)),
        |(p, n, sched), obs| {
            let (want, evs) = model(p);
            let log = Log::default();
            let m = build(p, &env0(), "", &log);
            // None: abandoned or done
            let mut runs: Vec<Option<Pin<Box<dyn Future<Output = S> + '_>>>> = (0..*n)
                .map(|_| {
                    let m = &m;
                    Some(Box::pin(async move { m.try_get().await }) as Pin<Box<dyn Future<Output = S>>>)
                })
                .collect();
            let (mut done, mut dropped, mut suspended) = (0usize, 0usize, false);
            // the rest of the schedule drives every run to its end
            let rest = (0..10_000usize).map(|i| ((i % n) as u8, false));
            for (i, abandon) in sched.iter().cloned().chain(rest) {
                if runs.iter().all(|r| r.is_none()) {
                    break;
                }
                let slot = &mut runs[i as usize % n];
                let Some(f) = slot else { continue };
                if abandon {
                    *slot = None;
                    dropped += 1;
                    continue;
                }
                match caught(|| f.as_mut().poll(&mut Context::from_waker(std::task::Waker::noop()))) {
                    Ok(Poll::Pending) => suspended = true,
                    Ok(Poll::Ready(v)) => {
                        ensure_eq!(Ok(v), want, "one of several interleaved awaits");
                        *slot = None;
                        done += 1;
                    }
                    Err(()) => {
                        ensure_eq!(Err(()), want, "one of several interleaved awaits");
                        *slot = None;
                        done += 1;
                    }
                }
            }
            ensure!(done + dropped == *n, "an await never ends");
            obs.nontrivial(effects(p) && suspended);
            obs.tag_if(dropped > 0 && suspended, "an await is abandoned");
            let mut count: BTreeMap<S, usize> = BTreeMap::new();
            for e in log.take() {
                *count.entry(e).or_default() += 1;
            }
            for e in &evs {
                let c = count.remove(&e.name).unwrap_or(0);
                ensure!(c <= done + dropped && (e.may || c >= done), "{:?} happened {c} times in {done} awaits and {dropped} abandoned ones", e.name);
            }
            ensure!(count.is_empty(), "unexpected effects {count:?}");
            drop(runs);
            ensure_eq!(caught(|| block_on(m.try_get())), want, "awaiting afterwards");
            happened("await afterwards", &evs, log.take())
        },
    );
    s.main()
}
