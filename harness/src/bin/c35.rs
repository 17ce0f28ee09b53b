//! C35: computations are values: runs of one computation, also nested in each other and on several
//! threads at once, do not influence each other.
use proptest::prelude::*;
use rustica::datatypes::cont::Cont;
use rustica::datatypes::reader::Reader;
use rustica::transformers::{ContT, ReaderT, StateT};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use vharness::cont::*;
use vharness::prog::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

macro_rules! readings {
    ($($m:ident $p:literal),*) => { $(#[path = $p] #[allow(dead_code)] mod $m;)* };
}
readings!(c17 "c17.rs", c18 "c18.rs", c20 "c20.rs", c21 "c21.rs", c22 "c22.rs", c27 "c27.rs");

/// In the middle of a run, before its `pos`-th user function, another run starts and completes;
/// before that one, perhaps, a run that ends with a user function that panics.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Step {
    pos: u8,
    elsewhere: bool,
    input: u8,
    dies: Option<u8>,
}
fn steps() -> BoxedStrategy<Vec<Step>> {
    let s = (any::<u8>(), any::<bool>(), any::<u8>(), prop::option::weighted(0.3, any::<u8>()))
        .prop_map(|(pos, elsewhere, input, dies)| Step { pos, elsewhere, input, dies });
    prop::collection::vec(s, 1..4).boxed()
}
/// What a run yields, and the user functions it runs.
type Got<O> = (O, Vec<S>);
trait Value: PartialEq + Debug + Clone + Send + Sync + 'static {}
impl<T: PartialEq + Debug + Clone + Send + Sync + 'static> Value for T {}
type Run<O> = Arc<dyn Fn(usize) -> Got<O> + Send + Sync>;
type LRun<O> = Rc<dyn Fn(usize) -> Got<O>>;
type Errs = Arc<Mutex<Vec<S>>>;

fn judge<O: Value>(what: &str, got: Got<O>, want: &Got<O>, errs: &Errs) {
    if got != *want {
        errs.lock().unwrap_or_else(|e| e.into_inner()).push(format!("{what}: got {got:?}, expected {want:?}"));
    }
}
thread_local! {
    static DYING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// A run whose `pos`-th user function panics.
fn die<O>(pos: Option<u8>, ticks: usize, run: impl FnOnce() -> O) {
    if let Some(pos) = pos.filter(|_| ticks > 0) {
        at_tick(pos as usize % ticks, || panic!("a step of this run panics"));
        DYING.set(true);
        let _ = no_panic(run);
        DYING.set(false);
        no_tick();
    }
}
fn nest<O: Value>(run: &Run<O>, wants: &Arc<Vec<Got<O>>>, ticks: &Arc<Vec<usize>>, sched: &[Step], i: usize, errs: &Errs) {
    let mut what = "the innermost run";
    if let Some((st, rest)) = sched.split_first() {
        if ticks[i] > 0 {
            what = "the outer run";
            let (run, wants, ticks, rest, errs, st) = (run.clone(), wants.clone(), ticks.clone(), rest.to_vec(), errs.clone(), st.clone());
            at_tick(st.pos as usize % ticks[i], move || {
                let j = st.input as usize % wants.len();
                let inner = {
                    let errs = errs.clone();
                    move || {
                        die(st.dies, ticks[j], || run(j));
                        nest(&run, &wants, &ticks, &rest, j, &errs)
                    }
                };
                if !st.elsewhere {
                    inner()
                } else if std::thread::spawn(inner).join().is_err() {
                    errs.lock().unwrap_or_else(|e| e.into_inner()).push("a run on another thread panicked".into());
                }
            });
        }
    }
    let got = run(i);
    no_tick();
    judge(what, got, &wants[i], errs);
}
fn nest_here<O: Value>(run: &LRun<O>, wants: &Rc<Vec<Got<O>>>, ticks: &Rc<Vec<usize>>, sched: &[Step], i: usize, errs: &Errs) {
    if let Some((st, rest)) = sched.split_first() {
        if ticks[i] > 0 {
            let (run, wants, ticks, rest, errs, st) = (run.clone(), wants.clone(), ticks.clone(), rest.to_vec(), errs.clone(), st.clone());
            at_tick(st.pos as usize % ticks[i], move || {
                let j = st.input as usize % wants.len();
                die(st.dies, ticks[j], || run(j));
                nest_here(&run, &wants, &ticks, &rest, j, &errs)
            });
        }
    }
    let got = run(i);
    no_tick();
    judge("a nested run", got, &wants[i], errs);
}
/// The number of user functions each run alone performs.
fn count<R>(n: usize, run: impl Fn(usize) -> R) -> Vec<usize> {
    (0..n)
        .map(|i| {
            thread_local!(static N: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
            fn again() {
                N.set(N.get() + 1);
                at_tick(0, again);
            }
            N.set(0);
            at_tick(0, again);
            run(i);
            no_tick();
            N.get()
        })
        .collect()
}
fn verdict(errs: &Errs) -> Res {
    let e = errs.lock().unwrap();
    ensure!(e.is_empty(), "{}", e[0]);
    Ok(())
}
/// Nested runs, then several threads at once.
fn shared<O: Value>(run: Run<O>, model: Vec<O>, sched: &[Step], threads: usize, obs: &mut Obs) -> Res {
    let wants: Arc<Vec<Got<O>>> = Arc::new((0..model.len()).map(|i| run(i)).collect());
    for (i, w) in model.iter().enumerate() {
        ensure_eq!(wants[i].0, *w, "a run alone");
    }
    let ticks = Arc::new(count(model.len(), |i| run(i)));
    obs.nontrivial(ticks.iter().any(|t| *t > 1));
    obs.tag_if(sched.len() > 1, "three runs nested");
    obs.tag_if(sched.iter().any(|s| s.elsewhere), "inner run on another thread");
    obs.tag_if(sched.iter().any(|s| s.dies.is_some()), "a run that panics");
    let errs: Errs = Arc::default();
    nest(&run, &wants, &ticks, sched, 0, &errs);
    verdict(&errs)?;
    if let Some(pos) = sched[0].dies {
        let j = pos as usize % wants.len();
        die(Some(pos), ticks[j], || run(j));
        judge("a run after one that panicked", run(j), &wants[j], &errs);
        verdict(&errs)?;
    }
    if threads > 1 {
        obs.tag("threads at once");
        let start = Arc::new(Barrier::new(threads));
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (run, wants, start, errs) = (run.clone(), wants.clone(), start.clone(), errs.clone());
                std::thread::spawn(move || {
                    start.wait();
                    for j in 0..4 {
                        let i = (t + j) % wants.len();
                        judge("a run on one of several threads", run(i), &wants[i], &errs);
                    }
                })
            })
            .collect();
        for h in hs {
            ensure!(h.join().is_ok(), "a run on one of several threads panicked");
        }
        verdict(&errs)?;
    }
    Ok(())
}
fn threads() -> BoxedStrategy<usize> {
    prop_oneof![9 => Just(0usize), 1 => 2usize..5].boxed()
}
fn inputs<T: Strategy + 'static>(s: T) -> BoxedStrategy<Vec<T::Value>>
where
    T::Value: Clone,
{
    prop::collection::vec(s, 1..4).boxed()
}
fn traced<O>(f: impl FnOnce() -> O) -> Got<O> {
    trace();
    let r = f();
    (r, trace())
}

fn state_t<M: c17::Base>(p: &c17::Pr, xs: &[S], sched: &[Step], n: usize, obs: &mut Obs) -> Res {
    let want: Vec<_> = xs.iter().map(|x| c17::eval_t::<M>(p, &c17::env0(), x.clone()).view()).collect();
    let t: StateT<S, M, S> = c17::build_t(p, &c17::env0());
    let xs = xs.to_vec();
    shared(Arc::new(move |i| traced(|| if i % 2 == 0 { t.run_state(xs[i].clone()).view() } else { t.clone().run_state(xs[i].clone()).view() })), want, sched, n, obs)
}
fn reader_t<M: c18::Base>(p: &c18::Pr, xs: &[c18::Ev], sched: &[Step], n: usize, obs: &mut Obs) -> Res {
    let want: Vec<_> = xs.iter().map(|x| c18::eval_t(M::KIND, p, &c18::env0(), x)).collect();
    let t: ReaderT<c18::Ev, M, S> = c18::build_t(p, &c18::env0());
    let xs = xs.to_vec();
    shared(Arc::new(move |i| traced(|| if i % 2 == 0 { t.run_reader(xs[i].clone()).view() } else { t.clone().run_reader(xs[i].clone()).view() })), want, sched, n, obs)
}
/// The functions given to a continuation at its end, one per run.
fn cont_t<M: c22::Base>(p: &c22::Pr, fins: &[Kl], sched: &[Step], n: usize, obs: &mut Obs) -> Res {
    let want: Vec<_> = fins.iter().map(|f| c22::model(M::KIND, p, f).0).collect();
    let ctx: Arc<c22::Ctx<c22::KT<M>>> = c22::Ctx::new();
    let m: ContT<S, M, S> = c22::build::<M>(p, &c22::Scope::new(&ctx));
    let fins = fins.to_vec();
    let r = shared(
        Arc::new(move |i: usize| {
            let fin = fins[i].clone();
            traced(|| {
                m.clone()
                    .run(move |x| {
                        emit(format!("end {x}"));
                        M::mk(kl_md(M::KIND, &fin, &x))
                    })
                    .view()
            })
        }),
        want,
        sched,
        n,
        obs,
    );
    ctx.reset();
    r
}
/// Without the primitives whose reading (in the harness) keeps a state per run.
fn stateless(p: c22::Pr, capture: bool) -> c22::Pr {
    use c22::{Pr, A, U};
    let go = |p: Box<Pr>| Box::new(stateless(*p, capture));
    match p {
        P::Prim(A::Twice(v, _, f)) => P::Map(Fun::Const(format!("{f:?}")), Box::new(P::Pure(v))),
        P::Prim(A::Reenter(i, v)) => P::Prim(A::Escape(i, v)),
        P::Prim(A::Suspend(s)) => P::Prim(A::Abort(s)),
        P::Pure(_) | P::Prim(_) => p,
        P::Map(f, p) => P::Map(f, go(p)),
        P::Bind(p, s, ks) => P::Bind(go(p), s, ks.into_iter().map(|k| stateless(k, capture)).collect()),
        P::U(U::CallCc, p) if !capture => P::U(U::Wrap, go(p)),
        P::U(u, p) => P::U(u, go(p)),
        P::B(b, f, p, q) => P::B(b, f, go(p), go(q)),
    }
}

macro_rules! each {
    ($s:ident, $f:ident, $n:expr, $strat:expr, $($name:literal $M:ty),*) => {
        $($s.check($name, RULE, $n, || ($strat, steps(), threads()), |((p, xs), sched, n), obs| $f::<$M>(p, xs, sched, *n, obs));)*
    };
}
const RULE: &str = "a run performs at least two user functions, so that others can start inside it";

fn main() {
    let mut s = Suite::new("C35");
    s.assume("a computation is shared by reference or cloned; user functions share nothing with each other; continuations that the harness reads with a fuel counter (several runs of the rest, re-entry) are left to C22");
    s.check(
        "state",
        RULE,
        20_000,
        || (prog(c17::plain_prims(), None, Some(Just(c17::B::Apply).boxed())), inputs(val()), steps(), threads()),
        |(p, xs, sched, n), obs| {
            let want = xs.iter().map(|x| c17::eval(p, &c17::env0(), x.clone())).collect();
            let (st, xs) = (c17::build(p, &c17::env0()), xs.clone());
            shared(Arc::new(move |i| traced(|| if i % 2 == 0 { st.run_state(xs[i].clone()) } else { st.clone().run_state(xs[i].clone()) })), want, sched, *n, obs)
        },
    );
    each!(s, state_t, 8_000, (c17::t_prog(), inputs(val())), "state-t/option" Option<(S, S)>, "state-t/result" Result<(S, S), S>, "state-t/list" Vec<(S, S)>);
    s.check(
        "reader",
        RULE,
        20_000,
        || (prog(prop_oneof![any::<u8>().prop_map(c18::A::Ask), (any::<u8>(), fun()).prop_map(|(n, f)| c18::A::Asks(n, f))].boxed(), Some(fun()), Some(any::<u8>().boxed())), inputs(c18::ev()), steps(), threads()),
        |(p, xs, sched, n), obs| {
            let want = xs.iter().map(|x| c18::eval(p, &c18::env0(), x)).collect();
            let (r, xs): (Reader<c18::Ev, S>, _) = (c18::build(p, &c18::env0()), xs.clone());
            shared(Arc::new(move |i| traced(|| if i % 2 == 0 { r.run_reader(xs[i].clone()) } else { r.clone().run_reader(xs[i].clone()) })), want, sched, *n, obs)
        },
    );
    each!(s, reader_t, 8_000, (c18::t_prog(), inputs(c18::ev())), "reader-t/option" Option<S>, "reader-t/result" Result<S, S>, "reader-t/validated" CVal<S>);
    s.check(
        "io",
        RULE,
        20_000,
        || (c20::progs(), steps(), threads()),
        |(p, sched, n), obs| {
            let Ok(m) = c20::model(p, &c20::env0()) else { return Ok(()) };
            let want = m.run();
            let io = c20::build(p, &c20::env0());
            let run = Arc::new(move |i: usize| traced(|| if i == 0 { c20::caught(|| io.run()) } else { c20::caught(|| io.clone().run()) }));
            shared(run, vec![want.clone(), want], sched, *n, obs)
        },
    );
    s.check(
        "async",
        RULE,
        5_000,
        || (c21::progs(), steps(), threads()),
        |(p, sched, n), obs| {
            let (want, evs) = c21::model(p);
            let log = c21::Log::default();
            let runs = Arc::new(AtomicUsize::new(0));
            let m = c21::build(p, &c21::env0(), "", &log);
            // a run may start while another one is being polled: on a thread of its own
            let sched: Vec<Step> = sched.iter().map(|s| Step { elsewhere: true, ..s.clone() }).collect();
            let (counted, effects) = (runs.clone(), log.clone());
            let run = Arc::new(move |_| {
                if DYING.get() {
                    // what it does until it panics, and after it recovers, is its own
                    let others = effects.take();
                    let got = c21::caught(|| c21::rt().block_on(m.try_get()));
                    effects.put(others);
                    return (got, vec![]);
                }
                counted.fetch_add(1, SeqCst);
                (c21::caught(|| c21::rt().block_on(m.try_get())), vec![])
            });
            shared(run, vec![want], &sched, *n, obs)?;
            // every run has effects of its own
            let runs = runs.load(SeqCst);
            let mut count: BTreeMap<S, usize> = BTreeMap::new();
            for e in log.take() {
                *count.entry(e).or_default() += 1;
            }
            for e in &evs {
                let c = count.remove(&e.name).unwrap_or(0);
                ensure!(c == runs || e.may && c < runs, "{:?} happened {c} times in {runs} runs", e.name);
            }
            ensure!(count.is_empty(), "unexpected effects {count:?}");
            Ok(())
        },
    );
    each!(s, cont_t, 8_000, (c22::progs().prop_map(|p| stateless(p, true)), inputs(kl())), "cont-t/Id" CId<S>, "cont-t/option" COpt<S>, "cont-t/result" CRes<S>);
    s.check(
        "cont",
        RULE,
        15_000,
        || (c22::progs().prop_map(|p| stateless(p, false)), inputs(kl()), steps(), threads()),
        |(p, fins, sched, n), obs| {
            let want: Vec<S> = fins.iter().map(|f| c22::model(Kind::One, p, f).0.values()[0].clone()).collect();
            let ctx: Arc<c22::Ctx<c22::KC>> = c22::Ctx::new();
            let m: Cont<S, S> = c22::plain(p, &c22::Scope::new(&ctx));
            let fins = fins.clone();
            let run = Arc::new(move |i: usize| {
                let fin = fins[i].clone();
                traced(|| {
                    m.clone().run(move |x| {
                        emit(format!("end {x}"));
                        kl_md(Kind::One, &fin, &x).values()[0].clone()
                    })
                })
            });
            shared(run, want, sched, *n, obs)
        },
    );
    s.check(
        "category",
        RULE,
        20_000,
        || (c27::e(4), inputs(val()), steps()),
        |(e, xs, sched), obs| {
            let (log, log2) = (c27::Log::default(), c27::Log::default());
            let m = c27::build(e, &log);
            let wants: Rc<Vec<Got<S>>> = Rc::new(xs.iter().map(|x| (c27::eval(e, x.clone(), &log2), vec![])).collect());
            let xs = xs.clone();
            let run: LRun<S> = Rc::new(move |i| (m(xs[i].clone()), vec![]));
            let ticks = Rc::new(count(wants.len(), |i| run(i)));
            obs.nontrivial(ticks.iter().any(|t| *t > 1));
            let errs: Errs = Arc::default();
            nest_here(&run, &wants, &ticks, sched, 0, &errs);
            verdict(&errs)
        },
    );
    s.main()
}
