//! Computations: states, environments, results, answers, keys and values of every shape.
use super::*;
use rustica::datatypes::async_monad::AsyncM;
use rustica::datatypes::cont::{Cont, ContFn2};
use rustica::datatypes::io::IO;
use rustica::datatypes::iso_lens::IsoLens;
use rustica::datatypes::iso_prism::IsoPrism;
use rustica::datatypes::lens::Lens;
use rustica::datatypes::prism::Prism;
use rustica::datatypes::reader::Reader;
use rustica::datatypes::state::{self, State};
use rustica::datatypes::wrapper::memoizer::Memoizer;
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::datatypes::wrapper::thunk::Thunk;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use rustica::traits::iso::{Iso, IsoExt};
use rustica::transformers::cont_t::ContT;
use rustica::transformers::reader_t::ReaderT;
use rustica::transformers::state_t::StateT;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

/// State of type `T`, values of types `A` and `B`.
fn states<A: El, B: El, T: El>(i: &In) -> Seen {
    let mut o: Seen = vec![];
    let k = i.k;
    let (s0, s1) = (T::of(i.es[0]), T::of(*i.es.last().unwrap()));
    let step = move |n: u8| State::<T, A>::new(move |s: T| (s.to(n), s.to(n ^ k)));
    let next = move |a: A| State::<T, B>::new(move |s: T| (a.with(&s, k), s.with(&a, k)));
    let prog = step(1).bind(next).fmap(move |b: B| b.to::<A>(k)).bind(move |a: A| state::get::<T>().fmap(move |s| s.with::<A, A>(&a, k)));
    let puts = state::put(s1.clone()).bind(move |()| step(3)).bind(move |a: A| { let b = a.clone(); state::modify(move |s: T| s.with(&b, k)).bind(move |()| State::<T, A>::pure(a.clone())) });
    let ap = State::<T, fn(A) -> B>::new(move |s: T| ((|a: A| a.to::<B>(7)) as fn(A) -> B, s.to(2))).apply(step(5));
    for s in [s0.clone(), s1.clone()] {
        see!(o,
            "state" => prog.run_state(s.clone()), "state, again" => prog.clone().run_state(s.clone()), "put" => puts.run_state(s.clone()), "apply" => ap.run_state(s.clone()),
            "eval" => prog.eval_state(s.clone()), "exec" => puts.exec_state(s.clone()), "pure" => State::<T, A>::pure(A::of(k)).run_state(s.clone()),
            "to a unit" => step(1).fmap(|_| ()).run_state(s.clone()), "from a unit" => state::put(s1.clone()).fmap(move |()| A::of(k)).run_state(s.clone()),
        );
        let m = move |t: (T, A)| if t.1.holds(k) { Ok(t) } else { Err(t.0) };
        let st: StateT<T, Result<(T, A), T>, A> = StateT::new(move |s: T| m((s.to(1), s.to(k))));
        let bound = st.bind_with::<_, A, _, Result<(T, A), T>>(
            move |a: A| StateT::new(move |s: T| m((s.with(&a, k), a.with(&s, k)))),
            |r: Result<(T, A), T>, f: Box<dyn Fn((T, A)) -> Result<(T, A), T> + Send + Sync>| r.and_then(|t| f(t)),
        );
        see!(o,
            "state_t" => st.run_state(s.clone()), "state_t bind" => bound.run_state(s.clone()), "state_t again" => bound.clone().run_state(s.clone()),
            "try_run" => bound.try_run_state(s.clone()), "try_eval" => bound.try_eval_state(s.clone()), "try_exec" => bound.try_exec_state(s.clone()),
            "with context" => bound.try_run_state_with_context(s.clone(), "here"), "map_error" => bound.map_error(move |e: T| e.to::<B>(k)).run_state(s.clone()),
            "state_t exec" => bound.exec_state(s.clone(), |r| r.map(|t| t.0)),
            "state_t pure" => StateT::<T, Result<(T, A), T>, A>::pure(A::of(k), Ok).run_state(s.clone()),
            "to_state" => StateT::<T, Id<(T, A)>, A>::new(move |s: T| Id::new((s.to(1), s.to(k)))).to_state().run_state(s.clone()),
            "from_state" => StateT::from_state(step(4)).run_state(s.clone()).unwrap(),
            "state_t combine" => st.combine_with(&bound, move |a: A, b: A| a.with::<A, A>(&b, k), |x: Result<(T, A), T>, y: Result<(T, A), T>, f| x.and_then(|x| y.map(|y| f(x, y)))).run_state(s.clone()),
        );
        // readers, with the state as the environment
        let r = Reader::<T, A>::new(move |e: T| e.to(k));
        let rb = r.bind(move |a: A| Reader::<T, B>::new(move |e: T| a.with(&e, k)));
        see!(o,
            "reader" => r.run_reader(s.clone()), "reader fmap" => r.fmap(move |a: A| a.to::<B>(k)).run_reader(s.clone()), "reader bind" => rb.run_reader(s.clone()),
            "reader local" => rb.local(move |e: T| e.to(k)).run_reader(s.clone()), "reader combine" => r.combine(&rb, move |a: A, b: B| a.with::<B, A>(&b, k)).run_reader(s.clone()),
            "reader ask" => Reader::<T, T>::ask().run_reader(s.clone()), "reader asks" => Reader::<T, A>::asks(move |e: T| e.to(2)).run_reader(s.clone()), "reader clone" => rb.clone().run_reader(s.clone()),
            "reader of a unit" => r.fmap(|_| ()).run_reader(s.clone()), "reader ask_with" => Reader::<T, A>::ask_with(move |e: &T| e.to(3), move |a: A| Id::new(a.to(k))).run_reader(s.clone()),
        );
        let rt: ReaderT<T, Result<A, T>, A> = ReaderT::new(move |e: T| { let a: A = e.to(k); if a.holds(k) { Ok(a) } else { Err(e) } });
        let rtb = rt.bind_with::<A, Result<A, T>, _, _>(move |a: A| ReaderT::new(move |e: T| if e.holds(1) { Ok(a.with(&e, k)) } else { Err(e) }), |m: Result<A, T>, f: Arc<dyn Fn(A) -> Result<A, T> + Send + Sync>| m.and_then(|a| f(a)));
        see!(o,
            "reader_t" => rt.run_reader(s.clone()), "reader_t bind" => rtb.run_reader(s.clone()), "reader_t local" => rtb.local(move |e: T| e.to(k)).run_reader(s.clone()),
            "reader_t fmap" => rt.fmap_with::<A, _, _>(move |a: A| a.to(9), |m: Result<A, T>, f| m.map(f)).run_reader(s.clone()),
            "reader_t try" => rtb.try_run_reader(s.clone()), "reader_t context" => rtb.try_run_reader_with_context(s.clone(), "here"), "reader_t map_error" => rtb.map_error(move |e: T| e.to::<B>(k)).run_reader(s.clone()),
            "reader_t ask" => ReaderT::<T, Result<T, T>, T>::ask(Ok).run_reader(s.clone()), "reader_t pure" => ReaderT::<T, Result<A, T>, A>::pure(A::of(k), Ok).run_reader(s.clone()),
            "reader_t combine" => rt.combine_with(&rtb, move |a: A, b: A| a.with::<A, A>(&b, k), |x: Result<A, T>, y: Result<A, T>, f: Box<dyn Fn(&A, &A) -> A + Send + Sync>| x.and_then(|x| y.map(|y| f(&x, &y)))).run_reader(s.clone()),
        );
        // continuations, with the state as the answer
        let c = || Cont::<T, A>::new({ let s = s.clone(); move |k2: Arc<dyn Fn(A) -> T + Send + Sync>| k2(s.to(k)).with(&k2(s.to(1)), k) });
        let fin = move |b: B| b.to::<T>(k);
        let f: ContFn2<A, B> = Arc::new(move |a: A| a.to(k));
        let abort = { let s = s.clone(); move |a: A| if a.holds(k) { Cont::<T, B>::pure(a.to(k)) } else { let s = s.clone(); Cont::new(move |_| s.clone()) } };
        let ct = ContT::<T, Id<T>, A>::new({ let s = s.clone(); move |k2: Arc<dyn Fn(A) -> Id<T> + Send + Sync>| k2(s.to(k)) });
        see!(o,
            "cont" => c().run(move |a: A| a.to::<T>(k)), "cont fmap" => c().fmap(move |a: A| a.to::<B>(k)).run(fin), "cont bind" => c().bind(abort.clone()).run(fin), "cont apply" => c().apply(Cont::pure(f.clone())).run(fin),
            "cont call_cc" => Cont::<T, B>::pure(B::of(k)).call_cc(|exit: Box<dyn Fn(A) -> Cont<T, B> + Send + Sync>| exit(A::of(1)).fmap(|b: B| b.to::<A>(9))).run(move |a: A| a.to::<T>(k)),
            "cont_t" => ct.run(move |a: A| Id::new(a.to::<T>(k))).unwrap(),
            "cont_t bind" => ContT::<T, Id<T>, A>::pure(s.to(k)).bind(move |a: A| ContT::<T, Id<T>, B>::pure(a.to(1))).fmap(move |b: B| b.to::<A>(2)).run(move |a: A| Id::new(a.to::<T>(k))).unwrap(),
            "cont_t call_cc" => ContT::<T, Id<T>, A>::call_cc(move |exit: Arc<dyn Fn(A) -> ContT<T, Id<T>, B> + Send + Sync>| exit(A::of(k)).fmap(|b: B| b.to::<A>(3))).run(move |a: A| Id::new(a.to::<T>(k))).unwrap(),
            "to_cont" => ContT::<T, Id<T>, A>::pure(s.to(k)).to_cont().run(move |a: A| a.to::<T>(k)),
        );
    }
    o
}
struct Swap;
impl<A: El, B: El> Iso<(A, B), (B, A)> for Pair<A, B> {
    type From = (A, B);
    type To = (B, A);
    fn forward(&self, (a, b): &(A, B)) -> (B, A) {
        (b.clone(), a.clone())
    }
    fn backward(&self, (b, a): &(B, A)) -> (A, B) {
        (a.clone(), b.clone())
    }
}
struct Pair<A, B>(Swap, std::marker::PhantomData<(A, B)>);
struct Half<A, B>(std::marker::PhantomData<(A, B)>);
impl<A: El, B: El> Iso<Either<A, B>, Option<B>> for Half<A, B> {
    type From = Either<A, B>;
    type To = Option<B>;
    fn forward(&self, e: &Either<A, B>) -> Option<B> {
        e.clone().right_option()
    }
    fn backward(&self, b: &Option<B>) -> Either<A, B> {
        b.clone().map_or(Either::left(A::of(0)), Either::right)
    }
}
/// Effects, waiting, laziness, memory and optics.
fn effects<A: El, B: El>(i: &In) -> Seen {
    thread_local! { static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().unwrap(); }
    fn wait<T>(f: impl std::future::Future<Output = T>) -> T {
        RT.with(|rt| rt.block_on(f))
    }
    let mut o: Seen = vec![];
    let k = i.k;
    let (x, y) = (A::of(i.es[0]), B::of(*i.es.last().unwrap()));
    let calls = Arc::new(AtomicUsize::new(0));
    let effect = |a: A| {
        let n = calls.clone();
        IO::new(move || {
            n.fetch_add(1, SeqCst);
            a.clone()
        })
    };
    for io in [IO::pure(x.clone()), effect(x.clone())] {
        let fs: IO<fn(A) -> B> = IO::new(|| (|a: A| a.to::<B>(4)) as fn(A) -> B);
        let bound = io.bind(move |a: A| IO::new(move || a.to::<B>(k)));
        see!(o,
            "io" => io.run(), "io fmap" => io.fmap(move |a: A| a.to::<B>(k)).run(), "io bind" => bound.run(), "io bind, again" => bound.clone().run(), "io apply" => io.apply(fs).run(), "io try_get" => io.try_get().map_err(|e| e.to_string()),
            "io to a unit" => io.fmap(|_| ()).run(), "io from a unit" => io.fmap(|_| ()).bind(move |()| IO::pure(B::of(k))).run(), "io combine" => IO::combine(&io, &bound).run(), "io combine units" => IO::combine(&io.fmap(|_| ()), &bound.fmap(|_| ())).run(),
            "io sequence" => IO::sequence(i.x::<A>().into_iter().map(effect)).run(), "io sequence_composable" => IO::sequence_composable(i.x::<A>().into_iter().map(effect)).map_err(|_| ()),
            "io when" => IO::when(move || k > 100, { let x = x.clone(); move || x.clone() }, { let x = x.clone(); move || x.to(1) }).run(), "io recover_with" => io.clone().recover_with(A::of(k)).run(), "io evaluate" => io.evaluate(),
            "io run_async" => wait(io.run_async()), "effects so far" => calls.load(SeqCst),
        );
    }
    for m in [AsyncM::pure(x.clone()), AsyncM::new({ let x = x.clone(); move || { let x = x.clone(); async move { x } } })] {
        let fs: AsyncM<fn(A) -> B> = AsyncM::pure((|a: A| a.to::<B>(4)) as fn(A) -> B);
        let bound = m.bind(move |a: A| async move { AsyncM::pure(a.to::<B>(k)) });
        see!(o,
            "async" => wait(m.try_get()), "async fmap" => wait(m.fmap(move |a: A| async move { a.to::<B>(k) }).try_get()), "async fmap_owned" => wait(m.clone().fmap_owned(move |a: A| async move { a.to::<B>(k) }).try_get()),
            "async bind" => wait(bound.try_get()), "async bind_owned" => wait(m.clone().bind_owned(move |a: A| async move { AsyncM::pure(a.to::<B>(k)) }).try_get()), "async apply" => wait(m.apply(fs.clone()).try_get()), "async apply_owned" => wait(m.clone().apply_owned(fs).try_get()),
            "async zip" => wait(m.clone().zip(bound.clone()).try_get()), "async zip_with" => wait(bound.clone().zip_with(m.clone(), move |b: B, a: A| b.with::<A, A>(&a, k)).try_get()), "async recover" => wait(m.clone().recover_with(A::of(k)).try_get()),
            "async to a unit" => wait(m.fmap(|_| async {}).try_get()), "async zip with a unit" => wait(AsyncM::pure(()).zip(bound.clone()).try_get()),
            "async default" => wait(AsyncM::from_result_or_default({ let x = x.clone(); move || { let x = x.clone(); async move { if x.holds(k) { Ok(x) } else { Err(()) } } } }, A::of(k)).try_get()),
        );
    }
    let memo: Memoizer<A, B> = Memoizer::new();
    for a in i.x::<A>().iter().chain(&i.e::<A>()) {
        let n = calls.clone();
        see!(o, "memo" => memo.get_or_compute(a.clone(), move |a: &A| { n.fetch_add(1, SeqCst); a.to::<B>(k) }), "computed so far" => calls.load(SeqCst));
    }
    memo.clear();
    see!(o, "memo after clear" => memo.get_or_compute(x.clone(), |a: &A| a.to::<B>(9)));
    let th = Thunk::new({ let x = x.clone(); move || x.clone() });
    see!(o,
        "thunk" => th.evaluate(), "thunk again" => th.evaluate(), "thunk fmap" => th.fmap_evaluate(|a: A| a.to::<B>(k)), "thunk filter" => th.filter_evaluate(|a: &A| a.holds(k)), "thunk bind" => th.bind_evaluate(|a: A| Some(a.to::<B>(k)).map(|b| Thunk::new(move || b.clone())).unwrap()),
        "thunk combine" => th.combine_evaluate(&Thunk::new({ let y = y.clone(); move || y.clone() }), |a: A, b: B| a.with::<B, A>(&b, k)), "thunk owned" => th.evaluate_owned(),
    );
    let (p, q) = (Predicate::new(move |a: &A| a.holds(k)), Predicate::new(move |a: &A| a.holds(k ^ 85)));
    for a in i.x::<A>() {
        see!(o, "predicate" => (p.contains(&a), p.union(&q).contains(&a), p.intersection(&q).contains(&a), p.diff(&q).contains(&a), p.negate().contains(&a)));
    }
    let src = (x.clone(), y.clone());
    let l = Lens::new(|s: &(A, B)| s.0.clone(), |s: (A, B), a: A| (a, s.1));
    let m = Lens::new(|s: &(A, B)| s.1.clone(), |s: (A, B), b: B| (s.0, b));
    see!(o,
        "lens get" => (l.get(&src), m.get(&src)), "lens set" => l.set(src.clone(), A::of(k)), "lens set_always" => m.set_always(src.clone(), B::of(k)), "lens modify" => m.modify(src.clone(), |b: B| b.to(k)), "lens modify_always" => l.modify_always(src.clone(), |a: A| a.to(k)),
    );
    struct Focus<A, B>(std::marker::PhantomData<(A, B)>);
    impl<A: El, B: El> Iso<(A, B), (B, (A, B))> for Focus<A, B> {
        type From = (A, B);
        type To = (B, (A, B));
        fn forward(&self, s: &(A, B)) -> (B, (A, B)) {
            (s.1.clone(), s.clone())
        }
        fn backward(&self, (b, s): &(B, (A, B))) -> (A, B) {
            (s.0.clone(), b.clone())
        }
    }
    let fl = IsoLens::new(Focus::<A, B>(std::marker::PhantomData));
    let il = IsoLens::new(Pair::<A, B>(Swap, std::marker::PhantomData));
    see!(o,
        "iso lens" => (il.get(&src), il.set(&(y.clone(), A::of(k))), il.modify(&src, |(b, a): (B, A)| (b.to(k), a.to(k)))),
        "iso lens focus" => (fl.set_focus(&src, &B::of(k)), fl.modify_focus(&src, |b: B| b.to(1))),
    );
    let iso = Pair::<A, B>(Swap, std::marker::PhantomData);
    see!(o, "iso" => (iso.convert_forward(&src), iso.convert_backward(&(y.clone(), x.clone())), IsoExt::modify(&iso, &src, |(b, a)| (b.to(k), a.to(k))), iso.verify_laws(&src, &(y.clone(), x.clone()))));
    for s in [Either::<A, B>::left(x.clone()), Either::right(y.clone())] {
        let p = Prism::new(|s: &Either<A, B>| s.clone().right_option(), |b: &B| Either::right(b.clone()));
        let q = Prism::new(|s: &Either<A, B>| s.clone().left_option(), |a: &A| Either::left(a.clone()));
        let ip = IsoPrism::new(Half::<A, B>(std::marker::PhantomData));
        see!(o,
            "prism preview" => (p.preview(&s), q.preview(&s), ip.preview(&s)), "prism review" => (p.review(&y), q.review(&x), ip.review(&y)), "prism modify" => (p.modify(s.clone(), |b: B| b.to(k)), q.modify(s.clone(), |a: A| a.to(k))),
            "prism set" => (p.set_if_different(s.clone(), B::of(k)), q.set_if_different(s.clone(), A::of(k)), p.set_if_different(s.clone(), y.clone()), q.set_if_different(s.clone(), x.clone())),
        );
    }
    o
}

pub fn checks(s: &mut Suite, input: fn(usize) -> BoxedStrategy<In>) {
    s.check("computations", "the state is not the same throughout", 1_500, move || input(12), |i, obs| {
        obs.nontrivial(i.es[0] != *i.es.last().unwrap());
        triples!(i, states: (Unit Byte Shared) (Byte Unit Flag) (Token Token Token) (Flag Boxed Unit) (Big Word Byte) (Wide Big Boxed) (Shared Wide Big));
        Ok(())
    });
    s.check("effects", "several values are sequenced and remembered", 1_000, move || input(12), |i, obs| {
        obs.nontrivial(i.xs.len() > 1);
        pairs!(i, effects: (Unit Byte) (Byte Unit) (Token Flag) (Flag Token) (Wide Boxed) (Big Word) (Shared Big));
        Ok(())
    });
}
