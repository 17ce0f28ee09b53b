//! C12: validation accumulates every error, in order.
use proptest::collection::vec;
use proptest::prelude::*;
use rustica::datatypes::validated::Validated;
use rustica::error::{collect_errors, split_validated_errors};
use rustica::traits::applicative::Applicative;
use rustica::traits::functor::Functor;
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::semigroup::Semigroup;
use rustica::utils::error_utils::{traverse_validated, WithError};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeSet, VecDeque};
use vharness::cont::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

type V = Validated<S, S>;
/// A value, or the list of errors.
type M = Result<S, Vec<S>>;

fn model() -> BoxedStrategy<M> {
    prop_oneof![
        5 => val().prop_map(Ok),
        2 => val().prop_map(|e| Err(vec![e])),
        2 => vec(val(), 1..4).prop_map(Err),
        1 => vec(val(), 1..13).prop_map(Err),
        1 => prop_oneof![3 => vec(val(), 1..24), 1 => vec(val(), 1..150)].prop_map(Err),
    ]
    .boxed()
}
fn many() -> BoxedStrategy<Vec<M>> {
    // now and then the neutral failure, which holds no error and still is a failure
    let model = || prop_oneof![30 => model(), 1 => Just(Err(vec![]))];
    prop_oneof![
        2 => Just(vec![]),
        12 => vec(model(), 0..6),
        4 => vec(model(), 0..14),
        1 => vec(model(), 0..150),
        6 => vec(val().prop_map(Ok), 0..14),
        1 => vec(val().prop_map(Ok), 0..300),
        1 => (vec(val().prop_map(Ok), 0..80), model(), vec(val().prop_map(Ok), 0..80)).prop_map(|(mut a, m, b)| {
            a.push(m);
            a.extend(b);
            a
        }),
    ]
    .boxed()
}
fn mk(m: &M) -> V {
    <V as Repr<S>>::mk(Md { log: vec![], out: m.clone().map(|a| vec![a]) })
}
fn see<A: Clone>(v: &Validated<S, A>) -> Result<A, Vec<S>> {
    match v {
        Validated::Valid(a) => Ok(a.clone()),
        Validated::Invalid(e) => Err(e.iter().cloned().collect()),
    }
}
/// The whole contract: all the values, or all the errors.
fn all(ms: &[M]) -> Result<Vec<S>, Vec<S>> {
    let errs: Vec<S> = ms.iter().filter_map(|m| m.clone().err()).flatten().collect();
    if ms.iter().all(|m| m.is_ok()) {
        Ok(ms.iter().filter_map(|m| m.clone().ok()).collect())
    } else {
        Err(errs)
    }
}

/// How a list of validations is combined pairwise.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum How {
    Lift2,
    Lift2Owned,
    Apply,
    ApplyOwned,
    Lift3,
    Lift3Owned,
}
fn how() -> BoxedStrategy<How> {
    prop::sample::select(vec![How::Lift2, How::Lift2Owned, How::Apply, How::ApplyOwned, How::Lift3, How::Lift3Owned]).boxed()
}

type VV = Validated<S, Vec<S>>;
fn push(acc: VV, x: V, y: Option<V>, h: How) -> VV {
    let app = |a: &Vec<S>, b: &S| {
        let mut a = a.clone();
        a.push(b.clone());
        a
    };
    match (h, y) {
        (How::Lift3, Some(y)) => V::lift3(
            |a: &Vec<S>, b: &S, c: &S| {
                let mut a = a.clone();
                a.extend([b.clone(), c.clone()]);
                a
            },
            &acc,
            &x,
            &y,
        ),
        (How::Lift3Owned, Some(y)) => V::lift3_owned(
            |mut a: Vec<S>, b: S, c: S| {
                a.extend([b, c]);
                a
            },
            acc,
            x,
            y,
        ),
        (How::Lift2Owned, _) | (How::Lift3Owned, _) => V::lift2_owned(|a: Vec<S>, b: S| app(&a, &b), acc, x),
        (How::Apply, _) => {
            let f = acc.fmap(|a: &Vec<S>| {
                let a = a.clone();
                move |b: &S| app(&a, b)
            });
            f.apply(&x)
        }
        (How::ApplyOwned, _) => {
            let f = acc.fmap_owned(|a: Vec<S>| move |b: S| app(&a, &b));
            f.apply_owned(x)
        }
        _ => V::lift2(|a: &Vec<S>, b: &S| app(a, b), &acc, &x),
    }
}

fn block_on<F: std::future::Future>(f: F) -> F::Output {
    thread_local! {
        static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
    }
    RT.with(|rt| rt.block_on(f))
}

fn main() {
    let mut s = Suite::new("C12");
    s.assume("an invalid value with no error at all is only produced by its neutral element and has no first error");
    s.assume("recovering errors one by one with mixed outcomes: the documentation and the code disagree; both readings are accepted");
    s.check(
        "combine",
        "at least two inputs fail, or all of at least two inputs succeed",
        80_000,
        || (many(), vec(how(), 1..5)),
        |(ms, hows), obs| {
            let bad = ms.iter().filter(|m| m.is_err()).count();
            obs.nontrivial(bad > 1 || (bad == 0 && ms.len() > 1));
            obs.tag_if(bad > 1, "several fail");
            obs.tag_if(bad == 0, "all succeed");
            let want = all(ms);
            obs.tag_if(want.as_ref().is_err_and(|e| e.len() > 8), "more errors than the inline capacity");
            let vs: Vec<V> = ms.iter().map(mk).collect();
            // applicative, step by step
            let mut acc: VV = Validated::Valid(vec![]);
            let mut i = 0;
            let mut j = 0;
            while i < vs.len() {
                let h = hows[j % hows.len()];
                j += 1;
                let three = matches!(h, How::Lift3 | How::Lift3Owned) && i + 1 < vs.len();
                let y = three.then(|| vs[i + 1].clone());
                acc = push(acc, vs[i].clone(), y, h);
                i += 1 + three as usize;
            }
            ensure_eq!(see(&acc), want, "applying step by step with {hows:?}");
            // in bulk
            let c: VV = Validated::collect(vs.iter().cloned());
            ensure_eq!(see(&c), want, "collect");
            let c: VV = Validated::collect_owned(vs.clone().into_iter());
            ensure_eq!(see(&c), want, "collect_owned");
            let d: Validated<S, VecDeque<S>> = Validated::collect_owned(vs.clone().into_iter());
            ensure_eq!(see(&d), want.clone().map(VecDeque::from), "collect_owned to a deque");
            let d: Validated<S, BTreeSet<S>> = Validated::collect(vs.clone().into_iter());
            ensure_eq!(see(&d), want.clone().map(|v| v.into_iter().collect::<BTreeSet<S>>()), "collect to a set");
            let refs: Vec<&V> = vs.iter().collect();
            let c = V::sequence(&refs, &|x: &[S]| x.to_vec());
            ensure_eq!(see(&c), want, "sequence");
            let c = V::sequence_owned(vs.clone(), |x: Vec<S>| x);
            ensure_eq!(see(&c), want, "sequence_owned");
            // keeping one side
            if vs.len() > 1 {
                let w = all(&ms[..2]);
                ensure_eq!(see(&V::sequence_left(&vs[0], &vs[1])), w.clone().map(|v| v[0].clone()), "sequence_left");
                ensure_eq!(see(&V::sequence_right(&vs[0], &vs[1])), w.clone().map(|v| v[1].clone()), "sequence_right");
                ensure_eq!(see(&V::sequence_left_owned(vs[0].clone(), vs[1].clone())), w.clone().map(|v| v[0].clone()), "sequence_left_owned");
                ensure_eq!(see(&V::sequence_right_owned(vs[0].clone(), vs[1].clone())), w.map(|v| v[1].clone()), "sequence_right_owned");
                // joining the errors of two validations
                if ms[0].is_err() || ms[1].is_err() {
                    let e: Vec<S> = ms[..2].iter().filter_map(|m| m.clone().err()).flatten().collect();
                    ensure_eq!(see(&vs[0].combine_errors(&vs[1])), Err(e.clone()), "combine_errors");
                    ensure_eq!(see(&vs[0].clone().combine_errors_owned(vs[1].clone())), Err(e), "combine_errors_owned");
                }
                let first = match (&ms[0], &ms[1]) {
                    (Err(a), Err(b)) => Err(a.iter().chain(b).cloned().collect::<Vec<S>>()),
                    (Err(_), b) => b.clone(),
                    (a, _) => a.clone(),
                };
                ensure_eq!(see(&vs[0].combine(&vs[1])), first, "combine");
                ensure_eq!(see(&vs[0].mplus(&vs[1])), first, "mplus");
            }
            for (v, m) in vs.iter().zip(ms) {
                ensure_eq!(see(v), *m, "an input itself");
            }
            Ok(())
        },
    );
    s.check(
        "traverse",
        "at least two items fail, or all of at least two items succeed",
        50_000,
        || (vals(20), kl(), vec(val(), 0..14)),
        |(xs, k, es), obs| {
            let step = |x: &S| -> Result<S, S> {
                let (ok, mut v) = k.run(x);
                let y = v.pop().unwrap_or_else(|| x.clone());
                if ok { Ok(y) } else { Err(y) }
            };
            let res: Vec<Result<S, S>> = xs.iter().map(step).collect();
            let bad: Vec<S> = res.iter().filter_map(|r| r.clone().err()).collect();
            obs.nontrivial(bad.len() > 1 || (bad.is_empty() && xs.len() > 1));
            let want = if bad.is_empty() { Ok(res.iter().cloned().map(|r| r.unwrap()).collect::<Vec<S>>()) } else { Err(bad) };
            let seen = RefCell::new(vec![]);
            let got = traverse_validated(xs.clone(), |x: S| {
                seen.borrow_mut().push(x.clone());
                step(&x)
            });
            ensure_eq!(see(&got), want, "traverse_validated");
            ensure_eq!(seen.take(), *xs, "items visited");
            let c: VV = Validated::collect(res.iter().map(Validated::from_result));
            ensure_eq!(see(&c), want, "collecting the converted results");
            // a list of errors alone
            let got = collect_errors(es.clone());
            ensure_eq!(see(&got), if es.is_empty() { Ok(()) } else { Err(es.clone()) }, "collect_errors");
            ensure_eq!(see(&V::invalid_many(es.clone())), Err(es.clone()), "invalid_many");
            // iterators without an exact length
            ensure_eq!(see(&V::invalid_many(es.iter().filter(|_| true).cloned())), Err(es.clone()), "invalid_many of a filtered iterator");
            let mut it = es.clone().into_iter();
            ensure_eq!(see(&V::invalid_many(std::iter::from_fn(|| it.next()))), Err(es.clone()), "invalid_many of an unsized iterator");
            if !es.is_empty() {
                ensure_eq!(see(&V::invalid_vec(es.clone())), Err(es.clone()), "invalid_vec");
                let mut it = es.clone().into_iter();
                ensure_eq!(see(&V::invalid_vec(std::iter::from_fn(|| it.next()))), Err(es.clone()), "invalid_vec of an unsized iterator");
            } else {
                ensure!(no_panic(|| V::invalid_vec(es.clone())).is_err(), "invalid_vec of nothing");
            }
            Ok(())
        },
    );
    s.check(
        "inspect",
        "the validation holds at least two errors, or a value",
        60_000,
        || (model(), fun(), kl(), val(), any::<bool>()),
        |(m, f, k, d, push_last), obs| {
            let v = mk(m);
            obs.nontrivial(m.as_ref().map_or_else(|e| e.len() > 1, |_| true));
            let es = m.clone().err().unwrap_or_default();
            let a = m.clone().ok();
            ensure_eq!(v.is_valid(), m.is_ok(), "is_valid");
            ensure_eq!(v.is_invalid(), m.is_err(), "is_invalid");
            ensure_eq!(v.errors(), es, "errors");
            ensure_eq!(v.error_slice(), es.as_slice(), "error_slice");
            ensure_eq!(v.iter_errors().cloned().collect::<Vec<_>>(), es, "iter_errors");
            ensure_eq!(v.error_payload().map(|p| p.to_vec()), m.clone().err(), "error_payload");
            ensure_eq!(v.clone().into_error_payload().map(|p| p.to_vec()), m.clone().map_or_else(Ok, Err), "into_error_payload");
            ensure_eq!(v.clone().into_value().map_err(|p| p.to_vec()), *m, "into_value");
            ensure_eq!(v.as_ref(), a.as_ref(), "as_ref");
            ensure_eq!(v.to_option(), a, "to_option");
            ensure_eq!(v.unwrap_or(d), a.clone().unwrap_or(d.clone()), "unwrap_or");
            ensure_eq!(v.iter().cloned().collect::<Vec<_>>(), a.iter().cloned().collect::<Vec<_>>(), "iter");
            ensure_eq!((&v).into_iter().count(), a.iter().count(), "borrowed into_iter");
            ensure_eq!(v.clone().into_iter().collect::<Vec<_>>(), a.iter().cloned().collect::<Vec<_>>(), "into_iter");
            match m {
                Ok(a) => {
                    ensure_eq!(v.unwrap(), *a, "unwrap");
                    ensure_eq!(v.clone().unwrap_owned(), *a, "unwrap_owned");
                    ensure!(no_panic(|| v.unwrap_invalid()).is_err(), "unwrap_invalid of a value");
                    ensure!(no_panic(|| v.clone().unwrap_invalid_owned()).is_err(), "unwrap_invalid_owned of a value");
                }
                Err(es) => {
                    ensure_eq!(v.unwrap_invalid(), *es, "unwrap_invalid");
                    ensure_eq!(v.clone().unwrap_invalid_owned().to_vec(), *es, "unwrap_invalid_owned");
                    ensure!(no_panic(|| v.unwrap()).is_err(), "unwrap of errors");
                    ensure!(no_panic(|| v.clone().unwrap_owned()).is_err(), "unwrap_owned of errors");
                }
            }
            // mapping the errors
            let me: M = m.clone().map_err(|e| e.iter().map(|x| f.ap(x)).collect());
            ensure_eq!(see(&v.fmap_invalid(|e| f.ap(e))), me, "fmap_invalid");
            ensure_eq!(see(&v.clone().fmap_invalid_owned(|e| f.ap(&e))), me, "fmap_invalid_owned");
            ensure_eq!(see(&WithError::fmap_error(v.clone(), |e: S| f.ap(&e))), me, "fmap_error");
            let lens = v.fmap_invalid(|e| e.len());
            ensure_eq!(lens.error_slice().to_vec(), es.iter().map(|e| e.len()).collect::<Vec<_>>(), "fmap_invalid to another type");
            // in place
            let mut w = v.clone();
            for e in w.iter_errors_mut() {
                *e = f.ap(e);
            }
            ensure_eq!(see(&w), me, "iter_errors_mut");
            let mut w = v.clone();
            for x in w.iter_mut() {
                *x = f.ap(x);
            }
            ensure_eq!(see(&w), m.clone().map(|x| f.ap(&x)), "iter_mut");
            let mut w = v.clone();
            for x in &mut w {
                *x = f.ap(x);
            }
            ensure_eq!(see(&w), m.clone().map(|x| f.ap(&x)), "&mut into_iter");
            let mut w = v.clone();
            ensure_eq!(w.error_buffer_mut().is_some(), m.is_err(), "error_buffer_mut");
            if let Some(b) = w.error_buffer_mut() {
                if *push_last {
                    b.push(d.clone());
                }
            }
            let mut pushed = m.clone();
            if let (Err(e), true) = (&mut pushed, *push_last) {
                e.push(d.clone());
            }
            ensure_eq!(see(&w), pushed, "pushing to the error buffer");
            // recovery
            ensure_eq!(see(&v.clone().recover_with(d.clone())), Ok(a.clone().unwrap_or(d.clone())), "recover_with");
            let given = RefCell::new(vec![]);
            let got = v.clone().recover_all_at_once(|e| {
                given.borrow_mut().push(e.clone());
                mk(&k.run(&e.concat()).into_model(d))
            });
            let want = match m {
                Ok(a) => Ok(a.clone()),
                Err(e) => k.run(&e.concat()).into_model(d),
            };
            ensure_eq!(see(&got), want, "recover_all_at_once");
            ensure_eq!(given.take(), m.clone().err().into_iter().collect::<Vec<_>>(), "errors given to recover_all_at_once");
            let outs: Vec<M> = es.iter().map(|e| k.run(e).into_model(d)).collect();
            let got = see(&v.clone().recover_all(|e| mk(&k.run(&e).into_model(d))));
            if m.is_ok() {
                ensure_eq!(got, *m, "recover_all of a value");
            } else {
                let new: Vec<S> = outs.iter().filter_map(|o| o.clone().err()).flatten().collect();
                let first = outs.iter().find_map(|o| o.clone().ok());
                match first {
                    None => ensure_eq!(got, Err(new), "recover_all when no error is recovered"),
                    Some(x) if new.is_empty() => ensure_eq!(got, Ok(x), "recover_all when every error is recovered"),
                    Some(x) => ensure!(got == Ok(x.clone()) || got == Err(new), "recover_all with mixed outcomes: got {got:?}"),
                }
            }
            // splitting and conversion
            let split = split_validated_errors(v.clone());
            let want: Vec<Result<S, S>> = match m {
                Ok(a) => vec![Ok(a.clone())],
                Err(e) => e.iter().cloned().map(Err).collect(),
            };
            ensure_eq!(split, want, "split_validated_errors");
            if m.is_ok() || !es.is_empty() {
                let want = m.clone().map_err(|e| e[0].clone());
                ensure_eq!(V::to_result(&v), want, "to_result");
                ensure_eq!(WithError::to_result(v.clone()), want, "WithError::to_result");
                ensure_eq!(v.clone().to_result_owned(), want, "to_result_owned");
                ensure_eq!(Validated::from_result(&want).errors(), es.iter().take(1).cloned().collect::<Vec<_>>(), "from_result");
            }
            // sequencing stops at the first failing step with exactly its errors
            let next = |x: &S| mk(&k.run(x).into_model(d));
            let want = m.clone().and_then(|x| k.run(&x).into_model(d));
            ensure_eq!(see(&v.bind(|x: &S| next(x))), want, "bind");
            ensure_eq!(see(&v.clone().bind_owned(|x: S| next(&x))), want, "bind_owned");
            ensure_eq!(see(&v), *m, "the validation itself");
            Ok(())
        },
    );
    s.check(
        "async",
        "the validation holds at least two errors, or a value",
        20_000,
        || (model(), fun(), kl(), val(), vec(0u8..4, 13)),
        |(m, f, k, d, delays), obs| {
            let v = mk(m);
            obs.nontrivial(m.as_ref().map_or_else(|e| e.len() > 1, |_| true));
            let g = f.clone();
            let r = block_on(v.fmap_valid_async(move |a: S| {
                let g = g.clone();
                async move { g.ap(&a) }
            }));
            ensure_eq!(see(&r), m.clone().map(|a| f.ap(&a)), "fmap_valid_async");
            // each error resolves after its own number of turns
            let g = f.clone();
            let es = m.clone().err().unwrap_or_default();
            let ds = delays.clone();
            let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let n2 = n.clone();
            let r = block_on(v.fmap_invalid_async(move |e: S| {
                let g = g.clone();
                let i = n2.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let turns = ds[i % ds.len()];
                async move {
                    for _ in 0..turns {
                        tokio::task::yield_now().await;
                    }
                    g.ap(&e)
                }
            }));
            ensure_eq!(see(&r), m.clone().map_err(|e| e.iter().map(|x| f.ap(x)).collect::<Vec<_>>()), "fmap_invalid_async");
            ensure_eq!(n.load(std::sync::atomic::Ordering::SeqCst), es.len(), "errors mapped");
            let (k2, d2) = (k.clone(), d.clone());
            let r = block_on(v.and_then_async(move |a: S| {
                let (k, d) = (k2.clone(), d2.clone());
                async move { mk(&k.run(&a).into_model(&d)) }
            }));
            ensure_eq!(see(&r), m.clone().and_then(|x| k.run(&x).into_model(d)), "and_then_async");
            Ok(())
        },
    );
    s.main()
}

trait IntoModel {
    fn into_model(self, d: &S) -> M;
}
impl IntoModel for (bool, Vec<S>) {
    fn into_model(mut self, d: &S) -> M {
        if self.0 {
            Ok(self.1.pop().unwrap_or_else(|| d.clone()))
        } else if self.1.is_empty() {
            Err(vec![d.clone()])
        } else {
            Err(self.1)
        }
    }
}
