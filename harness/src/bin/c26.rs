//! C26: memoization.
use proptest::collection::vec;
use proptest::prelude::*;
use rustica::datatypes::wrapper::memoizer::Memoizer;
use rustica::datatypes::wrapper::thunk::Thunk;
use rustica::traits::evaluate::Evaluate;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Condvar, Mutex};
use std::time::{Duration, Instant};
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

/// A key: equality and hash look at `id` only, and few hashes exist.
#[derive(Clone, Debug)]
struct Key {
    id: u8,
    note: S,
    /// Met by every lookup of this key, to line up concurrent requests.
    gate: Option<Arc<Gate>>,
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.id == o.id
    }
}
impl Eq for Key {}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        if let Some(g) = &self.gate {
            g.meet();
        }
        (self.id % 3).hash(h)
    }
}
/// Threads wait here for each other the first time each of them comes by (but not for ever: the
/// lookup may hold a lock that the others need).
#[derive(Debug)]
struct Gate {
    all: usize,
    here: Mutex<(usize, Vec<std::thread::ThreadId>)>,
    cv: Condvar,
}
impl Gate {
    fn new(all: usize) -> Gate {
        Gate { all, here: Mutex::new((0, vec![])), cv: Condvar::new() }
    }
    fn meet(&self) {
        let me = std::thread::current().id();
        let mut g = self.here.lock().unwrap();
        if g.1.contains(&me) {
            return;
        }
        g.1.push(me);
        g.0 += 1;
        if g.0 >= self.all {
            self.cv.notify_all();
            return;
        }
        let end = Instant::now() + Duration::from_millis(20);
        while g.0 < self.all {
            let now = Instant::now();
            if now >= end {
                g.0 = self.all; // nobody waits again
                self.cv.notify_all();
                return;
            }
            g = self.cv.wait_timeout(g, end - now).unwrap().0;
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// key, note, function; the function panics
    Get(u8, S, Fun, bool),
    Clear,
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        10 => (0u8..8, val(), fun(), prop::bool::weighted(0.1)).prop_map(|(k, n, f, p)| Op::Get(k, n, f, p)),
        1 => Just(Op::Clear),
    ]
    .boxed()
}

/// What happened, in the order of one shared clock.
#[derive(Clone, Debug)]
enum Ev {
    /// request by a thread: key, start, end, value (id of the computation)
    Get(u8, usize, usize, usize),
    /// computation: key, start, end, id
    Run(u8, usize, usize, usize),
    Clear(usize, usize),
}

fn main() {
    let mut s = Suite::new("C26");
    s.assume("the computing function does not use the memoizer that is calling it");
    s.check(
        "history",
        "a key is requested again, and at least two keys are requested",
        80_000,
        || vec(op(), 0..40),
        |ops, obs| {
            let m: Memoizer<Key, S> = if ops.len() % 2 == 0 { Memoizer::new() } else { Memoizer::default() };
            let mut model: HashMap<u8, S> = HashMap::new();
            let (mut hits, mut keys, mut cleared) = (0, 0, false);
            for (i, op) in ops.iter().enumerate() {
                match op {
                    Op::Clear => {
                        m.clear();
                        cleared |= !model.is_empty();
                        model.clear();
                    }
                    Op::Get(k, note, f, bad) => {
                        let calls = RefCell::new(vec![]);
                        let key = Key { id: *k, note: note.clone(), gate: None };
                        let got = no_panic(|| {
                            m.get_or_compute(key, |key| {
                                calls.borrow_mut().push((key.id, key.note.clone()));
                                if *bad {
                                    panic!("computing fails");
                                }
                                f.ap(&format!("{}:{}", key.id, key.note))
                            })
                        });
                        let known = model.get(k).cloned();
                        let want_calls: Vec<(u8, S)> = if known.is_some() { vec![] } else { vec![(*k, note.clone())] };
                        ensure_eq!(calls.take(), want_calls, "calls of the function of request {i} ({op:?})");
                        hits += known.is_some() as usize;
                        keys += known.is_none() as usize;
                        if known.is_none() && *bad {
                            ensure!(got.is_err(), "request {i}: the failure of the function is lost");
                            obs.tag("a computation fails");
                            continue;
                        }
                        let want = known.unwrap_or_else(|| f.ap(&format!("{k}:{note}")));
                        let got = got.map_err(|p| Fail::with_sig("request panics", format!("request {i} ({op:?}) panics: {p}")))?;
                        ensure_eq!(got, want, "request {i} ({op:?})");
                        model.insert(*k, want);
                    }
                }
            }
            obs.nontrivial(hits > 0 && keys > 1);
            obs.tag_if(cleared, "cleared while holding values");
            Ok(())
        },
    );
    // Nothing is forgotten by itself, however many keys there are and in whatever order they come.
    s.check(
        "many-keys",
        "more than a thousand keys, each requested at least twice",
        800,
        || (prop_oneof![2 => 1u32..300, 3 => 300u32..3_000, 1 => 3_000u32..20_000], any::<u32>(), 0u8..4, 0usize..4),
        |(n, salt, order, threads), obs| {
            let n = *n;
            obs.nontrivial(n > 1_000);
            let m: Memoizer<u32, (u32, u32)> = Memoizer::new();
            let runs = Mutex::new(HashMap::<u32, u32>::new());
            // an odd factor: different numbers give different keys
            let key = |i: u32| if order % 2 == 0 { i } else { i.wrapping_mul(salt | 1) };
            let get = |i: u32| {
                m.get_or_compute(key(i), |k| {
                    let mut runs = runs.lock().unwrap();
                    let c = runs.entry(*k).or_default();
                    *c += 1;
                    (*k, *c)
                })
            };
            for round in 1..=2 {
                for i in 0..n {
                    ensure_eq!(get(i), (key(i), round), "request {i} of {n}");
                    if i % 5 == 0 {
                        let j = (i ^ salt) % (i + 1);
                        ensure_eq!(get(j), (key(j), round), "request {j} of {n}, again after {i} others");
                    }
                }
                let again = |i: u32| -> Res {
                    ensure_eq!(get(i), (key(i), round), "request {i} of {n}, after all of them");
                    Ok(())
                };
                match order {
                    0 | 1 => (0..n).try_for_each(again)?,
                    _ => (0..n).rev().try_for_each(again)?,
                }
                if *threads > 1 {
                    let all: Vec<(u32, (u32, u32))> = std::thread::scope(|sc| {
                        let hs: Vec<_> = (0..*threads as u32).map(|t| sc.spawn(move || (t..n).step_by(3).map(|i| (i, get(i))).collect::<Vec<_>>())).collect();
                        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
                    });
                    for (i, got) in all {
                        ensure_eq!(got, (key(i), round), "request {i} of {n}, by one of {threads} threads");
                    }
                }
                m.clear();
            }
            Ok(())
        },
    );
    // All threads look the same keys up before any of them has computed a value.
    s.check(
        "together",
        "at least two threads request the same key",
        8_000,
        || (2usize..6, vec(0u8..4, 1..4), prop::bool::weighted(0.8), 0u8..3),
        |(threads, keys, gated, pause), obs| {
            obs.nontrivial(true);
            obs.tag_if(*gated, "lookups lined up");
            let m: Memoizer<Key, usize> = Memoizer::new();
            // an empty map does not hash what it looks up
            m.get_or_compute(Key { id: 200, note: String::new(), gate: None }, |_| 1000);
            let runs = AtomicUsize::new(0);
            let mut want_runs = 0;
            let mut values: HashMap<u8, usize> = HashMap::new();
            for (round, k) in keys.iter().enumerate() {
                let gate = gated.then(|| Arc::new(Gate::new(*threads)));
                let start = Barrier::new(*threads);
                let got: Vec<usize> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..*threads)
                        .map(|_| {
                            let (m, runs, start, gate) = (&m, &runs, &start, gate.clone());
                            sc.spawn(move || {
                                start.wait();
                                m.get_or_compute(Key { id: *k, note: String::new(), gate }, |_| {
                                    match pause {
                                        0 => (),
                                        1 => std::thread::yield_now(),
                                        _ => std::thread::sleep(Duration::from_micros(200)),
                                    }
                                    runs.fetch_add(1, SeqCst)
                                })
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                if !values.contains_key(k) {
                    want_runs += 1;
                }
                let v = *values.entry(*k).or_insert(got[0]);
                ensure!(got.iter().all(|g| *g == v), "round {round}, key {k}: the threads got {got:?}, the first value is {v}");
                ensure_eq!(runs.load(SeqCst), want_runs, "computations after round {round} (keys {keys:?})");
            }
            Ok(())
        },
    );
    // Requests and clears at the same time, judged by a shared clock.
    s.check(
        "concurrent",
        "at least two threads request the same key",
        40_000,
        || (vec(vec(prop_oneof![8 => (0u8..3).prop_map(Some), 1 => Just(None)], 1..8), 2..5), vec(0u8..4, 8)),
        |(scripts, pauses), obs| {
            let keys = |t: &Vec<Option<u8>>| t.iter().flatten().copied().collect::<std::collections::HashSet<u8>>();
            let shared = (0..scripts.len()).any(|i| (0..i).any(|j| !keys(&scripts[i]).is_disjoint(&keys(&scripts[j]))));
            obs.nontrivial(shared);
            obs.tag_if(scripts.iter().any(|t| t.contains(&None)), "with clears");
            let m: Memoizer<Key, usize> = Memoizer::new();
            let clock = AtomicUsize::new(0);
            let ids = AtomicUsize::new(0);
            let log: Mutex<Vec<Ev>> = Mutex::new(vec![]);
            let start = Barrier::new(scripts.len());
            let tick = || clock.fetch_add(1, SeqCst);
            std::thread::scope(|sc| {
                for (t, script) in scripts.iter().enumerate() {
                    let (m, ids, log, start, tick) = (&m, &ids, &log, &start, &tick);
                    sc.spawn(move || {
                        start.wait();
                        for (i, op) in script.iter().enumerate() {
                            let pause = pauses[(t * 3 + i) % pauses.len()];
                            let a = tick();
                            match op {
                                None => {
                                    m.clear();
                                    let b = tick();
                                    log.lock().unwrap().push(Ev::Clear(a, b));
                                }
                                Some(k) => {
                                    let v = m.get_or_compute(Key { id: *k, note: String::new(), gate: None }, |_| {
                                        let a = tick();
                                        for _ in 0..pause {
                                            std::thread::yield_now();
                                        }
                                        let id = ids.fetch_add(1, SeqCst);
                                        let b = tick();
                                        log.lock().unwrap().push(Ev::Run(*k, a, b, id));
                                        id
                                    });
                                    let b = tick();
                                    log.lock().unwrap().push(Ev::Get(*k, a, b, v));
                                }
                            }
                        }
                    });
                }
            });
            let log = log.into_inner().unwrap();
            let clears: Vec<(usize, usize)> = log.iter().filter_map(|e| if let Ev::Clear(a, b) = e { Some((*a, *b)) } else { None }).collect();
            let runs: Vec<(u8, usize, usize, usize)> = log.iter().filter_map(|e| if let Ev::Run(k, a, b, i) = e { Some((*k, *a, *b, *i)) } else { None }).collect();
            for e in &log {
                if let Ev::Get(k, a, b, v) = e {
                    let r = runs.iter().find(|r| r.3 == *v);
                    ensure!(r.is_some(), "a request for {k} returned {v}, which nothing computed: {log:?}");
                    let r = r.unwrap();
                    ensure_eq!(r.0, *k, "key of the value returned for {k}: {log:?}");
                    ensure!(r.1 < *b, "a request for {k} returned a value computed later: {log:?}");
                    let stale = clears.iter().any(|c| r.2 < c.0 && c.1 < *a);
                    ensure!(!stale, "a request for {k} returned value {v} although a clear came in between: {log:?}");
                }
            }
            for (n, x) in runs.iter().enumerate() {
                for y in &runs[..n] {
                    if x.0 == y.0 {
                        let (p, q) = if x.1 < y.1 { (x, y) } else { (y, x) };
                        ensure!(p.2 < q.1, "two computations for key {} at once: {log:?}", x.0);
                        // forgotten in between: a clear that is not over before the first and not begun after the second
                        ensure!(clears.iter().any(|c| c.1 > p.1 && c.0 < q.2), "key {} computed twice without a clear: {log:?}", x.0);
                    }
                }
            }
            obs.tag_if(runs.len() > keys(&scripts.concat()).len(), "computed again after a clear");
            Ok(())
        },
    );
    s.check(
        "thunk",
        "the thunk is evaluated at least twice",
        40_000,
        || (val(), fun(), vec(0u8..4, 0..12)),
        |(x, f, ops), obs| {
            let n = Rc::new(Cell::new(0u32));
            let (n2, x2, f2) = (n.clone(), x.clone(), f.clone());
            let mut thunks = vec![Thunk::new(move || {
                n2.set(n2.get() + 1);
                f2.ap(&format!("{x2}{}", n2.get()))
            })];
            ensure_eq!(n.get(), 0, "runs before any evaluation");
            let mut want = 0;
            for op in ops {
                let t = &thunks[*op as usize % thunks.len()];
                if *op == 3 {
                    let c = t.clone();
                    thunks.push(c);
                    ensure_eq!(n.get(), want, "runs after cloning");
                    continue;
                }
                want += 1;
                let got = if *op == 2 { t.clone().evaluate_owned() } else { t.evaluate() };
                ensure_eq!(got, f.ap(&format!("{x}{want}")), "evaluation {want}");
                ensure_eq!(n.get(), want, "runs after evaluation {want}");
            }
            obs.nontrivial(want > 1);
            Ok(())
        },
    );
    s.main()
}
