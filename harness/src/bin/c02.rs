//! C02: versions of a persistent vector are never changed by later operations.
//! The oracle is what was observed through the version when it was created, so this check is
//! independent of whether the operation itself computed the right content (C01).
use proptest::prelude::*;
use rustica::pvec::PersistentVector as PV;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Barrier};
use vharness::pv::*;
use vharness::runner::*;
use vharness::{ensure, ensure_eq};

struct Seen {
    len: usize,
    items: Vec<u32>,
    clone: PV<u32>,
}
fn see(v: &PV<u32>) -> Seen {
    Seen { len: v.len(), items: v.to_vec(), clone: v.clone() }
}
fn unchanged(v: &PV<u32>, s: &Seen, what: &str) -> Res {
    ensure_eq!(v.len(), s.len, "{what}: length changed");
    for (i, x) in s.items.iter().enumerate() {
        ensure!(v.get(i) == Some(x), "{what}: element {i} changed from {x} to {:?}", v.get(i));
    }
    ensure!(v.iter().eq(s.items.iter()), "{what}: iteration changed");
    ensure!(s.clone.len() == s.len && s.clone.iter().eq(s.items.iter()), "{what}: clone changed");
    ensure_eq!(v.get(s.len), None, "{what}: grew");
    Ok(())
}

fn sequential(h: &History, obs: &mut Obs) -> Res {
    let mut p = Pool::new(h.scale);
    let mut seen = vec![see(&p.vers[0].v)];
    let mut big = 0usize;
    for (k, op) in h.ops.iter().enumerate() {
        // Wrong results of the operation itself are C01's business: only stop the history.
        let ok = no_panic(|| p.apply(op).is_ok()).unwrap_or(false);
        while seen.len() < p.vers.len() {
            let v = &p.vers[seen.len()].v;
            big = big.max(v.len());
            seen.push(see(v));
        }
        let every = h.scale == Scale::Small || k % 4 == 0 || k + 1 == h.ops.len();
        if every || !ok {
            for (i, s) in seen.iter().enumerate() {
                unchanged(&p.vers[i].v, s, &format!("version {i} after step {k} {op:?}"))?;
            }
        }
        if !ok {
            break;
        }
    }
    obs.tag_if(big > 64, "max>64");
    obs.tag_if(big > 128, "max>128");
    obs.tag_if(seen.len() > 20, "versions>20");
    obs.nontrivial(big > 64 && seen.len() >= 4);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conc {
    base: History,
    threads: Vec<Vec<Op>>,
}

/// Several threads derive from the same versions at once (all handles shared by cloning).
fn concurrent(c: &Conc, obs: &mut Obs) -> Res {
    let mut p = Pool::new(c.base.scale);
    for op in &c.base.ops {
        if !no_panic(|| p.apply(op).is_ok()).unwrap_or(false) {
            break;
        }
    }
    let base: Vec<PV<u32>> = p.vers.iter().map(|w| w.v.clone()).collect();
    let seen: Vec<Seen> = base.iter().map(see).collect();
    // What each thread computes on its own, sequentially, for comparison.
    let run = |ops: &[Op], start: &[Ver]| -> Vec<Vec<u32>> {
        let mut q = Pool::new(c.base.scale);
        q.vers = start.to_vec();
        for op in ops {
            if !no_panic(|| q.apply(op).is_ok()).unwrap_or(false) {
                break;
            }
        }
        q.vers.iter().map(|w| w.v.to_vec()).collect()
    };
    let alone: Vec<_> = c.threads.iter().map(|t| run(t, &p.vers)).collect();
    let bar = Arc::new(Barrier::new(c.threads.len()));
    let together: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .map(|t| {
                let (bar, start, run) = (bar.clone(), &p.vers, &run);
                sc.spawn(move || {
                    bar.wait();
                    run(t, start)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for (i, (a, t)) in alone.iter().zip(together).enumerate() {
        match t {
            Ok(t) => ensure!(*a == t, "thread {i} observed different vectors when run concurrently"),
            Err(_) => return Err(Fail::from(format!("thread {i} panicked"))),
        }
    }
    for (i, s) in seen.iter().enumerate() {
        unchanged(&base[i], s, &format!("shared version {i}"))?;
    }
    obs.nontrivial(base.iter().any(|v| v.len() > 64) && c.threads.iter().all(|t| !t.is_empty()));
    Ok(())
}

/// One base vector; every operation is applied to that same base, at every kind of position.
fn fan_out(i: &(usize, Recipe, Vec<(u8, Ix)>), obs: &mut Obs) -> Res {
    let (n, r, ops) = i;
    let xs: Vec<u32> = (0..*n as u32).collect();
    let v = match no_panic(|| build(r, &xs, &u32::MAX)) {
        Ok(v) => v,
        Err(_) => return Ok(()),
    };
    let s = see(&v);
    let mut kept = vec![];
    for (k, at) in ops {
        let i = at.at(*n);
        let _ = no_panic(|| match k % 12 {
            0 => kept.push(v.push_back(7)),
            1 => kept.push(v.push_front(7)),
            2 => kept.push(v.update(i, 7)),
            3 => kept.push(v.insert(i, 7)),
            4 => kept.extend(v.remove(i)),
            5 => kept.extend(v.pop_back().map(|p| p.0)),
            6 => kept.extend(v.pop_front().map(|p| p.0)),
            7 => {
                let (a, b) = v.split_at(i);
                kept.push(a);
                kept.push(b);
            }
            8 => kept.push(v.concat(&v)),
            9 => {
                let w = kept.last().cloned().unwrap_or_default();
                if w.len() < 5000 {
                    kept.push(v.concat(&w));
                    kept.push(w.concat(&v));
                }
            }
            10 => {
                let mut w = v.clone();
                w.extend([1, 2, 3]);
                kept.push(w);
            }
            _ => {
                let mut w = v.clone();
                for x in 0..70 {
                    w = w.push_back(x).update(i.min(w.len()), x);
                }
                kept.push(w);
            }
        });
        unchanged(&v, &s, &format!("base after {k} at {i}"))?;
    }
    obs.nontrivial(*n > 64 && ops.len() >= 2);
    Ok(())
}

fn main() {
    let mut s = Suite::new("C02");
    let rule = "history keeping at least four versions alive, one longer than 64";
    s.check("versions-small", rule, 90_000, || history(Scale::Small, 30), sequential);
    s.check("versions-medium", rule, 30_000, || history(Scale::Medium, 25), sequential);
    s.check("versions-large", rule, 4_000, || history(Scale::Large, 20), sequential);
    s.check(
        "fan-out",
        "at least two operations applied to one shared base longer than 64",
        90_000,
        || (content_len(), recipe(), prop::collection::vec((any::<u8>(), ix()), 1..14)),
        fan_out,
    );
    s.check(
        "threads",
        "two or more threads deriving from shared versions, one longer than 64",
        6_000,
        || {
            (history(Scale::Medium, 12), prop::collection::vec(prop::collection::vec(op(Scale::Medium), 1..14), 2..5))
                .prop_map(|(base, threads)| Conc { base, threads })
        },
        concurrent,
    );
    s.assume("Thread schedules are whatever the operating system produces; the crate has no unsafe code in this component, so only logical interference is sought.");
    s.main()
}
