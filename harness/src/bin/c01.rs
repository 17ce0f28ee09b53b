//! C01: a persistent vector behaves exactly as an immutable sequence.
use proptest::prelude::*;
use vharness::ensure;
use vharness::pv::*;
use vharness::runner::*;

fn run(h: &History, obs: &mut Obs, all: bool) -> Res {
    let mut p = Pool::new(h.scale);
    for (k, op) in h.ops.iter().enumerate() {
        let ctx = || format!("step {k} {op:?}");
        let new = p.apply(op).map_err(|f| Fail::from(format!("step {k} {op:?}: {}", f.msg)))?;
        for i in new {
            let w = &p.vers[i];
            if w.m.len() <= 300 || all {
                same_deep(&w.v, &w.m, &ctx())?;
            } else {
                same(&w.v, &w.m, &ctx())?;
            }
        }
        match op {
            Op::Concat(..) => obs.tag("concat"),
            Op::Split(..) | Op::Take(..) | Op::Skip(..) => obs.tag("split"),
            Op::Insert(..) | Op::Remove(..) => obs.tag("insert/remove"),
            Op::PopBack(..) | Op::PopFront(..) => obs.tag("pop"),
            _ => {}
        }
    }
    let big = p.vers.iter().map(|w| w.m.len()).max().unwrap_or(0);
    obs.tag_if(big > 64, "max>64");
    obs.tag_if(big > 128, "max>128");
    obs.tag_if(big > 2048, "max>2048");
    obs.tag_if(big > 65536, "max>65536");
    obs.nontrivial(p.steps_tree >= 2);
    Ok(())
}

fn main() {
    let mut s = Suite::new("C01");
    let rule = "history with at least two steps producing vectors longer than the inline limit (64)";
    s.check("history-small", rule, 120_000, || history(Scale::Small, 40), |h, o| run(h, o, true));
    s.check("history-medium", rule, 45_000, || history(Scale::Medium, 40), |h, o| run(h, o, false));
    s.check("history-large", rule, 9_000, || history(Scale::Large, 30), |h, o| run(h, o, false));
    s.check("history-huge", rule, 480, || history(Scale::Huge, 10), |h, o| run(h, o, false));
    s.check(
        "recipes",
        "content built along a recipe, longer than 64",
        60_000,
        || (content_len(), recipe()),
        |(n, r), obs| {
            let xs: Vec<u32> = (0..*n as u32).collect();
            let v = build(r, &xs, &u32::MAX);
            obs.nontrivial(*n > 64);
            same_deep(&v, &xs, "recipe")
        },
    );
    s.check(
        "push-pop-drain",
        "fill by pushes at both ends then drain completely by pops at both ends; at least 130 elements",
        9_000,
        || (prop::collection::vec((any::<bool>(), 1u16..150), 1..12), prop::collection::vec((any::<bool>(), 1u16..200), 1..12)),
        |(fill, drain), obs| {
            let mut v = rustica::pvec::PersistentVector::new();
            let mut m = std::collections::VecDeque::new();
            let mut k = 0u32;
            for (back, n) in fill {
                for _ in 0..*n {
                    k += 1;
                    if *back {
                        v = v.push_back(k);
                        m.push_back(k);
                    } else {
                        v = v.push_front(k);
                        m.push_front(k);
                    }
                }
            }
            same(&v, m.make_contiguous(), "filled")?;
            obs.nontrivial(m.len() >= 130);
            let total = m.len();
            'o: for (back, n) in drain.iter().chain(&[(true, 2000u16)]) {
                for _ in 0..*n {
                    let (r, want) = if *back { (v.pop_back(), m.pop_back()) } else { (v.pop_front(), m.pop_front()) };
                    match (r, want) {
                        (None, None) => break 'o,
                        (Some((w, x)), Some(y)) => {
                            ensure!(x == y, "pop(back={back}) with {} of {total} left returned {x}, expected {y}", m.len() + 1);
                            v = w;
                        }
                        (a, b) => {
                            return Err(format!("pop(back={back}) with {} of {total} left: {:?} vs {b:?}", m.len(), a.map(|t| t.1)).into())
                        }
                    }
                    let n = m.len();
                    ensure!(v.len() == n, "length {} after pop, expected {n}", v.len());
                    ensure!(v.first() == m.front() && v.last() == m.back(), "ends after pop with {n} left: {:?}/{:?}, expected {:?}/{:?}", v.first(), v.last(), m.front(), m.back());
                }
                same(&v, m.make_contiguous(), "partly drained")?;
            }
            ensure!(v.is_empty(), "not empty after draining");
            Ok(())
        },
    );
    s.check(
        "long-edit-history",
        "at least 500 random edits (insert, remove, rotate, split, pop, push) on one vector of more than 64 elements",
        96,
        || {
            (
                prop_oneof![0usize..100, 100usize..1500],
                prop::collection::vec((0u8..12, any::<u16>()), 1..3000),
            )
        },
        |(n, edits), obs| {
            let mut m: Vec<u32> = (0..*n as u32).collect();
            let mut v: rustica::pvec::PersistentVector<u32> = m.iter().copied().collect();
            let mut next = *n as u32;
            for (k, (op, f)) in edits.iter().enumerate() {
                let at = (m.len() * *f as usize) >> 16;
                next += 1;
                match op {
                    0..=3 => {
                        v = v.insert(at, next);
                        m.insert(at, next);
                    }
                    4..=6 => {
                        if let Some(w) = v.remove(at) {
                            v = w;
                        }
                        if at < m.len() {
                            m.remove(at);
                        }
                    }
                    7 => {
                        let (a, b) = v.split_at(at);
                        v = b.concat(&a);
                        m.rotate_left(at);
                    }
                    8 => {
                        v = v.update(at, next);
                        if at < m.len() {
                            m[at] = next;
                        }
                    }
                    9 => {
                        v = v.push_front(next);
                        m.insert(0, next);
                    }
                    10 => {
                        if let Some((w, x)) = v.pop_front() {
                            ensure!(Some(&x) == m.first(), "edit {k}: pop_front gave {x}");
                            v = w;
                            m.remove(0);
                        }
                    }
                    _ => {
                        v = v.push_back(next);
                        m.push(next);
                    }
                }
                ensure!(v.len() == m.len(), "edit {k}: length {} expected {}", v.len(), m.len());
                if k % 128 == 0 {
                    same(&v, &m, "after edit")?;
                }
            }
            obs.nontrivial(edits.len() >= 500 && m.len() > 64);
            same_deep(&v, &m, "at the end")
        },
    );
    // The same for elements of other sizes and kinds.
    fn types(i: &(u8, u16, Vec<(u8, u16)>), obs: &mut Obs) -> Res {
        let (ty, n, edits) = i;
        obs.nontrivial(*n > 64 && edits.len() > 4);
        let n = *n as u32;
        match ty {
            0 => edited::<()>(n, edits, |_| ()),
            1 => edited::<bool>(n, edits, |k| k % 2 == 0),
            2 => edited::<Option<u8>>(n, edits, |k| (k % 5 != 0).then_some(k as u8)),
            3 => edited::<String>(n, edits, |k| format!("n{k}")),
            4 => edited::<[u64; 9]>(n, edits, |k| [k as u64; 9]),
            5 => edited::<Box<u32>>(n, edits, Box::new),
            6 => edited::<std::sync::Arc<u32>>(n, edits, std::sync::Arc::new),
            7 => edited::<(u8, String)>(n, edits, |k| (k as u8, String::new())),
            _ => edited::<rustica::pvec::PersistentVector<u32>>(n, edits, |k| (0..k % 3).collect()),
        }
    }
    s.check(
        "element-types",
        "more than 64 elements, more than four edits",
        12_000,
        || (0u8..9, prop_oneof![0u16..70, 60u16..140, 100u16..700], prop::collection::vec((0u8..16, any::<u16>()), 0..40)),
        types,
    );
    s.main()
}
fn edited<T: Clone + PartialEq + std::fmt::Debug>(n: u32, edits: &[(u8, u16)], mk: impl Fn(u32) -> T) -> Res {
    use rustica::pvec::PersistentVector as PV;
    let mut m: Vec<T> = (0..n).map(&mk).collect();
    let mut v: PV<T> = if n % 2 == 0 { m.iter().cloned().collect() } else { PV::from_slice(&m) };
    let mut next = n;
    let agree = |v: &PV<T>, m: &[T], what: &str| -> Res {
        ensure!(v.len() == m.len(), "{what}: length {}, expected {}", v.len(), m.len());
        ensure!(v.iter().eq(m.iter()), "{what}: elements {:?}, expected {m:?}", v.to_vec());
        for i in (0..=m.len()).step_by(1 + m.len() / 60).chain([m.len()]) {
            ensure!(v.get(i) == m.get(i), "{what}: element {i} is {:?}, expected {:?}", v.get(i), m.get(i));
        }
        Ok(())
    };
    agree(&v, &m, "built")?;
    for (k, (op, f)) in edits.iter().enumerate() {
        let at = (m.len() * *f as usize) >> 16;
        next += 1;
        let x = mk(next);
        let old = (v.clone(), m.clone());
        match op {
            0 | 1 => {
                v = v.insert(at, x.clone());
                m.insert(at, x);
            }
            2 | 3 => {
                if let Some(w) = v.remove(at) {
                    v = w;
                    m.remove(at);
                } else {
                    ensure!(m.is_empty(), "edit {k}: nothing removed at {at} of {}", m.len());
                }
            }
            4 => {
                let (a, b) = v.split_at(at);
                v = b.concat(&a);
                m.rotate_left(at);
            }
            5 => {
                v = v.concat(&v.take(at));
                m.extend_from_within(..at);
            }
            6 => {
                v = v.skip(at);
                m.drain(..at);
            }
            7 | 8 if at < m.len() => {
                v = v.update(at, x.clone());
                m[at] = x;
            }
            9 => {
                v = v.push_front(x.clone());
                m.insert(0, x);
            }
            10 => {
                let got = v.pop_front();
                let want = (!m.is_empty()).then(|| m.remove(0));
                ensure!(got.as_ref().map(|g| &g.1) == want.as_ref(), "edit {k}: pop_front gave {:?}", got.map(|g| g.1));
                if let Some((w, _)) = got {
                    v = w
                }
            }
            11 => {
                let got = v.pop_back();
                let want = m.pop();
                ensure!(got.as_ref().map(|g| &g.1) == want.as_ref(), "edit {k}: pop_back gave {:?}", got.map(|g| g.1));
                if let Some((w, _)) = got {
                    v = w
                }
            }
            12 => {
                let xs: Vec<T> = (0..*f as u32 % 100).map(|i| mk(next + i)).collect();
                v.extend(xs.iter().cloned());
                m.extend(xs);
            }
            13 => {
                // drop one in three
                let c = std::cell::Cell::new(0);
                let keep = |_: &T| {
                    c.set(c.get() + 1);
                    c.get() % 3 != 0
                };
                v = v.filter(keep);
                let d = std::cell::Cell::new(0);
                m.retain(|_| {
                    d.set(d.get() + 1);
                    d.get() % 3 != 0
                });
            }
            14 => {
                let mut w: Vec<T> = v.into_iter().collect();
                w.reverse();
                v = PV::from(w);
                m.reverse();
            }
            _ => {
                v = v.push_back(x.clone());
                m.push(x);
            }
        }
        agree(&v, &m, &format!("edit {k} ({op}, {f})"))?;
        ensure!(old.0.iter().eq(old.1.iter()), "edit {k} ({op}, {f}) changed the vector it was given");
        if m.len() > 3_000 {
            break;
        }
    }
    Ok(())
}
