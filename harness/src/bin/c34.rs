//! C34: operations on a long persistent vector share its structure with the result.
//! Sharing is observed from outside: an operation may clone only a bounded number of elements
//! and allocate only a bounded number of bytes, however long the vector is and however it came
//! about.
use proptest::prelude::*;
use rustica::pvec::PersistentVector as PV;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::hint::black_box;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};
use std::sync::Arc;
use vharness::ensure;
use vharness::pv::*;
use vharness::runner::*;

thread_local! { static N: Cell<usize> = const { Cell::new(0) }; }
thread_local! { static BYTES: Cell<usize> = const { Cell::new(0) }; }

/// Counts the bytes each thread allocates.
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size()));
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + new));
        unsafe { System.realloc(p, l, new) }
    }
}
/// The slowest of the quickest runs, for choosing the bounds.
static MOST: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static TRIAL: std::sync::LazyLock<bool> = std::sync::LazyLock::new(|| std::env::var("VERIF_TIMES").is_ok());
#[global_allocator]
static ALLOC: Counting = Counting;
#[derive(Debug, PartialEq)]
struct E(u32);
impl Clone for E {
    fn clone(&self) -> E {
        N.with(|n| n.set(n.get() + 1));
        E(self.0)
    }
}

/// Element copies and bytes allowed per operation. The tree has chunks of 64 elements and nodes
/// of up to 32 children; an operation at an end or at one index has to copy a chunk or two and
/// the nodes above, one that joins or cuts trees the same along a seam. The largest counts seen
/// are 256 copies and 4 kB at an end, 1200 copies and 13 kB along a seam, up to 400000 elements.
#[derive(PartialEq, Clone, Copy)]
struct Bound {
    copies: usize,
    bytes: usize,
}
const END: Bound = Bound { copies: 1024, bytes: 16_384 };
const SEAM: Bound = Bound { copies: 6144, bytes: 65_536 };

fn counted<R>(len: usize, bound: Bound, what: impl Fn() -> String, obs: &mut Obs, f: impl FnOnce() -> R) -> Result<R, Fail> {
    N.with(|n| n.set(0));
    let b0 = BYTES.with(|b| b.get());
    let r = f();
    let c = N.with(|n| n.get());
    let bytes = BYTES.with(|b| b.get()) - b0;
    if len > 2 * bound.copies {
        obs.tag(if bound == END { "end-op on long" } else { "seam-op on long" });
    }
    ensure!(c <= bound.copies, "{}: copied {c} elements of a vector of {len} (at most {})", what(), bound.copies);
    ensure!(bytes <= bound.bytes, "{}: allocated {bytes} bytes for a vector of {len} (at most {})", what(), bound.bytes);
    Ok(r)
}

fn hist(h: &History, obs: &mut Obs) -> Res {
    let mut vs: Vec<PV<E>> = vec![PV::new()];
    let mut long = 0;
    for (k, op) in h.ops.iter().enumerate() {
        let ctx = || format!("step {k} {op:?}");
        let p = |b: u8| sel(vs.len(), b);
        let cap = h.scale.max();
        let out = match op {
            Op::New => vec![PV::new()],
            Op::Unit => vec![PV::unit(E(0))],
            Op::From(_, n) => vec![(0..*n).map(E).collect::<PV<E>>()],
            Op::PushBack(a, n) | Op::PushFront(a, n) | Op::Extend(a, n) => {
                let back = !matches!(op, Op::PushFront(..));
                let mut w = vs[p(*a)].clone();
                for i in 0..*n as u32 {
                    if w.len() >= cap {
                        break;
                    }
                    w = counted(w.len(), END, ctx, obs, || if back { w.push_back(E(i)) } else { w.push_front(E(i)) })?;
                }
                vec![w]
            }
            Op::PopBack(a, n) | Op::PopFront(a, n) => {
                let back = matches!(op, Op::PopBack(..));
                let mut w = vs[p(*a)].clone();
                for _ in 0..*n {
                    match counted(w.len(), END, ctx, obs, || if back { w.pop_back() } else { w.pop_front() })? {
                        Some((v, _)) => w = v,
                        None => break,
                    }
                }
                vec![w]
            }
            Op::Update(a, i) | Op::TryUpdate(a, i) => {
                let w = &vs[p(*a)];
                let i = i.at(w.len());
                let fallible = matches!(op, Op::TryUpdate(..));
                vec![counted(w.len(), END, ctx, obs, || {
                    if fallible { w.try_update(i, E(9)).unwrap_or_else(|_| w.clone()) } else { w.update(i, E(9)) }
                })?]
            }
            Op::Insert(a, i) => {
                let w = &vs[p(*a)];
                if w.len() >= cap {
                    continue;
                }
                vec![counted(w.len(), SEAM, ctx, obs, || w.insert(i.at(w.len()), E(9)))?]
            }
            Op::Remove(a, i) => {
                let w = &vs[p(*a)];
                counted(w.len(), SEAM, ctx, obs, || w.remove(i.at(w.len())))?.into_iter().collect()
            }
            Op::Concat(a, b) => {
                let (x, y) = (&vs[p(*a)], &vs[p(*b)]);
                if x.len() + y.len() > cap {
                    continue;
                }
                vec![counted(x.len() + y.len(), SEAM, ctx, obs, || x.concat(y))?]
            }
            Op::Split(a, i) => {
                let w = &vs[p(*a)];
                let (x, y) = counted(w.len(), SEAM, ctx, obs, || w.split_at(i.at(w.len())))?;
                vec![x, y]
            }
            Op::Take(a, i) => {
                let w = &vs[p(*a)];
                vec![counted(w.len(), SEAM, ctx, obs, || w.take(i.at(w.len())))?]
            }
            Op::Skip(a, i) => {
                let w = &vs[p(*a)];
                vec![counted(w.len(), SEAM, ctx, obs, || w.skip(i.at(w.len())))?]
            }
            Op::CloneOf(a) => {
                let w = &vs[p(*a)];
                vec![counted(w.len(), END, ctx, obs, || w.clone())?]
            }
        };
        if out.iter().any(|v| v.len() > 2 * END.copies) {
            long += 1;
        }
        vs.extend(out);
    }
    obs.nontrivial(long >= 2);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    PushBack,
    PushFront,
    PopBack,
    PopFront,
    Update(u16),
    Insert(u16),
    Remove(u16),
    CatSmall(u8),
    PreSmall(u8),
    Rotate(u16),
    TakeSkip(u8, u8),
}
fn step() -> BoxedStrategy<Step> {
    let i = any::<u16>;
    prop_oneof![
        Just(Step::PushBack),
        Just(Step::PushFront),
        Just(Step::PopBack),
        Just(Step::PopFront),
        i().prop_map(Step::Update),
        i().prop_map(Step::Insert),
        i().prop_map(Step::Remove),
        (1u8..140).prop_map(Step::CatSmall),
        (1u8..140).prop_map(Step::PreSmall),
        i().prop_map(Step::Rotate),
        (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Step::TakeSkip(a, b)),
    ]
    .boxed()
}

/// The same few steps over and over, on a long vector built along a recipe: the cost of a step
/// must not creep up as the tree grows ragged.
fn repeat((n, r, steps, times): &(usize, Recipe, Vec<Step>, u16), obs: &mut Obs) -> Res {
    let xs: Vec<E> = (0..*n as u32).map(E).collect();
    let mut v = build(r, &xs, &E(u32::MAX));
    let at = |k: u16, n: usize| (n * k as usize) >> 16;
    let mut most = 0usize;
    for t in 0..*times as usize {
        let s = &steps[t % steps.len()];
        let l = v.len();
        if l > 60_000 || l == 0 {
            break;
        }
        // Spread positions so that repeated inserts do not all land in one chunk.
        let at = |k: u16| at(k.wrapping_add((t as u16).wrapping_mul(40503)), l);
        let small = |k: u8| (0..k as u32).map(E).collect::<PV<E>>();
        let ctx = || format!("repetition {t} {s:?}");
        v = match s {
            Step::PushBack => counted(l, END, ctx, obs, || v.push_back(E(1)))?,
            Step::PushFront => counted(l, END, ctx, obs, || v.push_front(E(1)))?,
            Step::PopBack => counted(l, END, ctx, obs, || v.pop_back().map(|x| x.0))?.unwrap_or_default(),
            Step::PopFront => counted(l, END, ctx, obs, || v.pop_front().map(|x| x.0))?.unwrap_or_default(),
            Step::Update(k) => counted(l, END, ctx, obs, || v.update(at(*k), E(2)))?,
            Step::Insert(k) => counted(l, SEAM, ctx, obs, || v.insert(at(*k), E(2)))?,
            Step::Remove(k) => counted(l, SEAM, ctx, obs, || v.remove(at(*k)))?.unwrap_or_default(),
            Step::CatSmall(k) => {
                let w = small(*k);
                counted(l, SEAM, ctx, obs, || v.concat(&w))?
            }
            Step::PreSmall(k) => {
                let w = small(*k);
                counted(l, SEAM, ctx, obs, || w.concat(&v))?
            }
            Step::Rotate(k) => {
                let (a, b) = counted(l, SEAM, ctx, obs, || v.split_at(at(*k)))?;
                counted(l, SEAM, ctx, obs, || b.concat(&a))?
            }
            Step::TakeSkip(a, b) => {
                let w = counted(l, SEAM, ctx, obs, || v.take(l - (*a as usize).min(l / 2)))?;
                let lw = w.len();
                counted(lw, SEAM, ctx, obs, || w.skip((*b as usize).min(lw / 2)))?
            }
        };
        most = most.max(l);
    }
    obs.tag_if(most > 2 * SEAM.copies, "longest > 12288");
    obs.nontrivial(most > 2 * END.copies && *times >= 20);
    Ok(())
}

/// Memory: keeping many versions of one vector keeps at most a few chunks for each alive.
fn versions((n, r, edits): &(usize, Recipe, Vec<(u8, u16)>), obs: &mut Obs) -> Res {
    let tokens: Vec<Arc<()>> = vec![Arc::new(())];
    let t = &tokens[0];
    let xs: Vec<Arc<()>> = (0..*n).map(|_| t.clone()).collect();
    let base = build(r, &xs, t);
    drop(xs);
    let before = Arc::strong_count(t);
    let mut kept = vec![base];
    for (k, i) in edits {
        let v = kept.last().unwrap();
        let i = (v.len() * *i as usize) >> 16;
        let w = match k % 5 {
            0 => v.push_back(t.clone()),
            1 => v.push_front(t.clone()),
            2 => v.update(i, t.clone()),
            3 => v.pop_back().map(|x| x.0).unwrap_or_default(),
            _ => v.pop_front().map(|x| x.0).unwrap_or_default(),
        };
        kept.push(w);
    }
    let extra = Arc::strong_count(t).saturating_sub(before);
    ensure!(
        extra <= END.copies * edits.len(),
        "{} versions of a vector of {n} elements keep {extra} further element copies alive",
        edits.len()
    );
    obs.nontrivial(*n > 2 * END.copies && !edits.is_empty());
    Ok(())
}

/// Vectors grown element by element at one or both ends, far beyond what `history` reaches.
fn tall((grow, probes): &(Vec<(bool, u32)>, Vec<(u8, u16)>), obs: &mut Obs) -> Res {
    let mut v: PV<E> = PV::new();
    let mut k = 0;
    for (back, n) in grow {
        for _ in 0..*n {
            k += 1;
            let w = if *back { v.push_back(E(k)) } else { v.push_front(E(k)) };
            v = w;
        }
    }
    for (p, i) in probes {
        let l = v.len();
        let i = (l * *i as usize) >> 16;
        let ctx = || format!("probe {p} at {i}");
        v = match p % 8 {
            0 => counted(l, END, ctx, obs, || v.push_back(E(0)))?,
            1 => counted(l, END, ctx, obs, || v.push_front(E(0)))?,
            2 => counted(l, END, ctx, obs, || v.update(i, E(0)))?,
            3 => counted(l, END, ctx, obs, || v.pop_back().map(|x| x.0))?.unwrap_or_default(),
            4 => counted(l, END, ctx, obs, || v.pop_front().map(|x| x.0))?.unwrap_or_default(),
            5 => counted(l, SEAM, ctx, obs, || v.insert(i, E(0)))?,
            6 => counted(l, SEAM, ctx, obs, || v.remove(i))?.unwrap_or_default(),
            _ => {
                let (a, b) = counted(l, SEAM, ctx, obs, || v.split_at(i))?;
                counted(l, SEAM, ctx, obs, || b.concat(&a))?
            }
        };
    }
    obs.nontrivial(k > 65_536 && !probes.is_empty());
    Ok(())
}

/// Time, roughly: an operation that walks through a vector this long takes hundreds of
/// microseconds, one that goes down its tree less than one (or, copying, a few). Only if every one
/// of many runs of an operation takes longer than a bound far above that is it taken to be slow, so
/// that neither a busy machine nor a cold cache matters.
fn quick<R>(len: usize, bound: u64, what: impl Fn() -> String, mut f: impl FnMut() -> R) -> Res {
    let mut best = u64::MAX;
    for k in 0..60 {
        let t = Instant::now();
        let r = f();
        best = best.min(t.elapsed().as_nanos() as u64);
        drop(r);
        if best <= bound && (k > 30 || !*TRIAL) {
            MOST[usize::from(bound == WRITE)].fetch_max(best, Relaxed);
            return Ok(());
        }
        if k > 10 && best > bound {
            std::thread::sleep(Duration::from_millis(k / 10));
        }
    }
    Err(Fail::from(format!("{}: no run took less than {best} ns on a vector of {len} (at most {bound})", what())))
}
/// The slowest seen are 0.3 and 14 microseconds.
const READ: u64 = 5_000;
const WRITE: u64 = 60_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Shape {
    Rotate(u16),
    Front(u8),
    Back(u8),
    Insert(u16),
    Remove(u16),
    PopFront(u8),
    PopBack(u8),
}
fn timed((n, shapes, ats): &(usize, Vec<Shape>, Vec<u16>), obs: &mut Obs) -> Res {
    let mut v: PV<u32> = (0..*n as u32).collect();
    for s in shapes {
        let l = v.len();
        let i = |k: &u16| (l * *k as usize) >> 16;
        v = match s {
            Shape::Rotate(k) => {
                let (a, b) = v.split_at(i(k));
                b.concat(&a)
            }
            Shape::Front(k) => (0..*k as u32).fold(v, |v, x| v.push_front(x)),
            Shape::Back(k) => (0..*k as u32).fold(v, |v, x| v.push_back(x)),
            Shape::Insert(k) => v.insert(i(k), 7),
            Shape::Remove(k) => v.remove(i(k)).unwrap_or_default(),
            Shape::PopFront(k) => (0..*k).fold(v, |v, _| v.pop_front().map(|x| x.0).unwrap_or_default()),
            Shape::PopBack(k) => (0..*k).fold(v, |v, _| v.pop_back().map(|x| x.0).unwrap_or_default()),
        };
    }
    let l = v.len();
    obs.nontrivial(l > 65_536 && !ats.is_empty());
    obs.tag_if(shapes.len() > 4, "an uneven tree");
    let v = black_box(&v);
    let at = |what: &'static str, i: usize| move || format!("{what} at {i}");
    quick(l, READ, at("the length", 0), || v.len())?;
    quick(l, READ, at("whether it is empty", 0), || v.is_empty())?;
    quick(l, READ, at("a clone", 0), || v.clone())?;
    quick(l, READ, at("the first of an iterator", 0), || v.iter().next().copied())?;
    quick(l, 400_000, at("the first 3000 elements", 0), || v.iter().take(3000).fold(0u32, |a, x| a ^ x))?;
    quick(l, READ, at("the first", 0), || v.first().copied())?;
    quick(l, READ, at("the last", l), || v.last().copied())?;
    quick(l, READ, at("the size of an iterator", 0), || v.iter().size_hint())?;
    quick(l, WRITE, at("a push at the back", l), || v.push_back(1))?;
    quick(l, WRITE, at("a push at the front", 0), || v.push_front(1))?;
    quick(l, WRITE, at("a pop at the back", l), || v.pop_back())?;
    quick(l, WRITE, at("a pop at the front", 0), || v.pop_front())?;
    let few: PV<u32> = (0..70).collect();
    quick(l, WRITE, at("a few elements appended", l), || v.concat(&few))?;
    quick(l, WRITE, at("a few elements before", 0), || few.concat(v))?;
    for k in ats {
        let i = (l * *k as usize) >> 16;
        quick(l, READ, at("reading", i), || v.get(i).copied())?;
        quick(l, READ, at("indexing", i), || v[i])?;
        quick(l, READ, at("reading or failing", i), || v.try_get(i).map(|x| *x).ok())?;
        quick(l, WRITE, at("an update", i), || v.update(i, 1))?;
        quick(l, WRITE, at("an update or failing", i), || v.try_update(i, 1).ok())?;
        quick(l, WRITE, at("an insertion", i), || v.insert(i, 1))?;
        quick(l, WRITE, at("a removal", i), || v.remove(i))?;
        quick(l, WRITE, at("taking", i), || v.take(i))?;
        quick(l, WRITE, at("skipping", i), || v.skip(i))?;
        quick(l, WRITE, at("splitting", i), || v.split_at(i))?;
        let (a, b) = v.split_at(i);
        quick(l, WRITE, at("joining", i), || a.concat(&b))?;
        quick(l, WRITE, at("joining the other way", i), || b.concat(&a))?;
    }
    if *TRIAL {
        eprintln!("most {MOST:?}");
    }
    Ok(())
}

fn long_len() -> BoxedStrategy<usize> {
    prop_oneof![2 => 2100usize..6000, 2 => 12_500usize..20_000, 1 => Just(4161usize), 1 => Just(32_768usize)].boxed()
}

fn main() {
    let mut s = Suite::new("C34");
    s.check("history-large", "at least two steps producing vectors longer than 2048", 8_000, || history(Scale::Large, 40), hist);
    s.check("history-huge", "at least two steps producing vectors longer than 2048", 4_000, || history(Scale::Huge, 25), hist);
    s.check(
        "repeat",
        "a vector longer than 2048 taken through at least 20 steps",
        700,
        || (long_len(), recipe(), prop::collection::vec(step(), 1..4), 1u16..600),
        repeat,
    );
    s.check(
        "versions",
        "at least one edit of a vector longer than 2048",
        500,
        || (long_len(), recipe(), prop::collection::vec((any::<u8>(), any::<u16>()), 1..60)),
        versions,
    );
    s.check(
        "tall",
        "grown by more than 65536 pushes, then edited at least once",
        70,
        || {
            let g = prop_oneof![2 => 1u32..3000, 3 => 60_000u32..200_000];
            (prop::collection::vec((any::<bool>(), g), 1..3), prop::collection::vec((any::<u8>(), any::<u16>()), 1..60))
        },
        tall,
    );
    s.check(
        "time",
        "a vector longer than 65536, read and edited at one position or more",
        300,
        || {
            let i = any::<u16>;
            let shape = prop_oneof![
                2 => i().prop_map(Shape::Rotate),
                1 => any::<u8>().prop_map(Shape::Front),
                1 => any::<u8>().prop_map(Shape::Back),
                1 => i().prop_map(Shape::Insert),
                1 => i().prop_map(Shape::Remove),
                1 => any::<u8>().prop_map(Shape::PopFront),
                1 => any::<u8>().prop_map(Shape::PopBack),
            ];
            let n = prop_oneof![1 => 65_000usize..140_000, 3 => 140_000usize..400_000];
            (n, prop::collection::vec(shape, 0..12), prop::collection::vec(i(), 0..4))
        },
        timed,
    );
    s.main();
}
