//! Shared machinery for the persistent vector properties: operation histories over a growing
//! pool of versions, and "recipes" that build one given content along different histories.
use crate::runner::{Fail, Res};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use rustica::pvec::PersistentVector as PV;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

/// Where in a vector of length n an index argument points.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Ix {
    /// fraction of the length, in 1/65536
    Frac(u16),
    /// distance from the start
    Lo(u16),
    /// distance from the end: n - k
    Hi(u16),
    /// near the j-th multiple of 64 from the start, plus/minus one
    Chunk(u8, i8),
    /// beyond the end
    Past(u8),
}
impl Ix {
    pub fn at(self, n: usize) -> usize {
        match self {
            Ix::Frac(f) => (n * f as usize) >> 16,
            Ix::Lo(k) => (k as usize).min(n),
            Ix::Hi(k) => n.saturating_sub(k as usize),
            Ix::Chunk(j, d) => ((j as usize * 64) as i64 + d as i64).clamp(0, n as i64) as usize,
            Ix::Past(k @ 0..4) => n + k as usize,
            Ix::Past(k) => far(n, k as usize),
        }
    }
}
/// Indices far beyond the end, among them those that would be inside if cut to fewer bits.
pub fn far(n: usize, k: usize) -> usize {
    [usize::MAX, usize::MAX - 1, (1 << 63) + n / 2, (1 << 32) + n / 2, 1 << 32, (1 << 16) + n / 2, (1 << 8) + n / 2, usize::MAX - n][k % 8].max(n)
}
pub fn ix() -> BoxedStrategy<Ix> {
    prop_oneof![
        6 => any::<u16>().prop_map(Ix::Frac),
        2 => (0u16..70).prop_map(Ix::Lo),
        2 => (0u16..70).prop_map(Ix::Hi),
        3 => (0u8..12, -1i8..=1).prop_map(|(a, b)| Ix::Chunk(a, b)),
        1 => (0u8..12).prop_map(Ix::Past),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    New,
    Unit,
    From(u8, u32),
    PushBack(u8, u16),
    PushFront(u8, u16),
    PopBack(u8, u16),
    PopFront(u8, u16),
    Update(u8, Ix),
    TryUpdate(u8, Ix),
    Insert(u8, Ix),
    Remove(u8, Ix),
    Concat(u8, u8),
    Split(u8, Ix),
    Take(u8, Ix),
    Skip(u8, Ix),
    Extend(u8, u16),
    CloneOf(u8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Scale {
    Small,
    Medium,
    Large,
    Huge,
}
impl Scale {
    pub fn max(self) -> usize {
        match self {
            Scale::Small => 200,
            Scale::Medium => 1200,
            Scale::Large => 6000,
            Scale::Huge => 70_000,
        }
    }
}

fn from_len(sc: Scale) -> BoxedStrategy<u32> {
    let b: Vec<u32> = match sc {
        Scale::Small => vec![0, 1, 2, 63, 64, 65, 66, 127, 128, 129],
        Scale::Medium => vec![63, 64, 65, 128, 192, 193, 512, 513, 640],
        Scale::Large => vec![64, 65, 2047, 2048, 2049, 2112, 2113, 4096, 4097, 1984],
        Scale::Huge => vec![65, 2048, 2049, 4097, 32768, 65535, 65536, 65537, 65600, 65601, 66000],
    };
    let m = match sc {
        Scale::Small => 160,
        Scale::Medium => 700,
        Scale::Large => 4300,
        Scale::Huge => 66_000,
    };
    prop_oneof![2 => 0u32..=m, 2 => prop::sample::select(b), 1 => 0u32..70].boxed()
}
fn count(sc: Scale) -> BoxedStrategy<u16> {
    match sc {
        Scale::Small => prop_oneof![5 => 1u16..3, 3 => 1u16..20, 2 => 50u16..140].boxed(),
        Scale::Medium => prop_oneof![3 => 1u16..3, 2 => 1u16..70, 2 => 60u16..260].boxed(),
        Scale::Large => prop_oneof![3 => 1u16..3, 2 => 1u16..70, 2 => 60u16..400, 2 => 1000u16..2300].boxed(),
        Scale::Huge => prop_oneof![3 => 1u16..3, 2 => 1u16..70, 2 => 60u16..400].boxed(),
    }
}
pub fn op(sc: Scale) -> BoxedStrategy<Op> {
    let v = || any::<u8>();
    prop_oneof![
        1 => Just(Op::New),
        1 => Just(Op::Unit),
        3 => (v(), from_len(sc)).prop_map(|(a, n)| Op::From(a, n)),
        4 => (v(), count(sc)).prop_map(|(a, n)| Op::PushBack(a, n)),
        4 => (v(), count(sc)).prop_map(|(a, n)| Op::PushFront(a, n)),
        4 => (v(), count(sc)).prop_map(|(a, n)| Op::PopBack(a, n)),
        4 => (v(), count(sc)).prop_map(|(a, n)| Op::PopFront(a, n)),
        3 => (v(), ix()).prop_map(|(a, i)| Op::Update(a, i)),
        1 => (v(), ix()).prop_map(|(a, i)| Op::TryUpdate(a, i)),
        4 => (v(), ix()).prop_map(|(a, i)| Op::Insert(a, i)),
        4 => (v(), ix()).prop_map(|(a, i)| Op::Remove(a, i)),
        6 => (v(), v()).prop_map(|(a, b)| Op::Concat(a, b)),
        4 => (v(), ix()).prop_map(|(a, i)| Op::Split(a, i)),
        2 => (v(), ix()).prop_map(|(a, i)| Op::Take(a, i)),
        2 => (v(), ix()).prop_map(|(a, i)| Op::Skip(a, i)),
        1 => (v(), count(sc)).prop_map(|(a, n)| Op::Extend(a, n)),
        1 => v().prop_map(Op::CloneOf),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub scale: Scale,
    pub ops: Vec<Op>,
}
pub fn history(sc: Scale, max_ops: usize) -> BoxedStrategy<History> {
    prop::collection::vec(op(sc), 1..=max_ops).prop_map(move |ops| History { scale: sc, ops }).boxed()
}

/// A version: the real vector and the list it must equal.
#[derive(Clone)]
pub struct Ver {
    pub v: PV<u32>,
    pub m: Vec<u32>,
}

pub struct Pool {
    pub vers: Vec<Ver>,
    next: u32,
    cap: usize,
    pub steps_tree: usize,
    pub deep: bool,
}

/// The version an operand byte denotes: high values favour the most recent versions.
pub fn sel(n: usize, b: u8) -> usize {
    if b >= 96 {
        n - 1 - ((255 - b as usize) / 54).min(n - 1)
    } else {
        b as usize % n
    }
}

impl Pool {
    pub fn new(sc: Scale) -> Self {
        Pool { vers: vec![Ver { v: PV::new(), m: vec![] }], next: 0, cap: sc.max(), steps_tree: 0, deep: false }
    }
    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    pub fn pick(&self, b: u8) -> usize {
        sel(self.vers.len(), b)
    }
    /// Apply `op`, returning the indices of the new versions (models computed on plain lists).
    /// Errors are disagreements in a result that is not itself a vector.
    pub fn apply(&mut self, op: &Op) -> Result<Vec<usize>, Fail> {
        let start = self.vers.len();
        let mut out: Vec<Ver> = vec![];
        match op {
            Op::New => out.push(Ver { v: PV::new(), m: vec![] }),
            Op::Unit => {
                let x = self.fresh();
                out.push(Ver { v: PV::unit(x), m: vec![x] });
            }
            Op::From(k, n) => {
                let m: Vec<u32> = (0..*n).map(|_| self.fresh()).collect();
                let v = match k % 4 {
                    0 => PV::from_slice(&m),
                    1 => PV::from(m.clone()),
                    2 => m.iter().copied().collect::<PV<u32>>(),
                    _ => {
                        let mut p: PV<u32> = PV::default();
                        p.extend(m.iter().copied().take(300));
                        p.concat(&PV::from_slice(&m[m.len().min(300)..]))
                    }
                };
                out.push(Ver { v, m });
            }
            Op::PushBack(a, n) => {
                let mut w = self.vers[self.pick(*a)].clone();
                for _ in 0..*n {
                    let x = self.fresh();
                    w.v = w.v.push_back(x);
                    w.m.push(x);
                }
                out.push(w);
            }
            Op::PushFront(a, n) => {
                let mut w = self.vers[self.pick(*a)].clone();
                let mut pre = vec![];
                for _ in 0..*n {
                    let x = self.fresh();
                    w.v = w.v.push_front(x);
                    pre.push(x);
                }
                pre.reverse();
                pre.extend_from_slice(&w.m);
                w.m = pre;
                out.push(w);
            }
            Op::PopBack(a, n) => {
                let mut w = self.vers[self.pick(*a)].clone();
                for i in 0..*n {
                    let want = w.m.pop();
                    match (w.v.pop_back(), want) {
                        (None, None) => break,
                        (Some((v2, x)), Some(y)) => {
                            ensure_eq!(x, y, "pop_back #{i} returned element");
                            ensure_eq!(v2.len(), w.m.len(), "length after pop_back #{i}");
                            w.v = v2;
                        }
                        (got, want) => {
                            return Err(Fail::from(format!(
                                "pop_back #{i}: got {:?}, expected {want:?} (length {})",
                                got.map(|g| g.1),
                                w.v.len()
                            )))
                        }
                    }
                }
                out.push(w);
            }
            Op::PopFront(a, n) => {
                let mut w = self.vers[self.pick(*a)].clone();
                let mut off = 0;
                for i in 0..*n {
                    let want = w.m.get(off).copied();
                    match (w.v.pop_front(), want) {
                        (None, None) => break,
                        (Some((v2, x)), Some(y)) => {
                            ensure_eq!(x, y, "pop_front #{i} returned element");
                            off += 1;
                            ensure_eq!(v2.len(), w.m.len() - off, "length after pop_front #{i}");
                            w.v = v2;
                        }
                        (got, want) => {
                            return Err(Fail::from(format!(
                                "pop_front #{i}: got {:?}, expected {want:?} (length {})",
                                got.map(|g| g.1),
                                w.v.len()
                            )))
                        }
                    }
                }
                w.m.drain(..off);
                out.push(w);
            }
            Op::Update(a, i) => {
                let w = self.vers[self.pick(*a)].clone();
                let x = self.fresh();
                let at = i.at(w.m.len());
                let mut m = w.m.clone();
                if at < m.len() {
                    m[at] = x;
                }
                out.push(Ver { v: w.v.update(at, x), m });
            }
            Op::TryUpdate(a, i) => {
                let w = self.vers[self.pick(*a)].clone();
                let x = self.fresh();
                let at = i.at(w.m.len());
                let r = w.v.try_update(at, x);
                if at < w.m.len() {
                    let mut m = w.m.clone();
                    m[at] = x;
                    match r {
                        Ok(v) => out.push(Ver { v, m }),
                        Err(e) => return Err(Fail::from(format!("try_update({at}) in range failed: {e}"))),
                    }
                } else {
                    check_oob(r.err(), at, w.m.len(), "try_update")?;
                }
            }
            Op::Insert(a, i) => {
                let w = self.vers[self.pick(*a)].clone();
                let x = self.fresh();
                let at = i.at(w.m.len());
                let mut m = w.m.clone();
                m.insert(at.min(m.len()), x);
                out.push(Ver { v: w.v.insert(at, x), m });
            }
            Op::Remove(a, i) => {
                let w = self.vers[self.pick(*a)].clone();
                let at = i.at(w.m.len());
                match w.v.remove(at) {
                    None => ensure!(at >= w.m.len(), "remove({at}) of length {} returned None", w.m.len()),
                    Some(v) => {
                        ensure!(at < w.m.len(), "remove({at}) of length {} returned a vector", w.m.len());
                        let mut m = w.m.clone();
                        m.remove(at);
                        out.push(Ver { v, m });
                    }
                }
            }
            Op::Concat(a, b) => {
                let (x, y) = (&self.vers[self.pick(*a)], &self.vers[self.pick(*b)]);
                if x.m.len() + y.m.len() <= self.cap {
                    let mut m = x.m.clone();
                    m.extend_from_slice(&y.m);
                    out.push(Ver { v: x.v.concat(&y.v), m });
                }
            }
            Op::Split(a, i) => {
                let w = self.vers[self.pick(*a)].clone();
                let at = i.at(w.m.len());
                let (l, r) = w.v.split_at(at);
                let k = at.min(w.m.len());
                out.push(Ver { v: l, m: w.m[..k].to_vec() });
                out.push(Ver { v: r, m: w.m[k..].to_vec() });
            }
            Op::Take(a, i) => {
                let w = self.vers[self.pick(*a)].clone();
                let at = i.at(w.m.len());
                out.push(Ver { v: w.v.take(at), m: w.m[..at.min(w.m.len())].to_vec() });
            }
            Op::Skip(a, i) => {
                let w = self.vers[self.pick(*a)].clone();
                let at = i.at(w.m.len());
                out.push(Ver { v: w.v.skip(at), m: w.m[at.min(w.m.len())..].to_vec() });
            }
            Op::Extend(a, n) => {
                let mut w = self.vers[self.pick(*a)].clone();
                let xs: Vec<u32> = (0..*n).map(|_| self.fresh()).collect();
                w.v.extend(xs.clone());
                w.m.extend(xs);
                out.push(w);
            }
            Op::CloneOf(a) => out.push(self.vers[self.pick(*a)].clone()),
        }
        if out.iter().any(|w| w.m.len() > 64) {
            self.steps_tree += 1;
        }
        self.vers.extend(out);
        Ok((start..self.vers.len()).collect())
    }
}

pub fn check_oob(e: Option<rustica::pvec::PVecError>, at: usize, n: usize, what: &str) -> Res {
    match e {
        Some(e @ rustica::pvec::PVecError::IndexOutOfBounds { index, len }) => {
            let text = e.to_string();
            let nums: Vec<usize> = text.split(|c: char| !c.is_ascii_digit()).filter_map(|d| d.parse().ok()).collect();
            ensure!(nums == [at, n], "{what}({at}) of length {n} says {text:?}");
            ensure!(index == at && len == n, "{what}({at}) reports index {index} len {len}, real length {n}");
            Ok(())
        }
        o => Err(Fail::from(format!("{what}({at}) of length {n}: expected IndexOutOfBounds, got {o:?}"))),
    }
}

/// Complete comparison of a vector with the list it must equal.
pub fn same<T: Clone + PartialEq + Debug>(v: &PV<T>, m: &[T], ctx: &str) -> Res {
    let n = m.len();
    ensure_eq!(v.len(), n, "{ctx}: len");
    ensure_eq!(v.is_empty(), n == 0, "{ctx}: is_empty");
    let mut it = v.iter();
    for (i, want) in m.iter().enumerate() {
        if i % 61 == 0 || n < 70 {
            ensure_eq!(it.size_hint(), (n - i, Some(n - i)), "{ctx}: size_hint at {i}");
        }
        match it.next() {
            Some(x) => ensure!(x == want, "{ctx}: element {i} of {n} is {x:?}, expected {want:?}"),
            None => return Err(Fail::from(format!("{ctx}: iteration ended at {i} of {n}"))),
        }
    }
    ensure!(it.next().is_none(), "{ctx}: iteration yields more than {n} elements");
    ensure_eq!(v.first(), m.first(), "{ctx}: first");
    ensure_eq!(v.last(), m.last(), "{ctx}: last");
    for k in [0usize, 1, 5] {
        ensure_eq!(v.get(n + k), None, "{ctx}: get({}) of length {n}", n + k);
        check_oob(v.try_get(n + k).err(), n + k, n, ctx)?;
    }
    for k in 0..8 {
        let k = far(n, k);
        ensure_eq!(v.get(k), None, "{ctx}: get({k}) of length {n}");
        check_oob(v.try_get(k).err(), k, n, ctx)?;
    }
    Ok(())
}
/// Access paths other than the borrowing iterator.
pub fn same_deep<T: Clone + PartialEq + Debug>(v: &PV<T>, m: &[T], ctx: &str) -> Res {
    same(v, m, ctx)?;
    for (i, want) in m.iter().enumerate() {
        ensure_eq!(v.get(i), Some(want), "{ctx}: get({i})");
        ensure!(v.try_get(i).ok() == Some(want), "{ctx}: try_get({i})");
        ensure_eq!(v[i], *want, "{ctx}: [{i}]");
    }
    ensure_eq!(v.to_vec(), m.to_vec(), "{ctx}: to_vec");
    ensure_eq!(Vec::from(v.clone()), m.to_vec(), "{ctx}: Vec::from");
    ensure_eq!(v.clone().into_iter().collect::<Vec<_>>(), m.to_vec(), "{ctx}: into_iter");
    Ok(())
}

/// One way of building a vector with a prescribed content.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Recipe {
    FromVec,
    FromSlice,
    PushBack,
    PushFront,
    Extend,
    /// Build prefix and suffix along their own recipes and concatenate them.
    Concat(u16, Box<Recipe>, Box<Recipe>),
    /// Build with k extra elements at the back/front, then drop them by popping.
    PopBack(u8, Box<Recipe>),
    PopFront(u8, Box<Recipe>),
    Take(u8, Box<Recipe>),
    Skip(u8, Box<Recipe>),
    /// Build with one element missing / one extra, then insert / remove it.
    Insert(u16, Box<Recipe>),
    Remove(u16, Box<Recipe>),
    /// Build with one element different, then update it.
    Update(u16, Box<Recipe>),
    /// Split and rejoin.
    Rejoin(u16, Box<Recipe>),
    /// Push the last/first k elements onto a recipe of the rest.
    ThenPushBack(u8, Box<Recipe>),
    ThenPushFront(u8, Box<Recipe>),
}
pub fn recipe() -> BoxedStrategy<Recipe> {
    let leaf = prop_oneof![
        2 => Just(Recipe::FromVec),
        1 => Just(Recipe::FromSlice),
        2 => Just(Recipe::PushBack),
        2 => Just(Recipe::PushFront),
        1 => Just(Recipe::Extend),
    ];
    leaf.prop_recursive(4, 12, 2, |r| {
        let b = move || r.clone().prop_map(Box::new);
        prop_oneof![
            3 => (any::<u16>(), b(), b()).prop_map(|(k, x, y)| Recipe::Concat(k, x, y)),
            2 => (0u8..=80, b()).prop_map(|(k, x)| Recipe::PopBack(k, x)),
            2 => (0u8..=80, b()).prop_map(|(k, x)| Recipe::PopFront(k, x)),
            1 => (any::<u8>(), b()).prop_map(|(k, x)| Recipe::Take(k, x)),
            1 => (any::<u8>(), b()).prop_map(|(k, x)| Recipe::Skip(k, x)),
            2 => (any::<u16>(), b()).prop_map(|(k, x)| Recipe::Insert(k, x)),
            2 => (any::<u16>(), b()).prop_map(|(k, x)| Recipe::Remove(k, x)),
            1 => (any::<u16>(), b()).prop_map(|(k, x)| Recipe::Update(k, x)),
            2 => (any::<u16>(), b()).prop_map(|(k, x)| Recipe::Rejoin(k, x)),
            2 => (any::<u8>(), b()).prop_map(|(k, x)| Recipe::ThenPushBack(k, x)),
            2 => (any::<u8>(), b()).prop_map(|(k, x)| Recipe::ThenPushFront(k, x)),
        ]
    })
    .boxed()
}
fn frac(k: u16, n: usize) -> usize {
    (n * k as usize) >> 16
}
/// Build a vector holding `xs`; `z` is some other value used for temporary elements.
pub fn build<T: Clone>(r: &Recipe, xs: &[T], z: &T) -> PV<T> {
    match r {
        Recipe::FromVec => PV::from(xs.to_vec()),
        Recipe::FromSlice => PV::from_slice(xs),
        Recipe::PushBack => xs.iter().fold(PV::new(), |v, x| v.push_back(x.clone())),
        Recipe::PushFront => xs.iter().rev().fold(PV::new(), |v, x| v.push_front(x.clone())),
        Recipe::Extend => {
            let mut v = PV::new();
            v.extend(xs.iter().cloned());
            v
        }
        Recipe::Concat(k, a, b) => {
            let i = frac(*k, xs.len() + 1);
            build(a, &xs[..i], z).concat(&build(b, &xs[i..], z))
        }
        Recipe::PopBack(k, a) => {
            let mut ys = xs.to_vec();
            ys.extend(std::iter::repeat(z.clone()).take(*k as usize));
            let mut v = build(a, &ys, z);
            for _ in 0..*k {
                if let Some((w, _)) = v.pop_back() {
                    v = w;
                }
            }
            v
        }
        Recipe::PopFront(k, a) => {
            let mut ys = vec![z.clone(); *k as usize];
            ys.extend_from_slice(xs);
            let mut v = build(a, &ys, z);
            for _ in 0..*k {
                if let Some((w, _)) = v.pop_front() {
                    v = w;
                }
            }
            v
        }
        Recipe::Take(k, a) => {
            let mut ys = xs.to_vec();
            ys.extend(std::iter::repeat(z.clone()).take(*k as usize));
            build(a, &ys, z).take(xs.len())
        }
        Recipe::Skip(k, a) => {
            let mut ys = vec![z.clone(); *k as usize];
            ys.extend_from_slice(xs);
            build(a, &ys, z).skip(*k as usize)
        }
        Recipe::Insert(k, a) => {
            if xs.is_empty() {
                return build(a, xs, z);
            }
            let i = frac(*k, xs.len());
            let mut ys = xs.to_vec();
            let x = ys.remove(i);
            build(a, &ys, z).insert(i, x)
        }
        Recipe::Remove(k, a) => {
            let i = frac(*k, xs.len() + 1);
            let mut ys = xs.to_vec();
            ys.insert(i, z.clone());
            let v = build(a, &ys, z);
            v.remove(i).unwrap_or(v)
        }
        Recipe::Update(k, a) => {
            if xs.is_empty() {
                return build(a, xs, z);
            }
            let i = frac(*k, xs.len());
            let mut ys = xs.to_vec();
            ys[i] = z.clone();
            build(a, &ys, z).update(i, xs[i].clone())
        }
        Recipe::Rejoin(k, a) => {
            let (l, r) = build(a, xs, z).split_at(frac(*k, xs.len() + 1));
            l.concat(&r)
        }
        Recipe::ThenPushBack(k, a) => {
            let i = xs.len() - (*k as usize).min(xs.len());
            xs[i..].iter().fold(build(a, &xs[..i], z), |v, x| v.push_back(x.clone()))
        }
        Recipe::ThenPushFront(k, a) => {
            let i = (*k as usize).min(xs.len());
            xs[..i].iter().rev().fold(build(a, &xs[i..], z), |v, x| v.push_front(x.clone()))
        }
    }
}
/// Content lengths spanning the inline limit, chunk boundaries and several levels.
pub fn content_len() -> BoxedStrategy<usize> {
    prop_oneof![
        4 => 0usize..12,
        4 => 55usize..75,
        3 => 120usize..200,
        2 => 0usize..400,
        1 => 1980usize..2130,
    ]
    .boxed()
}
