//! Iterators that say different things about their length, all of them true.

/// Yields the elements of a list; how much it tells about the number left depends on `shape`.
#[derive(Clone, Debug)]
pub struct Shaped<T> {
    left: std::vec::IntoIter<T>,
    shape: u8,
}
pub const SHAPES: u8 = 8;
pub fn shaped<T>(v: impl IntoIterator<Item = T>, shape: u8) -> Shaped<T> {
    Shaped { left: v.into_iter().collect::<Vec<_>>().into_iter(), shape: shape % SHAPES }
}
impl<T> Iterator for Shaped<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.left.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left.len();
        match self.shape {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n)),
            3 => (n, None),
            4 => (n / 2, None),
            5 => (n / 2, Some(2 * n + 3)),
            6 => (0, Some(usize::MAX)),
            _ => (n, Some(n + 1)),
        }
    }
}

use crate::runner::Res;
use crate::{ensure, ensure_eq};
/// Steps through an iterator that must yield the elements of a list, and then what to do with the
/// rest of it.
pub type Walk = (Vec<u8>, u8);
pub fn walk() -> proptest::strategy::BoxedStrategy<Walk> {
    use proptest::prelude::*;
    (proptest::collection::vec(any::<u8>(), 0..6), any::<u8>()).boxed()
}
/// Every way of consuming an iterator agrees with that of the list.
pub fn follows<T: PartialEq + std::fmt::Debug, U: PartialEq + std::fmt::Debug + Clone>(
    mut it: impl Iterator<Item = T>,
    want: &[U],
    as_is: impl Fn(T) -> U,
    (steps, end): &Walk,
    what: &str,
) -> Res {
    let mut m = want.iter().cloned();
    let hint = |h: (usize, Option<usize>), n: usize| h.0 <= n && h.1.is_none_or(|h| n <= h);
    for (i, s) in steps.iter().enumerate() {
        ensure!(hint(it.size_hint(), m.len()), "{what}: size_hint {:?} with {} left, before step {i}", it.size_hint(), m.len());
        let k = (*s / 8) as usize % 8;
        match s % 8 {
            0 | 1 => ensure_eq!(it.next().map(&as_is), m.next(), "{what}: next at step {i}"),
            2 | 3 => ensure_eq!(it.nth(k).map(&as_is), m.nth(k), "{what}: nth({k}) at step {i}"),
            4 => {
                let k = k * 23;
                ensure_eq!(it.nth(k).map(&as_is), m.nth(k), "{what}: nth({k}) at step {i}");
            }
            5 => ensure_eq!(it.by_ref().take(k).map(&as_is).collect::<Vec<_>>(), m.by_ref().take(k).collect::<Vec<_>>(), "{what}: the next {k} at step {i}"),
            6 => {
                let (mut a, mut b) = (0, 0);
                let up_to = |n: &mut usize| {
                    *n += 1;
                    *n > k
                };
                ensure_eq!(it.find(|_| up_to(&mut a)).map(&as_is), m.find(|_| up_to(&mut b)), "{what}: find at step {i}");
            }
            _ if i + 1 == steps.len() && k == 7 => {
                ensure_eq!(it.nth(usize::MAX).map(&as_is), m.nth(usize::MAX), "{what}: nth of the largest number at step {i}");
            }
            _ => ensure_eq!(it.position(|_| false), m.position(|_| false), "{what}: position of nothing at step {i}"),
        }
    }
    ensure!(hint(it.size_hint(), m.len()), "{what}: size_hint {:?} with {} left, after {steps:?}", it.size_hint(), m.len());
    let k = (*end / 16) as usize;
    let what = format!("{what}, after {steps:?}");
    match end % 12 {
        0 => ensure_eq!(it.count(), m.count(), "{what}: count"),
        1 => ensure_eq!(it.last().map(&as_is), m.last(), "{what}: last"),
        2 => {
            let f = |mut a: Vec<U>, x: U| {
                a.push(x);
                a
            };
            ensure_eq!(it.map(&as_is).fold(vec![], f), m.fold(vec![], f), "{what}: fold");
        }
        3 => {
            let mut a = vec![];
            it.for_each(|x| a.push(as_is(x)));
            ensure_eq!(a, m.collect::<Vec<_>>(), "{what}: for_each");
        }
        4 => ensure_eq!(it.skip(k).map(&as_is).collect::<Vec<_>>(), m.skip(k).collect::<Vec<_>>(), "{what}: skip({k})"),
        5 => ensure_eq!(it.step_by(k + 1).map(&as_is).collect::<Vec<_>>(), m.step_by(k + 1).collect::<Vec<_>>(), "{what}: step_by({})", k + 1),
        6 => ensure_eq!(it.map(&as_is).reduce(|_, b| b), m.reduce(|_, b| b), "{what}: reduce"),
        7 => {
            let mut left = k;
            let a: Result<(), U> = it.map(&as_is).try_for_each(|x| {
                left = left.checked_sub(1).ok_or(x)?;
                Ok(())
            });
            left = k;
            let b: Result<(), U> = m.try_for_each(|x| {
                left = left.checked_sub(1).ok_or(x)?;
                Ok(())
            });
            ensure_eq!(a, b, "{what}: try_for_each up to {k}");
        }
        8 => ensure_eq!(it.map(&as_is).zip(want).collect::<Vec<_>>(), m.zip(want).collect::<Vec<_>>(), "{what}: zip"),
        9 => ensure_eq!(it.map(&as_is).partition::<Vec<_>, _>(|x| Some(x) == want.first()), m.partition::<Vec<_>, _>(|x| Some(x) == want.first()), "{what}: partition"),
        10 => ensure!(it.map(&as_is).eq(m), "{what}: eq"),
        _ => ensure_eq!(it.map(&as_is).collect::<Vec<_>>(), m.collect::<Vec<_>>(), "{what}: the rest"),
    }
    Ok(())
}
