//! Containers of the user's own: they implement only what the traits require, so that every
//! other operation on them is the library's default or extension method.
#![allow(deprecated)]
use crate::cont::{Kind, Md, Repr};
use crate::sym::S;
use rustica::traits::applicative::Applicative;
use rustica::traits::comonad::{Comonad, SafeComonad};
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::{Functor, FunctorExt};
use rustica::traits::hkt::HKT;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::pure::Pure;

/// Any number of values, kept last first, so that storage order is not iteration order.
#[derive(Clone, Debug, PartialEq)]
pub struct Snoc<A>(Vec<A>);
impl<A> Snoc<A> {
    pub fn of(mut v: Vec<A>) -> Self {
        v.reverse();
        Snoc(v)
    }
    pub fn list(&self) -> impl Iterator<Item = &A> {
        self.0.iter().rev()
    }
    pub fn into_list(self) -> impl Iterator<Item = A> {
        self.0.into_iter().rev()
    }
}
/// A log and one value.
#[derive(Clone, Debug, PartialEq)]
pub struct Told<A> {
    log: Vec<S>,
    val: A,
}
pub type CUl<A> = Snoc<A>;
pub type CUt<A> = Told<A>;

impl<A: Clone> Repr<A> for Snoc<A> {
    const KIND: Kind = Kind::List;
    fn mk(m: Md<A>) -> Self {
        Snoc::of(m.out.unwrap_or_default())
    }
    fn view(&self) -> Md<A> {
        Md::ok(self.list().cloned().collect())
    }
}
impl<A: Clone> Repr<A> for Told<A> {
    const KIND: Kind = Kind::Log;
    fn mk(m: Md<A>) -> Self {
        Told { log: m.log, val: m.out.unwrap().pop().unwrap() }
    }
    fn view(&self) -> Md<A> {
        Md { log: self.log.clone(), out: Ok(vec![self.val.clone()]) }
    }
}

impl<A> HKT for Snoc<A> {
    type Source = A;
    type Output<B> = Snoc<B>;
}
impl<A> Functor for Snoc<A> {
    fn fmap<B, F: Fn(&A) -> B>(&self, f: F) -> Snoc<B> {
        Snoc::of(self.list().map(f).collect())
    }
    fn fmap_owned<B, F: Fn(A) -> B>(self, f: F) -> Snoc<B> {
        Snoc::of(self.into_list().map(f).collect())
    }
}
impl<A> FunctorExt for Snoc<A> {
    fn filter_map<B, F: Fn(&A) -> Option<B>>(&self, f: F) -> Snoc<B> {
        Snoc::of(self.list().filter_map(f).collect())
    }
}
impl<A> Pure for Snoc<A> {
    fn pure<T: Clone>(value: &T) -> Snoc<T> {
        Snoc(vec![value.clone()])
    }
}
impl<A> Applicative for Snoc<A> {
    fn apply<T, B>(&self, value: &Snoc<T>) -> Snoc<B>
    where
        A: Fn(&T) -> B,
    {
        Snoc::of(self.list().flat_map(|f| value.list().map(f).collect::<Vec<_>>()).collect())
    }
    fn lift2<T, U, V, F: Fn(&T, &U) -> V>(f: F, fa: &Snoc<T>, fb: &Snoc<U>) -> Snoc<V> {
        Snoc::of(fa.list().flat_map(|a| fb.list().map(|b| f(a, b)).collect::<Vec<_>>()).collect())
    }
    fn lift3<T: Clone, U: Clone, V: Clone, W: Clone, F: Fn(&T, &U, &V) -> W>(f: F, fa: &Snoc<T>, fb: &Snoc<U>, fc: &Snoc<V>) -> Snoc<W> {
        let ab = Self::lift2(|a: &T, b: &U| (a.clone(), b.clone()), fa, fb);
        Self::lift2(|p: &(T, U), c: &V| f(&p.0, &p.1, c), &ab, fc)
    }
    fn apply_owned<T: Clone, B: Clone>(self, value: Snoc<T>) -> Snoc<B>
    where
        A: Fn(T) -> B,
    {
        Snoc::of(self.into_list().flat_map(|f| value.clone().into_list().map(f).collect::<Vec<_>>()).collect())
    }
    fn lift2_owned<T: Clone, U: Clone, V: Clone, F: Fn(T, U) -> V>(f: F, fa: Snoc<T>, fb: Snoc<U>) -> Snoc<V> {
        Self::lift2(|a: &T, b: &U| f(a.clone(), b.clone()), &fa, &fb)
    }
    fn lift3_owned<T: Clone, U: Clone, V: Clone, W: Clone, F: Fn(T, U, V) -> W>(f: F, fa: Snoc<T>, fb: Snoc<U>, fc: Snoc<V>) -> Snoc<W> {
        Self::lift3(|a: &T, b: &U, c: &V| f(a.clone(), b.clone(), c.clone()), &fa, &fb, &fc)
    }
}
impl<A> Monad for Snoc<A> {
    fn join<U: Clone>(&self) -> Snoc<U>
    where
        A: Clone + Into<Snoc<U>>,
    {
        self.clone().join_owned()
    }
    fn bind<U, F: Fn(&A) -> Snoc<U>>(&self, f: F) -> Snoc<U> {
        Snoc::of(self.list().flat_map(|a| f(a).into_list().collect::<Vec<_>>()).collect())
    }
    fn bind_owned<U, F: Fn(A) -> Snoc<U>>(self, f: F) -> Snoc<U> {
        Snoc::of(self.into_list().flat_map(|a| f(a).into_list().collect::<Vec<_>>()).collect())
    }
    fn join_owned<U: Clone>(self) -> Snoc<U>
    where
        A: Into<Snoc<U>>,
    {
        self.bind_owned(Into::into)
    }
}
impl<A> Foldable for Snoc<A> {
    fn fold_left<U: Clone, F: Fn(&U, &A) -> U>(&self, init: &U, f: F) -> U {
        self.list().fold(init.clone(), |acc, a| f(&acc, a))
    }
    fn fold_right<U: Clone, F: Fn(&A, &U) -> U>(&self, init: &U, f: F) -> U {
        self.0.iter().fold(init.clone(), |acc, a| f(a, &acc))
    }
}

impl<A> HKT for Told<A> {
    type Source = A;
    type Output<B> = Told<B>;
}
fn join_logs(a: &[S], b: &[S]) -> Vec<S> {
    a.iter().chain(b).cloned().collect()
}
impl<A> Functor for Told<A> {
    fn fmap<B, F: Fn(&A) -> B>(&self, f: F) -> Told<B> {
        Told { log: self.log.clone(), val: f(&self.val) }
    }
    fn fmap_owned<B, F: Fn(A) -> B>(self, f: F) -> Told<B> {
        Told { log: self.log, val: f(self.val) }
    }
}
impl<A> Pure for Told<A> {
    fn pure<T: Clone>(value: &T) -> Told<T> {
        Told { log: vec![], val: value.clone() }
    }
}
impl<A> Applicative for Told<A> {
    fn apply<T, B>(&self, value: &Told<T>) -> Told<B>
    where
        A: Fn(&T) -> B,
    {
        Told { log: join_logs(&self.log, &value.log), val: (self.val)(&value.val) }
    }
    fn lift2<T, U, V, F: Fn(&T, &U) -> V>(f: F, fa: &Told<T>, fb: &Told<U>) -> Told<V> {
        Told { log: join_logs(&fa.log, &fb.log), val: f(&fa.val, &fb.val) }
    }
    fn lift3<T, U, V, W, F: Fn(&T, &U, &V) -> W>(f: F, fa: &Told<T>, fb: &Told<U>, fc: &Told<V>) -> Told<W> {
        Told { log: join_logs(&join_logs(&fa.log, &fb.log), &fc.log), val: f(&fa.val, &fb.val, &fc.val) }
    }
    fn apply_owned<T, B>(self, value: Told<T>) -> Told<B>
    where
        A: Fn(T) -> B,
    {
        Told { log: join_logs(&self.log, &value.log), val: (self.val)(value.val) }
    }
    fn lift2_owned<T, U, V, F: Fn(T, U) -> V>(f: F, fa: Told<T>, fb: Told<U>) -> Told<V> {
        Told { log: join_logs(&fa.log, &fb.log), val: f(fa.val, fb.val) }
    }
    fn lift3_owned<T, U, V, W, F: Fn(T, U, V) -> W>(f: F, fa: Told<T>, fb: Told<U>, fc: Told<V>) -> Told<W> {
        Told { log: join_logs(&join_logs(&fa.log, &fb.log), &fc.log), val: f(fa.val, fb.val, fc.val) }
    }
}
impl<A> Monad for Told<A> {
    fn join<U: Clone>(&self) -> Told<U>
    where
        A: Clone + Into<Told<U>>,
    {
        self.clone().join_owned()
    }
    fn bind<U, F: Fn(&A) -> Told<U>>(&self, f: F) -> Told<U> {
        let next = f(&self.val);
        Told { log: join_logs(&self.log, &next.log), val: next.val }
    }
    fn bind_owned<U, F: Fn(A) -> Told<U>>(self, f: F) -> Told<U> {
        let next = f(self.val);
        Told { log: join_logs(&self.log, &next.log), val: next.val }
    }
    fn join_owned<U: Clone>(self) -> Told<U>
    where
        A: Into<Told<U>>,
    {
        self.bind_owned(Into::into)
    }
}
impl<A> Foldable for Told<A> {
    fn fold_left<U: Clone, F: Fn(&U, &A) -> U>(&self, init: &U, f: F) -> U {
        f(init, &self.val)
    }
    fn fold_right<U: Clone, F: Fn(&A, &U) -> U>(&self, init: &U, f: F) -> U {
        f(&self.val, init)
    }
}
impl<A: Clone> Comonad for Told<A> {
    fn extract(&self) -> A {
        self.val.clone()
    }
    fn extend<U: Clone, F: Fn(&Self) -> U>(&self, f: F) -> Told<U> {
        Told { log: self.log.clone(), val: f(self) }
    }
    fn duplicate(&self) -> Self {
        self.clone()
    }
}
impl<A> SafeComonad for Told<A> {}
impl<A> Identity for Told<A> {
    fn value(&self) -> &A {
        &self.val
    }
    fn into_value(self) -> A {
        self.val
    }
}
