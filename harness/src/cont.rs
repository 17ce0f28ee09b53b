//! One plain model for every container of the library: an optional log, and either the list of
//! success values or the list of errors.
use crate::sym::*;
use proptest::prelude::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use serde::{Deserialize, Serialize};
use smallvec::SmallVec;

pub type COpt<A> = Option<A>;
pub type CRes<A> = Result<A, S>;
pub type CMay<A> = Maybe<A>;
pub type CEi<A> = Either<S, A>;
pub type CVal<A> = Validated<S, A>;
pub type CCh<A> = Choice<A>;
pub type CVec<A> = Vec<A>;
pub type CId<A> = Id<A>;
pub type CWr<A> = Writer<Vec<S>, A>;
pub type CPv<A> = PersistentVector<A>;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Md<A> {
    pub log: Vec<S>,
    pub out: Result<Vec<A>, Vec<S>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// present or absent
    Opt,
    /// a value or one error
    Res,
    /// a value or any number of errors, accumulating
    Val,
    /// any number of values
    List,
    /// exactly one value
    One,
    /// exactly one value and a log
    Log,
}

impl<A> Md<A> {
    pub fn ok(xs: Vec<A>) -> Self {
        Md { log: vec![], out: Ok(xs) }
    }
    pub fn err(es: Vec<S>) -> Self {
        Md { log: vec![], out: Err(es) }
    }
    pub fn map<B>(&self, f: impl FnMut(&A) -> B) -> Md<B> {
        Md { log: self.log.clone(), out: self.out.as_ref().map(|v| v.iter().map(f).collect()).map_err(|e| e.clone()) }
    }
    pub fn values(&self) -> &[A] {
        self.out.as_deref().unwrap_or(&[])
    }
    pub fn is_ok(&self) -> bool {
        self.out.is_ok()
    }
    /// All pairs, left operand outermost; first failure, or all of them when accumulating.
    pub fn ap<B, C>(&self, o: &Md<B>, acc: bool, f: impl Fn(&A, &B) -> C) -> Md<C> {
        let mut log = self.log.clone();
        log.extend(o.log.iter().cloned());
        let out = match (&self.out, &o.out) {
            (Ok(xs), Ok(ys)) => Ok(xs.iter().flat_map(|x| ys.iter().map(|y| f(x, y)).collect::<Vec<_>>()).collect()),
            (Err(a), Err(b)) if acc => Err(a.iter().chain(b).cloned().collect()),
            (Err(a), _) => Err(a.clone()),
            (_, Err(b)) => Err(b.clone()),
        };
        Md { log, out }
    }
    pub fn bind<B>(&self, mut k: impl FnMut(&A) -> Md<B>) -> Md<B> {
        let mut log = self.log.clone();
        match &self.out {
            Err(e) => Md { log, out: Err(e.clone()) },
            Ok(xs) => {
                let mut vals = vec![];
                for x in xs {
                    let m = k(x);
                    log.extend(m.log);
                    match m.out {
                        Ok(v) => vals.extend(v),
                        Err(e) => return Md { log, out: Err(e) },
                    }
                }
                Md { log, out: Ok(vals) }
            }
        }
    }
}

/// Representation of a model as the library's container, and back.
pub trait Repr<A>: Sized {
    const KIND: Kind;
    fn mk(m: Md<A>) -> Self;
    fn view(&self) -> Md<A>;
}

fn one<A>(v: Vec<A>) -> A {
    v.into_iter().next().expect("model with exactly one value")
}
fn err1(v: Vec<S>) -> S {
    v.into_iter().next().expect("model with exactly one error")
}

impl<A: Clone> Repr<A> for Option<A> {
    const KIND: Kind = Kind::Opt;
    fn mk(m: Md<A>) -> Self {
        m.out.ok().map(one)
    }
    fn view(&self) -> Md<A> {
        match self {
            Some(a) => Md::ok(vec![a.clone()]),
            None => Md::err(vec![]),
        }
    }
}
impl<A: Clone> Repr<A> for Maybe<A> {
    const KIND: Kind = Kind::Opt;
    fn mk(m: Md<A>) -> Self {
        match m.out {
            Ok(v) => Maybe::Just(one(v)),
            Err(_) => Maybe::Nothing,
        }
    }
    fn view(&self) -> Md<A> {
        match self {
            Maybe::Just(a) => Md::ok(vec![a.clone()]),
            Maybe::Nothing => Md::err(vec![]),
        }
    }
}
impl<A: Clone> Repr<A> for Result<A, S> {
    const KIND: Kind = Kind::Res;
    fn mk(m: Md<A>) -> Self {
        m.out.map(one).map_err(err1)
    }
    fn view(&self) -> Md<A> {
        match self {
            Ok(a) => Md::ok(vec![a.clone()]),
            Err(e) => Md::err(vec![e.clone()]),
        }
    }
}
impl<A: Clone> Repr<A> for Either<S, A> {
    const KIND: Kind = Kind::Res;
    fn mk(m: Md<A>) -> Self {
        match m.out {
            Ok(v) => Either::Right(one(v)),
            Err(e) => Either::Left(err1(e)),
        }
    }
    fn view(&self) -> Md<A> {
        match self {
            Either::Right(a) => Md::ok(vec![a.clone()]),
            Either::Left(e) => Md::err(vec![e.clone()]),
        }
    }
}
impl<A: Clone> Repr<A> for Validated<S, A> {
    const KIND: Kind = Kind::Val;
    fn mk(m: Md<A>) -> Self {
        match m.out {
            Ok(v) => Validated::Valid(one(v)),
            // Both representations of a short error list: inline and spilled to the heap.
            Err(e) if e.len() % 2 == 1 => Validated::Invalid(SmallVec::from_vec(e)),
            Err(e) => Validated::Invalid(e.into_iter().collect()),
        }
    }
    fn view(&self) -> Md<A> {
        match self {
            Validated::Valid(a) => Md::ok(vec![a.clone()]),
            Validated::Invalid(e) => Md::err(e.iter().cloned().collect()),
        }
    }
}
impl<A: Clone> Repr<A> for Choice<A> {
    const KIND: Kind = Kind::List;
    fn mk(m: Md<A>) -> Self {
        Choice::of_many(m.out.unwrap_or_default())
    }
    fn view(&self) -> Md<A> {
        Md::ok(self.iter().cloned().collect())
    }
}
impl<A: Clone> Repr<A> for Vec<A> {
    const KIND: Kind = Kind::List;
    fn mk(m: Md<A>) -> Self {
        m.out.unwrap_or_default()
    }
    fn view(&self) -> Md<A> {
        Md::ok(self.clone())
    }
}
impl<A: Clone> Repr<A> for PersistentVector<A> {
    const KIND: Kind = Kind::List;
    fn mk(m: Md<A>) -> Self {
        let v = m.out.unwrap_or_default();
        // Half of them with a non-trivial head buffer.
        if v.len() % 2 == 1 {
            let mut p: PersistentVector<A> = v[1..].iter().cloned().collect();
            p = p.push_front(v[0].clone());
            p
        } else {
            v.into_iter().collect()
        }
    }
    fn view(&self) -> Md<A> {
        Md::ok(self.to_vec())
    }
}
impl<A: Clone> Repr<A> for Id<A> {
    const KIND: Kind = Kind::One;
    fn mk(m: Md<A>) -> Self {
        Id::new(one(m.out.ok().unwrap()))
    }
    fn view(&self) -> Md<A> {
        Md::ok(vec![self.clone().into_inner()])
    }
}
impl<A: Clone> Repr<A> for Writer<Vec<S>, A> {
    const KIND: Kind = Kind::Log;
    fn mk(m: Md<A>) -> Self {
        Writer::new(m.log, one(m.out.ok().unwrap()))
    }
    fn view(&self) -> Md<A> {
        let (log, a) = self.clone().run();
        Md { log, out: Ok(vec![a]) }
    }
}

/// Models of a kind of container over any strategy of values.
pub fn md_of<A, St>(k: Kind, s: St, max: usize) -> BoxedStrategy<Md<A>>
where
    A: Clone + std::fmt::Debug + 'static,
    St: Strategy<Value = A> + Clone + 'static,
{
    let some = || s.clone().prop_map(|v| Md::ok(vec![v]));
    match k {
        Kind::Opt => prop_oneof![4 => some(), 1 => Just(()).prop_map(|_| Md::err(vec![]))].boxed(),
        Kind::Res => prop_oneof![4 => some(), 2 => val().prop_map(|e| Md::err(vec![e]))].boxed(),
        Kind::Val => prop_oneof![
            6 => some(),
            3 => prop::collection::vec(val(), 1..4).prop_map(Md::err),
            1 => prop::collection::vec(val(), 0..13).prop_map(Md::err),
            1 => prop::collection::vec(val(), 0..120).prop_map(Md::err),
        ]
        .boxed(),
        Kind::List => prop_oneof![
            1 => Just(()).prop_map(|_| Md::ok(vec![])),
            2 => some(),
            6 => prop::collection::vec(s.clone(), 0..=max.min(5)).prop_map(Md::ok),
            3 => prop::collection::vec(s.clone(), 0..=max).prop_map(Md::ok),
            // Long ones now and then (much longer for operations on one operand).
            1 => prop::collection::vec(s.clone(), 0..=if max > 10 { 7 * max } else { 3 * max }).prop_map(Md::ok),
        ]
        .boxed(),
        Kind::One => some().boxed(),
        Kind::Log => (prop_oneof![9 => prop::collection::vec(val(), 0..4), 1 => prop::collection::vec(val(), 0..80)], s.clone()).prop_map(|(log, v)| Md { log, out: Ok(vec![v]) }).boxed(),
    }
}
/// Models of symbolic values.
pub fn md(k: Kind) -> BoxedStrategy<Md<S>> {
    md_of(k, val(), 11)
}
/// Turn the outcome of a Kleisli function into a model of the kind.
pub fn kl_md(k: Kind, f: &Kl, x: &S) -> Md<S> {
    let (ok, mut vs) = f.run(x);
    match k {
        Kind::Opt if ok => Md::ok(vec![vs.pop().unwrap_or_else(|| x.clone())]),
        Kind::Opt => Md::err(vec![]),
        Kind::Res if ok => Md::ok(vec![vs.pop().unwrap_or_else(|| x.clone())]),
        Kind::Res => Md::err(vec![vs.pop().unwrap_or_else(|| "e".into())]),
        Kind::Val if ok => Md::ok(vec![vs.pop().unwrap_or_else(|| x.clone())]),
        Kind::Val => Md::err(vs),
        Kind::List => Md::ok(if ok || vs.len() > 2 { vs } else { vec![] }),
        Kind::One => Md::ok(vec![vs.pop().unwrap_or_else(|| x.clone())]),
        Kind::Log => {
            let v = vs.pop().unwrap_or_else(|| x.clone());
            Md { log: vs, out: Ok(vec![v]) }
        }
    }
}

/// A string with concatenation as addition and multiplication: a free monoid, so that order and
/// grouping of the operands are visible in the result.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Serialize, Deserialize)]
pub struct Cat(pub S);
impl std::ops::Add for Cat {
    type Output = Cat;
    fn add(self, o: Cat) -> Cat {
        Cat(self.0 + &o.0)
    }
}
impl std::ops::Mul for Cat {
    type Output = Cat;
    fn mul(self, o: Cat) -> Cat {
        Cat(self.0 + &o.0)
    }
}
impl From<u8> for Cat {
    fn from(_: u8) -> Cat {
        Cat(String::new())
    }
}
impl std::fmt::Display for Cat {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
