#![allow(deprecated)]
//! C33: every value handed to the library is dropped exactly once.
use proptest::collection::vec;
use proptest::prelude::*;
use rustica::category::function_category::{FunctionCategory as FC, FunctionMorphism};
use rustica::traits::arrow::Arrow;
use rustica::traits::category::Category;
use rustica::datatypes::async_monad::AsyncM;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::cont::Cont;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::io::IO;
use rustica::datatypes::lens::Lens;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::prism::Prism;
use rustica::datatypes::reader::Reader;
use rustica::datatypes::state::{self, State};
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, memoizer::Memoizer, min::Min, predicate::Predicate, product::Product, sum::Sum, thunk::Thunk};
use rustica::datatypes::writer::Writer;
use rustica::error::{self as ec, accumulate_context, context_accumulator, context_fn, error_pipeline, with_context_result, ComposableError, ErrorOps};
use rustica::pvec::PersistentVector as PV;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::evaluate::EvaluateExt;
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::functor::{Functor, FunctorExt};
use rustica::traits::comonad::Comonad;
use rustica::traits::hkt::BinaryHKT;
use rustica::traits::identity::Identity;
use rustica::traits::natural_transformation::{identity_nat, NaturalTransformation};
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::monad_error::{ErrorMapper, MonadError};
use rustica::traits::monoid::{self, Monoid};
use rustica::traits::pure::{Pure, PureExt};
use rustica::traits::semigroup::{self, Semigroup, SemigroupExt};
use rustica::transformers::{ContT, MonadTransformer, ReaderT, StateT};
use rustica::utils::categorical_utils as cu;
use rustica::utils::error_utils::{self as eu, ResultExt, WithError};
use rustica::utils::hkt_utils as hu;
use rustica::utils::transform_utils::{transform_all, transform_chain, Pipeline};
use smallvec::SmallVec;
use std::any::Any;
use std::cell::Cell;
use std::sync::Arc;
use vharness::live::*;
use vharness::runner::*;

type LOpt<A> = Option<A>;
type LRes<A> = Result<A, Tr>;
type LMay<A> = Maybe<A>;
type LEi<A> = Either<Tr, A>;
type LVal<A> = Validated<Tr, A>;
type LCh<A> = Choice<A>;
type LVec<A> = Vec<A>;
type LId<A> = Id<A>;
type LWr<A> = Writer<Vec<Tr>, A>;
type LPv<A> = PV<A>;

/// A step: which operation, on which operands, with which parameter.
type Step = (u16, u8, u8, u8);
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct In {
    shapes: Vec<u8>,
    steps: Vec<Step>,
    fracs: Vec<u16>,
}
fn input(shapes: usize, steps: usize) -> BoxedStrategy<In> {
    (vec(any::<u8>(), 1..=shapes), vec(any::<Step>(), 1..=steps), vec(any::<u16>(), 4))
        .prop_map(|(shapes, steps, fracs)| In { shapes, steps, fracs })
        .boxed()
}

/// A container of the given shape: how many values, or how many errors.
trait Mk<A> {
    fn mk(shape: u8, a: &mut dyn FnMut() -> A) -> Self;
    /// Small enough to be an operand of further steps.
    fn small(&self) -> bool {
        true
    }
}
fn tr() -> Tr {
    thread_local!(static N: Cell<u32> = const { Cell::new(0) });
    N.with(|n| {
        n.set(n.get().wrapping_add(1) % 41);
        Tr::new(n.get())
    })
}
fn some(n: u8, a: &mut dyn FnMut() -> Tr) -> Vec<Tr> {
    (0..n).map(|_| a()).collect()
}
impl<A> Mk<A> for Option<A> {
    fn mk(s: u8, a: &mut dyn FnMut() -> A) -> Self {
        (s % 4 != 0).then(a)
    }
}
impl<A> Mk<A> for Maybe<A> {
    fn mk(s: u8, a: &mut dyn FnMut() -> A) -> Self {
        if s % 4 != 0 {
            Maybe::Just(a())
        } else {
            Maybe::Nothing
        }
    }
}
impl<A> Mk<A> for Result<A, Tr> {
    fn mk(s: u8, a: &mut dyn FnMut() -> A) -> Self {
        if s % 3 != 0 {
            Ok(a())
        } else {
            Err(tr())
        }
    }
}
impl<A> Mk<A> for Either<Tr, A> {
    fn mk(s: u8, a: &mut dyn FnMut() -> A) -> Self {
        if s % 3 != 0 {
            Either::Right(a())
        } else {
            Either::Left(tr())
        }
    }
}
impl<A> Mk<A> for Validated<Tr, A> {
    fn mk(s: u8, a: &mut dyn FnMut() -> A) -> Self {
        match s % 6 {
            0 => Validated::Invalid(SmallVec::from_vec(some(1 + s / 6 % 3, &mut tr))),
            1 => Validated::Invalid(some(1 + s / 6 % 11, &mut tr).into_iter().collect()),
            2 => Validated::Invalid(some(1, &mut tr).into_iter().collect()),
            _ => Validated::Valid(a()),
        }
    }
    fn small(&self) -> bool {
        self.error_slice().len() <= 24
    }
}
impl<A: Clone> Mk<A> for Choice<A> {
    fn mk(s: u8, a: &mut dyn FnMut() -> A) -> Self {
        Choice::of_many((0..s % 13).map(|_| a()).collect::<Vec<_>>())
    }
    fn small(&self) -> bool {
        self.len() <= 13
    }
}
impl<A> Mk<A> for Vec<A> {
    fn mk(s: u8, a: &mut dyn FnMut() -> A) -> Self {
        (0..s % 6).map(|_| a()).collect()
    }
    fn small(&self) -> bool {
        self.len() <= 10
    }
}
impl<A> Mk<A> for Id<A> {
    fn mk(_: u8, a: &mut dyn FnMut() -> A) -> Self {
        Id::new(a())
    }
}
impl<A: std::fmt::Debug> Mk<A> for Writer<Vec<Tr>, A> {
    fn mk(s: u8, a: &mut dyn FnMut() -> A) -> Self {
        Writer::new(some(s % 4, &mut tr), a())
    }
    fn small(&self) -> bool {
        format!("{self:?}").len() <= 200
    }
}
impl<A: Clone> Mk<A> for PV<A> {
    fn mk(s: u8, a: &mut dyn FnMut() -> A) -> Self {
        let n = [0, 1, 3, 40, 64, 65, 70, 130][s as usize % 8];
        let mut v: PV<A> = (0..n).map(|_| a()).collect();
        for _ in 0..s / 8 % 3 {
            v = v.push_front(a());
        }
        v
    }
    fn small(&self) -> bool {
        self.len() <= 700
    }
}

/// The versions made so far and the other results, all kept until the end.
struct Pool<C> {
    xs: Vec<C>,
    held: Vec<Box<dyn Any>>,
    /// the operands of the current step
    i: u8,
    j: u8,
    k: u32,
}
impl<C> Pool<C> {
    fn x(&self) -> &C {
        &self.xs[self.i as usize % self.xs.len()]
    }
    fn y(&self) -> &C {
        &self.xs[self.j as usize % self.xs.len()]
    }
    fn keep(&mut self, c: C)
    where
        C: Mk<Tr> + 'static,
    {
        if c.small() {
            self.xs.push(c)
        } else {
            self.hold(c)
        }
    }
    fn hold<T: 'static>(&mut self, t: T) {
        self.held.push(Box::new(t))
    }
}

macro_rules! group {
    (functor, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        match $op % 7 {
            6 => {
                let r = ($p.x().void(), $p.y().clone().void_owned());
                $p.hold(r)
            }
            0 => $p.keep($p.x().fmap(|a: &Tr| a.map(k))),
            1 => $p.keep($p.x().clone().fmap_owned(|a: Tr| a.map(k))),
            2 => {
                let r = $p.x().fmap(|a: &Tr| (a.clone(), a.test(k)));
                $p.hold(r)
            }
            3 => {
                let r = $p.x().clone().fmap_owned(|a: Tr| {
                    a.tick();
                    (a, 1u8)
                });
                $p.hold(r)
            }
            4 => $p.keep($p.x().replace(&tr())),
            _ => $p.keep($p.x().clone().replace_owned(tr())),
        }
    }};
    (functor_ext, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        match $op % 2 {
            0 => $p.keep(FunctorExt::try_map_or($p.x(), tr(), |a: &Tr| if a.test(k) { Ok(a.map(k)) } else { Err(a.map(1)) })),
            _ => $p.keep(FunctorExt::try_map_or_else($p.x(), |e: &Tr| e.map(k), |a: &Tr| if a.test(k) { Ok(a.map(k)) } else { Err(a.map(1)) })),
        }
    }};
    (filter_map, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        let _ = $op;
        $p.keep(FunctorExt::filter_map($p.x(), |a: &Tr| a.test(k).then(|| a.map(k))))
    }};
    (monoid, $C:ident, $p:ident, $op:expr) => {{
        match $op % 4 {
            0 => $p.keep(monoid::combine_all(vec![$p.x().clone(), $p.y().clone()])),
            1 => $p.keep(monoid::mconcat(&[$p.x().clone(), $p.y().clone()])),
            2 => $p.keep(monoid::power($p.x().clone(), ($p.k % 4) as usize)),
            _ => $p.keep(monoid::repeat($p.x().clone(), ($p.k % 4) as usize)),
        }
    }};
    (applicative, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        type C = $C<Tr>;
        match $op % 11 {
            9 => $p.keep(C::sequence_right($p.x(), $p.y())),
            10 => $p.keep(C::ap2(|a: &Tr, b: &Tr| a.two(b), $p.x(), $p.y())),
            0 => $p.keep(C::lift2(|a: &Tr, b: &Tr| a.two(b), $p.x(), $p.y())),
            1 => $p.keep(C::lift2_owned(|a: Tr, b: Tr| a.two(&b), $p.x().clone(), $p.y().clone())),
            2 => $p.keep(C::lift3(|a: &Tr, b: &Tr, c: &Tr| a.two(b).two(c), $p.x(), $p.y(), $p.x())),
            3 => $p.keep(C::lift3_owned(|a: Tr, b: Tr, c: Tr| a.two(&b).two(&c), $p.x().clone(), $p.y().clone(), $p.x().clone())),
            4 => {
                let f = |c: Tr| move |a: &Tr| c.two(a);
                let fs = $p.x().fmap(|c: &Tr| f(c.map(k)));
                $p.keep(fs.apply($p.y()))
            }
            5 => {
                let f = |c: Tr| move |a: Tr| c.two(&a);
                let fs = $p.x().clone().fmap_owned(|c: Tr| f(c.map(k)));
                $p.keep(fs.apply_owned($p.y().clone()))
            }
            6 => $p.keep(C::sequence_left($p.x(), $p.y())),
            7 => $p.keep(C::sequence_right_owned($p.x().clone(), $p.y().clone())),
            _ => $p.keep(C::sequence_left_owned($p.x().clone(), $p.y().clone())),
        }
    }};
    (pure, $C:ident, $p:ident, $op:expr) => {{
        match $op % 7 {
            2 => $p.keep(PureExt::to_pure::<$C<Tr>>(&tr())),
            3 => $p.keep(PureExt::to_pure_owned::<$C<Tr>>(tr())),
            4 => {
                let r = PureExt::pair_with::<$C<Tr>, Tr>(&tr(), &tr());
                $p.hold(r)
            }
            5 => $p.keep(PureExt::lift_other::<$C<Tr>, Tr>(&1u8, &tr())),
            6 => $p.keep(PureExt::combine_with::<$C<Tr>, Tr, Tr>(&tr(), &tr(), |a: &Tr, b: &Tr| a.two(b))),
            0 => $p.keep(<$C<Tr> as Pure>::pure(&tr())),
            _ => $p.keep(<$C<Tr> as Pure>::pure_owned(tr())),
        }
    }};
    (monad, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        // the step decides on the value what it makes
        let step = |a: &Tr| -> $C<Tr> { Mk::mk(a.test(k) as u8 * 3 + (a.v % 5) as u8, &mut || a.map(k)) };
        match $op % 8 {
            6 => $p.keep(Monad::try_bind($p.x(), &tr(), |a: &Tr| if a.test(k) { Ok(step(a)) } else { Err(a.map(k)) })),
            7 => $p.keep(Monad::map_and_pure($p.x(), |a: &Tr| a.map(k))),
            0 => $p.keep($p.x().bind(|a: &Tr| step(a))),
            1 => $p.keep($p.x().clone().bind_owned(|a: Tr| step(&a))),
            2 => $p.keep($p.x().flat_map(|a: &Tr| step(a))),
            3 => $p.keep($p.x().clone().flat_map_owned(|a: Tr| step(&a))),
            4 => {
                let n: $C<$C<Tr>> = $p.x().fmap(|a: &Tr| step(a));
                $p.keep(n.join::<Tr>())
            }
            _ => {
                let n: $C<$C<Tr>> = $p.x().fmap(|a: &Tr| step(a));
                $p.keep(n.join_owned::<Tr>())
            }
        }
    }};
    (plus, $C:ident, $p:ident, $op:expr) => {{
        match $op % 2 {
            0 => $p.keep($p.x().mplus($p.y())),
            _ => $p.keep($p.x().clone().mplus_owned($p.y().clone())),
        }
    }};
    (alternative, $C:ident, $p:ident, $op:expr) => {{
        match $op % 2 {
            0 => $p.keep($p.x().alt($p.y())),
            _ => {
                let k = $p.k;
                $p.keep(<$C<Tr> as Alternative>::guard(k % 2 == 0).fmap(|_: &()| tr()))
            }
        }
    }};
    (semigroup, $C:ident, $p:ident, $op:expr) => {{
        // repeated doubling must stay small
        match $op % 8 {
            4 => $p.keep(<$C<Tr> as SemigroupExt>::combine_all_owned(vec![$p.x().clone(), $p.y().clone(), $p.x().clone()])),
            5 => $p.keep(SemigroupExt::combine_all($p.x().clone(), vec![$p.y().clone(), $p.x().clone()])),
            6 => $p.keep(semigroup::combine_values($p.x().clone(), vec![$p.y().clone()])),
            7 => {
                let r = semigroup::combine_all_values(vec![$p.x().clone(), $p.y().clone()]);
                $p.hold(r)
            }
            0 => $p.keep($p.x().combine($p.y())),
            1 => $p.keep($p.x().clone().combine_owned($p.y().clone())),
            2 => $p.keep($p.x().clone().combine_n_owned(($p.k % 4) as usize)),
            _ => $p.keep($p.x().combine_n(&(($p.k % 4) as usize))),
        }
    }};
    (foldable, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        match $op % 8 {
            7 => {
                let r = (
                    FoldableExt::fold_option($p.x(), |a: &Tr| (a.v % 8 != 1).then(|| vec![a.map(k)])),
                    $p.y().fold_map(|a: &Tr| Choice::new(a.map(k), vec![])),
                );
                $p.hold(r)
            }
            0 => {
                let r = $p.x().fold_left(&tr(), |a: &Tr, b: &Tr| a.two(b));
                $p.hold(r)
            }
            1 => {
                let r = $p.x().fold_right(&tr(), |a: &Tr, b: &Tr| a.two(b));
                $p.hold(r)
            }
            2 => {
                let r = $p.x().fold_map(|a: &Tr| vec![a.map(k)]);
                $p.hold(r)
            }
            3 => {
                let r = FoldableExt::find($p.x(), |a: &Tr| a.test(k));
                $p.hold(r)
            }
            4 => {
                let r = (FoldableExt::to_vec($p.x()), $p.x().maximum(), $p.x().minimum());
                $p.hold(r)
            }
            5 => {
                let r = $p.x().reduce(|a: &Tr, b: &Tr| a.two(b));
                $p.hold(r)
            }
            _ => {
                let r = (FoldableExt::any($p.x(), |a: &Tr| a.test(k)), FoldableExt::contains($p.x(), &tr()), FoldableExt::is_sorted($p.x()));
                $p.hold(r)
            }
        }
    }};
    (identity, $C:ident, $p:ident, $op:expr) => {{
        match $op % 2 {
            0 => {
                let r = (Identity::try_value($p.x()).map(|a| a.map(1)), Identity::try_into_value($p.y().clone()));
                $p.hold(r)
            }
            _ => {
                let n = identity_nat::<$C<Tr>>();
                $p.keep(n.transform::<Tr>($p.x()));
                $p.keep(n.transform_owned::<Tr>($p.y().clone()))
            }
        }
    }};
    (comonad, $C:ident, $p:ident, $op:expr) => {{
        match $op % 3 {
            0 => {
                let r = Comonad::extract($p.x());
                $p.hold(r)
            }
            1 => $p.keep(Comonad::duplicate($p.x())),
            _ => {
                let k = $p.k;
                $p.keep(Comonad::extend($p.x(), |w: &Id<Tr>| w.value().map(k)))
            }
        }
    }};
    (bifunctor, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        match $op % 6 {
            0 => $p.keep($p.x().bimap(|a: &Tr| a.map(k), |e: &Tr| e.map(k))),
            1 => $p.keep($p.x().second(|e: &Tr| e.map(k))),
            2 => $p.keep($p.x().map_second(|e: &Tr| e.map(k))),
            3 => $p.keep($p.x().clone().map_second_owned(|e: Tr| e.map(k))),
            4 => {
                let r = $p.x().clone().map_second_owned(|e: Tr| {
                    e.tick();
                    (e, 1u8)
                });
                $p.hold(r)
            }
            _ => $p.keep($p.x().first(|a: &Tr| a.map(k))),
        }
    }};
    (iter, $C:ident, $p:ident, $op:expr) => {{
        match $op % 3 {
            0 => {
                // left half-way
                let mut it = $p.x().clone().into_iter();
                let r = (it.next(), it.nth(($p.k % 5) as usize));
                $p.hold((r, it))
            }
            1 => {
                let r: Vec<Tr> = $p.x().clone().into_iter().skip(($p.k % 3) as usize).collect();
                $p.hold(r)
            }
            _ => {
                let r: Vec<Tr> = $p.x().into_iter().map(|a: &Tr| a.map(1)).collect();
                $p.hold(r)
            }
        }
    }};
    (choice, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        match $op % 24 {
            0 => $p.keep(Choice::new(tr(), some((k % 11) as u8, &mut tr))),
            1 => $p.keep($p.x().clone().add_alternatives(some((k % 4) as u8, &mut tr))),
            2 => {
                let r = $p.x().clone().try_remove_alternative(k as usize % 6);
                if let Ok(c) = r {
                    $p.keep(c)
                }
            }
            3 => {
                let r = $p.x().clone().try_swap_with_alternative(k as usize % 6);
                if let Ok(c) = r {
                    $p.keep(c)
                }
            }
            4 => $p.keep($p.x().filter(|a| a.test(k))),
            5 => $p.keep($p.x().filter_values(|a| a.test(k))),
            6 => $p.keep($p.x().fmap_alternatives(|a| a.map(k))),
            7 => $p.keep($p.x().dedup()),
            8 => $p.keep($p.x().dedup_by_key(|a| a.map(k))),
            9 => {
                let r = $p.x().to_map_with_key(|a| a.map(k % 3));
                $p.hold(r)
            }
            10 => {
                let n: Choice<Vec<Tr>> = $p.x().fmap(|a: &Tr| some((a.v % 3) as u8, &mut || a.map(k)));
                if let Ok(c) = n.try_flatten::<Tr>() {
                    $p.keep(c)
                }
            }
            11 => {
                let n: Choice<Vec<Tr>> = $p.x().fmap(|a: &Tr| some(1 + (a.v % 3) as u8, &mut || a.map(k)));
                if !n.is_empty() {
                    $p.keep(n.flatten_sorted::<Tr>())
                }
            }
            12 => {
                let r: Vec<Tr> = $p.x().bind_lazy(|a| Mk::mk((a.v % 4) as u8, &mut || a.map(k))).take(k as usize % 7).collect();
                $p.hold(r)
            }
            13 => {
                let r = $p.x().fold(tr(), |a, b| a.two(b));
                $p.hold(r)
            }
            14 => {
                let n = $p.x().fmap(|a: &Tr| if a.test(k) || a.v % 3 != 0 { Some(a.map(k)) } else { None });
                let r = n.sequence();
                $p.hold(r)
            }
            15 => $p.keep(vec![$p.x().clone(), $p.y().clone()].into_iter().collect()),
            16 => {
                let v: Vec<Tr> = $p.x().clone().into();
                $p.keep(Choice::from(v))
            }
            17 => {
                let v = $p.x().to_vec();
                $p.keep(Choice::from(&v[..]))
            }
            18 => $p.keep(vec![$p.x().clone(), $p.y().clone()].into_iter().sum()),
            19 => {
                let r: Vec<Tr> = $p.x().iter_alternatives().map(|a| a.map(k)).collect();
                $p.hold(r)
            }
            20 => {
                let at = k as usize % 6;
                let x = $p.x().clone();
                if x.len() > at + 1 {
                    $p.keep(x.clone().remove_alternative(at));
                    $p.keep(x.swap_with_alternative(at))
                }
            }
            21 => {
                let n: Choice<Vec<Tr>> = $p.x().fmap(|a: &Tr| some(1 + (a.v % 3) as u8, &mut || a.map(k)));
                if !n.is_empty() {
                    $p.keep(n.flatten::<Tr>())
                }
            }
            22 => {
                let v: Vec<Tr> = $p.x().clone().into_iter().collect();
                $p.keep(v.into_iter().collect())
            }
            _ => {
                let r = ($p.x().find_first(|a| a.test(k)).cloned(), format!("{}", $p.x()));
                $p.hold(r)
            }
        }
    }};
    (validated, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        type V = Validated<Tr, Tr>;
        match $op % 24 {
            0 => $p.keep($p.x().fmap_invalid(|e| e.map(k))),
            1 => $p.keep($p.x().clone().fmap_invalid_owned(|e| e.map(k))),
            2 if $p.x().is_invalid() || $p.y().is_invalid() => $p.keep($p.x().combine_errors($p.y())),
            3 if $p.x().is_invalid() || $p.y().is_invalid() => $p.keep($p.x().clone().combine_errors_owned($p.y().clone())),
            4 => $p.keep($p.x().clone().recover_all(|e| Mk::mk((e.v % 7) as u8, &mut || e.map(k)))),
            5 => $p.keep($p.x().clone().recover_all_at_once(|es| Mk::mk(es.len() as u8, &mut || es[0].map(k)))),
            6 => $p.keep($p.x().clone().recover_with(tr())),
            7 => {
                let r = ($p.x().errors(), $p.x().clone().into_value(), $p.y().clone().into_error_payload());
                $p.hold(r)
            }
            8 => {
                let mut v = $p.x().clone();
                if let Some(b) = v.error_buffer_mut() {
                    b.truncate(1 + k as usize % 3);
                    b.extend(some((k % 5) as u8, &mut tr));
                }
                $p.keep(v)
            }
            9 => {
                let mut v = $p.x().clone();
                for e in v.iter_errors_mut() {
                    e.set(k);
                }
                for a in v.iter_mut() {
                    a.set(k);
                }
                $p.keep(v)
            }
            10 => {
                let refs: Vec<&V> = $p.xs.iter().collect();
                let r = V::sequence(&refs, &|v: &[Tr]| v.iter().map(|a| a.map(k)).collect::<Vec<_>>());
                $p.hold(r)
            }
            11 => {
                let r = V::sequence_owned($p.xs.clone(), |v: Vec<Tr>| v.iter().map(|a| a.map(k)).collect::<Vec<_>>());
                $p.hold(r)
            }
            12 => {
                let r: Validated<Tr, Vec<Tr>> = V::collect($p.xs.iter().cloned());
                $p.hold(r)
            }
            13 => {
                let r: Validated<Tr, Vec<Tr>> = V::collect_owned($p.xs.clone().into_iter());
                $p.hold(r)
            }
            14 => $p.keep(V::invalid_many(some((k % 12) as u8 + 1, &mut tr))),
            15 => $p.keep(V::invalid_vec(some((k % 12) as u8 + 1, &mut tr))),
            16 if $p.x().iter_errors().len() > 0 || $p.x().is_valid() => {
                let x = $p.x().clone();
                $p.keep(V::from_result(&V::to_result(&x)));
                let r = x.to_result_owned();
                $p.keep(V::from_result_owned(r));
            }
            17 => {
                let o = $p.x().to_option();
                $p.keep(V::from_option(&o, &tr()));
                $p.keep(V::from_option_with(&o, &tr));
                $p.keep(V::from_option_owned(o, tr()));
            }
            18 => {
                let r = block_on($p.x().fmap_valid_async(move |a: Tr| async move {
                    let b = a.map(k);
                    tokio::task::yield_now().await;
                    b.two(&a)
                }));
                $p.keep(r);
                let r = block_on($p.x().fmap_invalid_async(move |e: Tr| async move { e.map(k) }));
                $p.keep(r)
            }
            20 => {
                let o = $p.x().clone().into_iter().next();
                $p.keep(V::from_option_with_owned(o, tr))
            }
            21 => {
                let r = if $p.x().is_valid() { Ok($p.x().clone().unwrap_owned()) } else { Err(($p.x().clone().unwrap_invalid_owned(), $p.x().unwrap_invalid())) };
                $p.hold(r)
            }
            22 => {
                let r = ($p.x().unwrap_or(&tr()), $p.x().as_ref().map(|a| a.map(k)), if $p.y().is_valid() { Some($p.y().unwrap()) } else { None });
                $p.hold(r)
            }
            23 => {
                let x = $p.x().clone();
                // an Invalid without errors has no Either and no Result
                if x.iter_errors().len() > 0 || x.is_valid() {
                    $p.keep(ec::either_to_validated(ec::validated_to_either(x.clone())));
                    let r = ec::validated_to_result(x.clone());
                    $p.hold(r)
                }
                let r = ec::split_validated_errors(x);
                $p.hold(r);
                let r = ec::collect_errors($p.y().errors());
                $p.hold(r)
            }
            _ => {
                let r = block_on($p.x().and_then_async(move |a: Tr| async move { V::mk(a.test(k) as u8 * 3, &mut || a.map(k)) }));
                $p.keep(r)
            }
        }
    }};
    (result, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        match $op % 13 {
            0 => $p.keep($p.x().catch(|e: &Tr| Mk::mk(k as u8, &mut || e.map(k)))),
            1 => $p.keep($p.x().clone().catch_owned(|e: Tr| Mk::mk(k as u8, &mut || e.map(k)))),
            2 => $p.keep($p.x().map_error_to(|e: &Tr| e.map(k))),
            3 => $p.keep($p.x().clone().map_error_to_owned(|e: Tr| e.map(k))),
            4 => {
                let r = eu::sequence($p.xs.clone());
                $p.hold(r);
                let r = eu::traverse($p.xs.clone(), |x: Result<Tr, Tr>| x.map(|a| a.map(k)));
                $p.hold(r)
            }
            5 => {
                $p.keep(ErrorOps::recover($p.x().clone(), |e: Tr| if e.test(k) { Ok(e.map(k)) } else { Err(e) }));
                let r = ErrorOps::bimap_result($p.x().clone(), |a: Tr| a.map(k), |e: Tr| e.map(1));
                $p.hold(r)
            }
            6 => $p.keep(WithError::fmap_error($p.x().clone(), |e: Tr| e.map(k))),
            7 => $p.keep(ResultExt::bimap($p.x().clone(), |a: Tr| a.map(k), |e: Tr| e.map(1))),
            8 => {
                let x = $p.x().clone();
                let r = (ec::result_to_validated(x.clone()), ResultExt::to_validated(x.clone()), ResultExt::to_either(x.clone()), eu::result_to_either(x));
                $p.hold(r)
            }
            9 => {
                let y = $p.x().clone();
                let x = || y.clone();
                $p.keep(cu::bimap_result(x(), |a| a.map(k), |e| e.map(1)));
                $p.keep(cu::flat_map_result(x(), |a: Tr| if a.test(k) { Ok(a) } else { Err(a.map(1)) }));
                $p.keep(cu::map_result(x(), |a| a.map(k)));
                $p.keep(hu::map_result(x(), |a| a.map(k)));
            }
            10 => {
                let r = cu::sequence_results($p.xs.clone());
                $p.hold(r)
            }
            11 => {
                let w = ec::wrap_in_composable_result($p.x().clone());
                $p.keep(ec::flatten_composable_result(w.clone()));
                let r = (w, ec::wrap_in_composable_result_boxed($p.x().clone()), with_context_result($p.y().clone(), "c"));
                $p.hold(r)
            }
            _ => {
                let r = error_pipeline($p.x().clone())
                    .with_context("c")
                    .map(|a| a.map(k))
                    .and_then(|a| if a.test(k) { Ok(a.map(1)) } else { Err(tr()) })
                    .recover(|e| if e.test(k) { Ok(e.map(k)) } else { Err(e) })
                    .map_error(|e| e.map(k))
                    .finish();
                $p.hold(r)
            }
        }
    }};
    (pvec, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        let n = $p.x().len();
        let at = (k as usize * 37) % (n + 1);
        match $op % 26 {
            0 => {
                let mut v = $p.x().clone();
                for _ in 0..k % 9 {
                    v = v.push_back(tr());
                }
                $p.keep(v)
            }
            1 => {
                let mut v = $p.x().clone();
                for _ in 0..k % 9 {
                    v = v.push_front(tr());
                }
                $p.keep(v)
            }
            2 | 3 => {
                for _ in 0..1 + k % 5 {
                    let r = if $op % 26 == 2 { $p.xs.last().unwrap().pop_back() } else { $p.xs.last().unwrap().pop_front() };
                    if let Some((v, a)) = r {
                        a.tick();
                        $p.keep(v);
                        $p.hold(a)
                    }
                }
            }
            4 => $p.keep($p.x().update(at, tr())),
            5 => {
                let r = $p.x().try_update(at, tr());
                if let Ok(v) = r {
                    $p.keep(v)
                }
            }
            6 => $p.keep($p.x().insert(at, tr())),
            7 => {
                if let Some(v) = $p.x().remove(at) {
                    $p.keep(v)
                }
            }
            8 if n + $p.y().len() < 600 => $p.keep($p.x().concat($p.y())),
            9 => {
                let (a, b) = $p.x().split_at(at);
                $p.keep(a);
                $p.keep(b)
            }
            10 => $p.keep($p.x().take(at)),
            11 => $p.keep($p.x().skip(at)),
            12 => $p.keep($p.x().map(|a| a.map(k))),
            13 => $p.keep($p.x().filter(|a| a.test(k))),
            14 => $p.keep($p.x().filter_map(|a| a.test(k).then(|| a.map(k)))),
            15 => $p.keep($p.x().flat_map(|a| some((a.v % 2) as u8, &mut || a.map(k)))),
            16 => $p.keep($p.x().dedup()),
            17 => $p.keep($p.x().sorted()),
            18 => {
                let r = $p.x().fold(tr(), |a, b| a.two(b));
                $p.hold(r)
            }
            19 => {
                let r = $p.x().zip($p.y());
                $p.hold(r)
            }
            20 => {
                let (a, b) = $p.x().partition(|a| a.test(k));
                $p.keep(a);
                $p.keep(b)
            }
            21 => {
                let r = $p.x().chunk(at.max(1));
                $p.hold(r)
            }
            22 => {
                let mut v = $p.x().clone();
                v.extend(some((k % 90) as u8, &mut tr));
                $p.keep(v)
            }
            23 => {
                let v = $p.x().to_vec();
                $p.keep(PV::from_slice(&v));
                $p.keep(PV::from(v))
            }
            24 => {
                let r = ($p.x() == $p.y(), $p.x().cmp($p.y()));
                $p.hold(r)
            }
            _ => $p.keep(PV::unit(tr())),
        }
    }};
    (writer, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        match $op % 3 {
            0 => {
                let r = LWr::<Tr>::tell(some((k % 3) as u8, &mut tr)).bind_owned(|_| Writer::new(vec![tr()], tr()));
                $p.keep(r)
            }
            1 => {
                let r = ($p.x().clone().run(), $p.y().clone().log(), $p.x().unwrap());
                $p.hold(r)
            }
            _ => $p.keep(Writer::pure_value(tr())),
        }
    }};
    (option, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        match $op % 4 {
            0 => {
                $p.keep(cu::flat_map_option($p.x().clone(), |a: Tr| a.test(k).then(|| a.map(k))));
                $p.keep(cu::map_option($p.x().clone(), |a: Tr| a.map(k)));
                $p.keep(hu::lift_option(|a: Tr| a.map(k))($p.x().clone()))
            }
            1 => {
                let r = cu::sequence_options($p.xs.clone());
                $p.hold(r)
            }
            2 => {
                let r = transform_all(&$p.xs, |a: &Tr| a.map(k));
                for x in r {
                    $p.keep(x)
                }
            }
            _ => {
                let r = transform_chain(Some($p.x().clone()), |a: &Tr| a.map(k));
                $p.hold(r)
            }
        }
    }};
    (maybe, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        match $op % 5 {
            0 => $p.keep($p.x().clone().filter(|a| a.test(k))),
            1 => {
                let r = $p.x().clone().fmap_or(tr(), |a| a.map(k));
                $p.hold(r)
            }
            2 => {
                let r = ($p.x().clone().unwrap_or(tr()), $p.y().clone().unwrap_or_else(tr), $p.x().clone().try_unwrap());
                $p.hold(r)
            }
            3 => $p.keep($p.x().clone().tap(|a| a.tick())),
            _ => {
                let r = $p.x().clone().to_result(tr());
                $p.hold((r, Maybe::from_option($p.y().clone().to_option()).to_vec()))
            }
        }
    }};
    (either, $C:ident, $p:ident, $op:expr) => {{
        let k = $p.k;
        match $op % 9 {
            0 => $p.keep($p.x().clone().fmap_left(|e| e.map(k))),
            1 => $p.keep($p.x().clone().fmap_right(|a| a.map(k))),
            2 => {
                let r = ($p.x().clone().left_option(), $p.x().clone().right_option(), $p.y().clone().right_or(tr()));
                $p.hold(r)
            }
            3 => {
                let r: Vec<Tr> = $p.x().clone().left_iter().chain($p.x().left_iter_ref().map(|e| e.map(k))).collect();
                $p.hold(r);
                let mut x = $p.x().clone();
                for e in x.left_iter_mut() {
                    e.set(k)
                }
                for a in &mut x {
                    a.set(k)
                }
                $p.keep(x)
            }
            4 => {
                let r = ($p.x().clone().left_or(tr()), $p.x().clone().unwrap_or(tr()));
                $p.hold(r)
            }
            5 => {
                let r = match $p.x().clone() {
                    x @ Either::Left(_) => (x.clone().left_value(), x.unwrap_left()),
                    x => (x.clone().right_value(), if k % 2 == 0 { x.unwrap_right() } else { x.unwrap() }),
                };
                $p.hold(r)
            }
            6 => {
                let x = $p.x().clone();
                $p.keep(ec::result_to_either(ec::either_to_result(x.clone())));
                $p.keep(Either::from_result(x.to_result()))
            }
            7 => {
                $p.keep(ErrorOps::recover($p.x().clone(), |e: Tr| if e.test(k) { Either::Right(e.map(k)) } else { Either::Left(e) }));
                let r = ErrorOps::bimap_result($p.x().clone(), |a: Tr| a.map(k), |e: Tr| e.map(1));
                $p.hold(r);
                let r = WithError::fmap_error($p.x().clone(), |e: Tr| e.map(k));
                $p.keep(r)
            }
            _ => {
                let (a, b) = ($p.x().clone(), $p.y().clone());
                let r = (eu::either_to_result(a), eu::sequence(vec![eu::either_to_result(b)]));
                $p.hold(r)
            }
        }
    }};
}
fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}

macro_rules! container {
    ($s:ident, $name:literal, $C:ident, $cases:literal, $steps:literal, [$($g:ident)*]) => {
        $s.check(
            $name,
            "a panic of user code came out of the library",
            $cases,
            || input(3, $steps),
            |i, obs| {
                account(
                    || {
                        let mut p: Pool<$C<Tr>> = Pool { xs: i.shapes.iter().map(|s| Mk::mk(*s, &mut tr)).collect(), held: vec![], i: 0, j: 0, k: 0 };
                        let groups: &[fn(u16, &mut Pool<$C<Tr>>)] = &[$(|op, p| group!($g, $C, p, op)),*];
                        for (op, a, b, k) in &i.steps {
                            (p.i, p.j, p.k) = (*a, *b, *k as u32);
                            groups[*op as usize % groups.len()](*op / groups.len() as u16, &mut p);
                        }
                        look(&p.xs);
                    },
                    &i.fracs,
                    obs,
                )
            },
        );
    };
}

/// State computations over tracked states and values.
fn states(i: &In, obs: &mut Obs) -> Res {
    type St = State<Tr, Tr>;
    account(
        || {
            let mut xs: Vec<St> = vec![St::pure(tr())];
            let mut held: Vec<Box<dyn Any>> = vec![];
            for (op, a, b, k) in &i.steps {
                let k = *k as u32;
                let x = xs[*a as usize % xs.len()].clone();
                let y = xs[*b as usize % xs.len()].clone();
                let c = tr();
                xs.push(match op % 9 {
                    0 => state::get::<Tr>(),
                    1 => state::put(c).fmap(|_| tr()),
                    2 => state::modify(move |s: Tr| s.two(&c)).bind(move |_| state::get()),
                    3 => x.fmap(move |a| a.two(&c)),
                    4 => x.bind(move |a| {
                        let c = c.two(&a);
                        y.clone().fmap(move |b| b.two(&c))
                    }),
                    5 => State::new(move |s: Tr| (s.map(k), c.two(&s))),
                    6 => {
                        let f = move |b: Tr| c.two(&b);
                        let f = Arc::new(f);
                        State::pure(move |b: Tr| f(b)).apply(x)
                    }
                    7 => {
                        held.push(Box::new((x.eval_state(tr()), y.exec_state(tr()))));
                        x
                    }
                    _ => State::from(StateT::<Tr, Id<(Tr, Tr)>, Tr>::new(move |s: Tr| Id::new((c.two(&s), s)))),
                });
            }
            let m = xs.last().unwrap();
            look(&m.run_state(tr()));
            xs.truncate(xs.len() / 2 + 1);
            for m in xs.iter().rev().take(3) {
                look(&m.run_state(tr()));
            }
            let e: State<Tr, Result<Tr, Tr>> = xs[0].clone().fmap(|a| if a.test(1) { Ok(a) } else { Err(a) });
            look(&e.try_run_state_with_context(tr(), "c").0.map_err(|e| e.core_error().clone()));
        },
        &i.fracs,
        obs,
    )
}
type SM = Result<(Tr, Tr), Tr>;
fn state_ts(i: &In, obs: &mut Obs) -> Res {
    type St = StateT<Tr, SM, Tr>;
    account(
        || {
            let mut xs: Vec<St> = vec![St::pure(tr(), Ok)];
            for (op, a, b, k) in &i.steps {
                let k = *k as u32;
                let x = xs[*a as usize % xs.len()].clone();
                let y = xs[*b as usize % xs.len()].clone();
                let c = tr();
                xs.push(match op % 10 {
                    0 => St::get(Ok),
                    1 => {
                        let p = St::put(c, Ok);
                        p.fmap_with(|a: Tr| a.map(2), |m, f| m.map(|p| f(p)))
                    }
                    2 => x.fmap_with(
                        {
                            let c = Arc::new(c);
                            move |a: Tr| a.two(&c)
                        },
                        |m, f| m.map(|p| f(p)),
                    ),
                    3 => x.bind_with(
                        {
                            let c = Arc::new(c);
                            move |a: Tr| {
                                let d = a.two(&c);
                                let y = y.clone();
                                StateT::new(move |s: Tr| {
                                    d.tick();
                                    y.run_state(s.two(&d))
                                })
                            }
                        },
                        |m: SM, f| m.and_then(|p| f(p)),
                    ),
                    4 => x.combine_with(
                        &y,
                        {
                            let c = Arc::new(c);
                            move |a: Tr, b: Tr| a.two(&b).two(&c)
                        },
                        |m, n, f| match (m, n) {
                            (Ok(p), Ok(q)) => Ok(f(p, q)),
                            (Err(e), _) | (_, Err(e)) => Err(e),
                        },
                    ),
                    5 => StateT::new(move |s: Tr| if s.test(k) { Ok((s.map(k), c.clone())) } else { Err(c.two(&s)) }),
                    6 => x.apply(y, |m, n| m.and_then(|(s, a)| n.map(|(t, b)| (s.two(&t), a.two(&b))))),
                    7 => x.join(move |m: SM| m.map(|(s, a)| (s.two(&c), a))),
                    8 => x.map_error(move |e| e.two(&c)),
                    _ => <St as MonadTransformer>::lift(if k % 3 == 0 { Err(c) } else { Ok((c.clone(), c)) }),
                });
            }
            for m in xs.iter().rev().take(4) {
                look(&m.run_state(tr()));
            }
            let m = xs.last().unwrap();
            look(&m.try_run_state_with_context(tr(), "c").map_err(|e| e.core_error().clone()));
            look(&m.try_eval_state(tr()).map_err(|e| e.core_error().clone()));
            look(&m.try_exec_state(tr()).map_err(|e| e.core_error().clone()));
            look(&m.exec_state(tr(), |m| m.map(|p| p.0)));
        },
        &i.fracs,
        obs,
    )
}
fn readers(i: &In, obs: &mut Obs) -> Res {
    type Rd = Reader<Tr, Tr>;
    account(
        || {
            let mut xs: Vec<Rd> = vec![Rd::ask()];
            for (op, a, b, _) in &i.steps {
                let x = xs[*a as usize % xs.len()].clone();
                let y = xs[*b as usize % xs.len()].clone();
                let c = Arc::new(tr());
                xs.push(match op % 8 {
                    0 => Rd::ask(),
                    1 => Rd::asks(move |e: Tr| e.two(&c)),
                    2 => Rd::ask_with(|e: &Tr| e.map(1), move |a: Tr| Id::new(a.two(&c))),
                    3 => x.fmap(move |a| a.two(&c)),
                    4 => x.bind(move |a| {
                        let d = Arc::new(a.two(&c));
                        y.fmap(move |b| b.two(&d))
                    }),
                    5 => x.local(move |e| e.two(&c)),
                    6 => x.combine(&y, move |a, b| a.two(&b).two(&c)),
                    _ => Rd::from(ReaderT::<Tr, Id<Tr>, Tr>::new(move |e: Tr| Id::new(e.two(&c)))),
                });
            }
            for m in xs.iter().rev().take(4) {
                look(&m.run_reader(tr()));
            }
        },
        &i.fracs,
        obs,
    )
}
macro_rules! reader_ts {
    ($fn:ident, $M:ty, $mk:expr) => {
        fn $fn(i: &In, obs: &mut Obs) -> Res {
            type Rt = ReaderT<Tr, $M, Tr>;
            let mk: fn(Tr) -> $M = $mk;
            account(
                || {
                    let mut xs: Vec<Rt> = vec![Rt::pure(tr(), mk)];
                    for (op, a, b, k) in &i.steps {
                        let k = *k as u32;
                        let x = xs[*a as usize % xs.len()].clone();
                        let y = xs[*b as usize % xs.len()].clone();
                        let c = Arc::new(tr());
                        xs.push(match op % 12 {
                            0 => Rt::asks(move |e: Tr| e.two(&c), mk),
                            1 => Rt::ask_with(move |e: &Tr| e.two(&c), mk),
                            2 => Rt::asks_with(|e: &Tr| e.map(1), move |a: Tr| a.two(&c), mk),
                            3 => x.fmap(move |a| a.two(&c)),
                            4 => x.bind(move |a| {
                                let d = Arc::new(a.two(&c));
                                y.fmap(move |b| b.two(&d))
                            }),
                            5 => x.local(move |e| e.two(&c)),
                            6 => x.combine(&y, move |a, b| a.two(&b).two(&c)),
                            7 => <Rt as MonadTransformer>::lift(Mk::mk((k % 3) as u8, &mut || c.map(k))),
                            8 => ReaderT::new(move |e: Tr| Mk::mk((e.v % 3) as u8, &mut || e.two(&c))),
                            9 => x.fmap_with(move |a: Tr| a.two(&c), |m: $M, f| m.fmap(|a: &Tr| f(a.clone()))),
                            10 => x.bind_with(
                                move |a: Tr| {
                                    let d = Arc::new(a.two(&c));
                                    y.local(move |e| e.two(&d))
                                },
                                |m: $M, f| m.bind(|a: &Tr| f(a.clone())),
                            ),
                            _ => x.combine_with(&y, move |a: Tr, b: Tr| a.two(&b).two(&c), |m: $M, n: $M, f| <$M>::lift2(|a: &Tr, b: &Tr| f(a, b), &m, &n)),
                        });
                    }
                    for m in xs.iter().rev().take(4) {
                        look(&m.run_reader(tr()));
                    }
                },
                &i.fracs,
                obs,
            )
        }
    };
}
reader_ts!(reader_t_option, Option<Tr>, Some);
reader_ts!(reader_t_result, Result<Tr, Tr>, Ok);
reader_ts!(reader_t_validated, Validated<Tr, Tr>, Validated::Valid);
reader_ts!(reader_t_choice, Choice<Tr>, |a| Choice::new(a, vec![]));

fn conts(i: &In, obs: &mut Obs) -> Res {
    type Ct = Cont<Vec<Tr>, Tr>;
    account(
        || {
            let mut xs: Vec<Ct> = vec![Ct::pure(tr())];
            for (op, a, b, k) in &i.steps {
                let k = *k as u32;
                let x = xs[*a as usize % xs.len()].clone();
                let y = xs[*b as usize % xs.len()].clone();
                let c = Arc::new(tr());
                xs.push(match op % 7 {
                    0 => Ct::return_cont(c.map(k)),
                    1 => x.fmap(move |a| a.two(&c)),
                    2 => x.bind(move |a| {
                        let d = a.two(&c);
                        y.clone().fmap(move |b| b.two(&d))
                    }),
                    // drops, uses once or uses twice its continuation
                    3 => Ct::new(move |q| match k % 3 {
                        0 => vec![c.map(1)],
                        1 => q(c.map(1)),
                        _ => {
                            let mut r = q(c.map(1));
                            if r.len() < 20 {
                                r.extend(q(c.map(2)));
                            }
                            r
                        }
                    }),
                    4 => {
                        let f: Arc<dyn Fn(Tr) -> Cont<Vec<Tr>, Tr> + Send + Sync> = Arc::new(move |a: Tr| Cont::pure(a.two(&c)));
                        x.bind(move |a| f(a))
                    }
                    5 => x.call_cc(|exit: Box<dyn Fn(Tr) -> Cont<Vec<Tr>, Tr> + Send + Sync>| {
                        let t = tr();
                        if t.test(0) {
                            exit(t.map(1))
                        } else {
                            Cont::pure(t)
                        }
                    }),
                    _ => ContT::<Vec<Tr>, Id<Vec<Tr>>, Tr>::from_cont(x).fmap(move |a| a.two(&c)).to_cont(),
                });
            }
            for m in xs.iter().rev().take(3) {
                look(&m.run(|a| vec![a.map(1), a]));
            }
        },
        &i.fracs,
        obs,
    )
}
fn cont_ts(i: &In, obs: &mut Obs) -> Res {
    type M = Result<Vec<Tr>, Tr>;
    type Ct = ContT<Vec<Tr>, M, Tr>;
    account(
        || {
            let mut x: Ct = Ct::pure(tr());
            for (op, _, _, k) in &i.steps {
                let k = *k as u32;
                let c = Arc::new(tr());
                x = match op % 5 {
                    0 => x.fmap(move |a| a.two(&c)),
                    1 => x.bind(move |a| {
                        let d = a.two(&c);
                        Ct::pure(d)
                    }),
                    2 => x.bind(move |a| {
                        let (a, c) = (a.map(k), c.clone());
                        Ct::new(move |q| match (a.v + k) % 3 {
                            0 => Err(a.two(&c)),
                            1 => q(a.two(&c)),
                            _ => q(a.map(1)).and_then(|mut r| {
                                if r.len() < 20 {
                                    r.extend(q(a.map(2))?);
                                }
                                Ok(r)
                            }),
                        })
                    }),
                    3 => x.bind(move |a| {
                        let c = c.clone();
                        Ct::call_cc(move |exit: Arc<dyn Fn(Tr) -> ContT<Vec<Tr>, M, Tr> + Send + Sync>| {
                            if a.test(k) {
                                exit(a.two(&c)).bind(|z| Ct::pure(z.map(3)))
                            } else {
                                Ct::pure(a.map(4))
                            }
                        })
                    }),
                    _ => {
                        let f: Arc<dyn Fn(Tr) -> Tr + Send + Sync> = Arc::new(move |a: Tr| a.two(&c));
                        x.apply(ContT::new(move |q: Arc<dyn Fn(Arc<dyn Fn(Tr) -> Tr + Send + Sync>) -> M + Send + Sync>| q(f.clone())))
                    }
                };
            }
            look(&x.run(|a| Ok(vec![a.map(1), a])));
            look(&x.run(|a| if a.test(1) { Ok(vec![a]) } else { Err(a) }));
        },
        &i.fracs,
        obs,
    )
}
fn ios(i: &In, obs: &mut Obs) -> Res {
    account(
        || {
            let mut xs: Vec<IO<Tr>> = vec![IO::pure(tr())];
            for (op, a, b, k) in &i.steps {
                let k = *k as u32;
                let x = xs[*a as usize % xs.len()].clone();
                let y = xs[*b as usize % xs.len()].clone();
                let c = tr();
                xs.push(match op % 11 {
                    0 => IO::pure(c),
                    1 => IO::new(move || c.map(k)),
                    2 => x.fmap(move |a| a.two(&c)),
                    3 => x.bind(move |a| {
                        let d = a.two(&c);
                        y.fmap(move |b| b.two(&d))
                    }),
                    4 => {
                        let c = Arc::new(c);
                        let f = move |a: Tr| a.two(&c);
                        x.apply(IO::pure(f))
                    }
                    5 => IO::combine(&x, &y).fmap(|(a, b)| a.two(&b)),
                    6 => IO::sequence(vec![x, y]).fmap(|v| v.into_iter().next_back().unwrap()),
                    7 => x.recover_with(c),
                    8 => x.recover(move |_| IO::pure(c.clone())),
                    9 => {
                        let (c, d) = (Arc::new(c), Arc::new(tr()));
                        let e = c.clone();
                        IO::when(move || c.test(k), move || d.map(1), move || e.map(2))
                    }
                    _ => {
                        look(&x.try_get_composable_with_context("c").ok());
                        x.fmap(move |_| c.clone())
                    }
                });
            }
            for m in xs.iter().rev().take(3) {
                look(&m.run());
            }
            let last = xs.last().unwrap();
            look(&last.try_get().ok());
            look(&last.fmap_evaluate(|a| a.map(1)));
            look(&IO::sequence_composable(xs.iter().take(2).cloned()).ok());
            look(&block_on(last.run_async()));
        },
        &i.fracs,
        obs,
    )
}
fn asyncs(i: &In, obs: &mut Obs) -> Res {
    account(
        || {
            let mut xs: Vec<AsyncM<Tr>> = vec![AsyncM::pure(tr())];
            for (op, a, b, k) in &i.steps {
                let k = *k as u32;
                let x = xs[*a as usize % xs.len()].clone();
                let y = xs[*b as usize % xs.len()].clone();
                let c = Arc::new(tr());
                let map = |c: Arc<Tr>| {
                    move |a: Tr| {
                        let c = c.clone();
                        async move {
                            if k % 2 == 0 {
                                tokio::task::yield_now().await;
                            }
                            a.two(&c)
                        }
                    }
                };
                let step = |c: Arc<Tr>, y: AsyncM<Tr>| {
                    move |a: Tr| {
                        let (c, y) = (Arc::new(a.two(&c)), y.clone());
                        async move {
                            y.fmap(move |b: Tr| {
                                let c = c.clone();
                                async move { b.two(&c) }
                            })
                        }
                    }
                };
                xs.push(match op % 10 {
                    0 => AsyncM::pure(c.map(k)),
                    1 => AsyncM::new(move || {
                        let c = c.clone();
                        async move { c.map(k) }
                    }),
                    2 => x.fmap(map(c)),
                    3 => x.fmap_owned(map(c)),
                    4 => x.bind(step(c, y)),
                    5 => x.bind_owned(step(c, y)),
                    6 => x.zip_with(y, move |a, b| a.two(&b).two(&c)),
                    7 => x.zip(y).fmap(|(a, b): (Tr, Tr)| async move { a.two(&b) }),
                    8 => x.apply(AsyncM::pure(move |a: Tr| a.two(&c))),
                    _ => AsyncM::from_result_or_default(
                        move || {
                            let c = c.clone();
                            async move {
                                if c.test(k) {
                                    Ok(c.map(1))
                                } else {
                                    Err(c.map(2))
                                }
                            }
                        },
                        tr(),
                    ),
                });
            }
            let m = xs.last().unwrap();
            block_on(async {
                look(&m.try_get().await);
            });
            {
                // polled once, then dropped
                let m = m.clone();
                let mut f = Box::pin(async move { m.try_get().await });
                let w = std::task::Waker::noop();
                if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut std::task::Context::from_waker(w)) {
                    look(&r);
                }
            }
            look(&block_on(m.clone().recover_with(tr()).try_get()));
        },
        &i.fracs,
        obs,
    )
}
use std::future::Future;

fn wrappers(i: &In, obs: &mut Obs) -> Res {
    account(
        || {
            let mut held: Vec<Box<dyn Any>> = vec![];
            for (op, a, b, k) in &i.steps {
                let k = *k as u32;
                let n = (*a % 5) as usize;
                macro_rules! wrap {
                    ($mk:expr) => {{
                        let mk = $mk;
                        let (x, y) = (mk(*a), mk(*b));
                        held.push(Box::new(x.combine(&y)));
                        held.push(Box::new(x.clone().combine_owned(y.clone())));
                        held.push(Box::new((x.combine_n(&n), y.clone().combine_n_owned(n))));
                        held.push(Box::new(x.fmap(|a: &Tr| a.map(k))));
                        held.push(Box::new(y.clone().fmap_owned(|a: Tr| a.map(k))));
                        look(&x);
                    }};
                }
                match op % 8 {
                    0 => wrap!(|_| Sum(tr())),
                    1 => wrap!(|_| Product(tr())),
                    2 => wrap!(|_| Min(tr())),
                    3 => wrap!(|_| Max(tr())),
                    4 => wrap!(|s: u8| First((s % 3 != 0).then(tr))),
                    5 => wrap!(|s: u8| Last((s % 3 != 0).then(tr))),
                    6 => {
                        let c = tr();
                        let t = Thunk::new(move || c.map(k));
                        held.push(Box::new((t.map_evaluate(|a| a.map(1)), t.filter_evaluate(|a| a.test(k)))));
                    }
                    _ => {
                        let (c, d) = (tr(), tr());
                        let p = Predicate::new(move |x: &Tr| x.two(&c).test(k));
                        let q = Predicate::new(move |x: &Tr| x.two(&d).test(k));
                        let r = p.union(&q).intersection(&p.negate()).combine(&q);
                        look(&r.contains(&tr()));
                        held.push(Box::new(r));
                    }
                }
            }
        },
        &i.fracs,
        obs,
    )
}
fn memo(i: &In, obs: &mut Obs) -> Res {
    account(
        || {
            let m: Memoizer<Tr, Tr> = Memoizer::new();
            let mut held = vec![];
            for (op, a, _, k) in &i.steps {
                if *op % 16 == 0 {
                    m.clear();
                } else {
                    let key = Tr::new((*a % 5) as u32);
                    if op % 5 == 0 {
                        // the computation panics by itself; the memoizer lives on
                        let _ = no_panic(|| m.get_or_compute(key, |x| if x.v < 3 { panic!("own") } else { x.map(1) }));
                    } else {
                        held.push(m.get_or_compute(key, |x| x.map(*k as u32)));
                    }
                }
            }
            look(&held);
        },
        &i.fracs,
        obs,
    )
}
#[derive(Clone, Debug, PartialEq)]
struct Rec {
    a: Tr,
    b: Vec<Tr>,
}
fn optics(i: &In, obs: &mut Obs) -> Res {
    account(
        || {
            let la = || Lens::new(|r: &Rec| r.a.clone(), |r: Rec, a: Tr| Rec { a, ..r });
            let pr = || {
                Prism::new(
                    |e: &Either<Tr, Tr>| match e {
                        Either::Left(l) => Some(l.clone()),
                        _ => None,
                    },
                    |l: &Tr| Either::Left(l.clone()),
                )
            };
            let mut r = Rec { a: tr(), b: vec![tr(), tr()] };
            let mut e: Either<Tr, Tr> = Either::Right(tr());
            for (op, a, _, k) in &i.steps {
                let k = *k as u32;
                match op % 9 {
                    0 => r = la().set(r, tr()),
                    1 => r = la().set_always(r, tr()),
                    2 => r = la().modify(r, |a| a.map(k)),
                    3 => r = la().modify_always(r, |a| a.map(k)),
                    4 => {
                        let l = la().fmap(|a: Tr| (a, 1u8), |(a, _)| a.map(k));
                        look(&l.get(&r));
                        r = l.set(r, (tr(), 2));
                    }
                    5 => {
                        e = if a % 2 == 0 { pr().review(&tr()) } else { Either::Right(tr()) };
                        look(&pr().preview(&e));
                    }
                    6 => e = pr().modify(e, |a| a.map(k)),
                    7 => e = pr().set_if_different(e, tr()),
                    _ => look(&la().get(&r)),
                }
            }
            look(&(r, e));
        },
        &i.fracs,
        obs,
    )
}
fn errors(i: &In, obs: &mut Obs) -> Res {
    account(
        || {
            let mut e = ComposableError::new(tr());
            for (op, a, _, k) in &i.steps {
                let k = *k as u32;
                e = match op % 9 {
                    0 => e.with_context(format!("c{k}")),
                    1 => e.with_contexts((0..*a % 4).map(|n| n.to_string())),
                    2 => e.map_core(|c| c.map(k)),
                    3 => e.set_code(k),
                    4 => accumulate_context(e.core_error().map(k), (0..*a % 3).map(|n| n.to_string())),
                    5 => {
                        let p = error_pipeline::<Tr, Tr>(if *a % 2 == 0 { Ok(tr()) } else { Err(tr()) })
                            .with_context("p")
                            .map(|a| a.map(k))
                            .and_then(|a| if a.test(k) { Ok(a) } else { Err(a.map(1)) })
                            .with_context("q")
                            .recover(|e| if e.test(k) { Ok(e) } else { Err(e.map(1)) })
                            .map_error(|e| e.map(2));
                        match p.finish_without_box() {
                            Ok(a) => ComposableError::new(a),
                            Err(e) => e,
                        }
                    }
                    6 => context_accumulator((0..*a % 4).map(|n| n.to_string()).collect::<Vec<_>>())(ec::composable_to_core(e)),
                    7 => context_fn("f")(ec::core_to_composable(e.core_error().map(k)).core_error().clone()),
                    _ => {
                        look(&e.error_chain());
                        e.clone()
                    }
                };
            }
            look(&e);
        },
        &i.fracs,
        obs,
    )
}
fn utils(i: &In, obs: &mut Obs) -> Res {
    account(
        || {
            let mut held: Vec<Box<dyn Any>> = vec![];
            for (op, a, _, k) in &i.steps {
                let k = *k as u32;
                let xs = || some(*a % 6, &mut tr);
                match op % 14 {
                    0 => held.push(Box::new(hu::filter_map(xs(), |a: &Tr| a.test(k), |a: Tr| a.map(k)))),
                    1 => held.push(Box::new(hu::zip_with(xs(), some(3, &mut tr), |a: Tr, b: Tr| a.two(&b)))),
                    2 => {
                        let fs: Vec<Box<dyn Fn(Tr) -> Tr>> = vec![Box::new(move |a: Tr| a.map(k)), Box::new(|a: Tr| a)];
                        held.push(Box::new(hu::fan_out(tr(), fs)))
                    }
                    3 => held.push(Box::new(eu::sequence_with_error::<_, Tr, Tr>(xs().into_iter().map(|a| if a.test(k) { Ok(a) } else { Err(a) }).collect::<Vec<Result<Tr, Tr>>>()))),
                    4 => held.push(Box::new(eu::traverse_validated(xs(), |a: Tr| if a.test(k) { Ok(a.map(1)) } else { Err(a) }))),
                    5 => held.push(Box::new(Pipeline::new(xs()).map(|a: &Tr| a.map(k)).extract())),
                    6 => {
                        let c = Arc::new(tr());
                        let d = c.clone();
                        let f: FunctionMorphism<Tr, Tr> = FC::arrow(move |a: Tr| a.two(&c));
                        let g: FunctionMorphism<Tr, Tr> = FC::arrow(move |a: Tr| a.two(&d));
                        let h = FC::compose_morphisms(&FC::combine_morphisms(&f, &g), &FC::split(&g, &f));
                        let w = FC::when(move |a: &Tr| a.test(k), |a: Tr| a.map(5));
                        let i = FC::compose_morphisms(&FC::first::<Tr, Tr, Tr>(&w), &h);
                        held.push(Box::new(i(tr())));
                        held.push(Box::new(h));
                        }
                    7 => held.push(Box::new(cu::filter_map_collect(xs(), |a: Tr| a.test(k).then(|| a.map(1))))),
                    8 => {
                        let f = move |a: Tr| if a.test(k) { Some(a.map(1)) } else { (a.v % 5 != 0).then_some(a) };
                        let g = move |a: Tr| if a.test(k) { Ok(a.map(1)) } else if a.v % 5 != 0 { Ok(a) } else { Err(a) };
                        held.push(Box::new((
                            hu::pipeline_option::<Tr, Tr, _, _>(tr(), vec![f; *a as usize % 5]),
                            hu::pipeline_result::<Tr, Tr, Tr, _>(tr(), vec![g; *a as usize % 5]),
                            hu::try_pipeline::<Tr, Tr, Tr, _>(tr(), vec![g; *a as usize % 4]),
                        )))
                    }
                    9 => {
                        let c = tr();
                        let fs: Vec<Box<dyn Fn(Tr) -> Tr>> = vec![Box::new(move |a: Tr| a.two(&c)), Box::new(|a: Tr| a)];
                        let f = hu::compose_all::<Tr, Tr>(fs);
                        held.push(Box::new(f(tr())));
                        held.push(Box::new(f))
                    }
                    10 => {
                        let c = tr();
                        let f = cu::pipe(cu::compose(|a: Tr| a.map(1), move |a: Tr| a.two(&c)), |a: Tr| a.map(2));
                        let g = cu::flip(move |a: Tr, b: Tr| a.two(&b));
                        held.push(Box::new((f(tr()), g(tr(), tr()))));
                        held.push(Box::new(f))
                    }
                    11 => held.push(Box::new(Pipeline::new(xs()).map_owned(|a: Tr| a.map(k)).into_iter().take(*a as usize % 4).collect::<Vec<_>>())),
                    12 => {
                        let e = if *a % 2 == 0 { eu::error_with_context(tr(), tr()) } else { eu::AppError::new(tr()) };
                        let e = e.map(|m| m.map(k)).map_context(|c: Option<Tr>| c.map(|c| c.map(k)));
                        held.push(Box::new((e.clone(), e)))
                    }
                    _ => held.push(Box::new(<Vec<Tr> as Monoid>::empty().combine_owned(xs()))),
                }
            }
        },
        &i.fracs,
        obs,
    )
}

fn main() {
    let mut s = Suite::new("C33");
    s.assume("user code is cloning, comparing, hashing and every function given to the library; destructors do not panic");
    container!(s, "Option", LOpt, 30_000, 16, [functor functor_ext filter_map identity option applicative pure monad plus alternative semigroup foldable iter]);
    container!(s, "Result", LRes, 30_000, 16, [functor functor_ext identity applicative pure monad plus foldable iter result result]);
    container!(s, "Maybe", LMay, 30_000, 16, [functor identity applicative pure monad plus alternative iter maybe]);
    container!(s, "Either", LEi, 30_000, 16, [functor identity applicative pure monad plus alternative bifunctor iter either]);
    container!(s, "Validated", LVal, 40_000, 16, [functor identity monoid applicative pure monad plus alternative semigroup foldable bifunctor iter validated validated]);
    container!(s, "Choice", LCh, 30_000, 6, [functor identity monoid applicative pure monad plus alternative semigroup foldable iter choice choice]);
    container!(s, "Vec", LVec, 20_000, 6, [functor functor_ext filter_map monoid applicative pure alternative semigroup foldable iter]);
    container!(s, "Id", LId, 20_000, 16, [functor identity comonad applicative pure monad foldable iter]);
    container!(s, "Writer", LWr, 30_000, 12, [functor applicative pure monad iter writer]);
    container!(s, "PersistentVector", LPv, 15_000, 14, [functor monoid semigroup foldable iter pvec pvec pvec]);
    s.check("State", "a panic of user code came out of the library", 30_000, || input(1, 10), states);
    s.check("StateT", "a panic of user code came out of the library", 30_000, || input(1, 10), state_ts);
    s.check("Reader", "a panic of user code came out of the library", 30_000, || input(1, 10), readers);
    s.check("ReaderT-Option", "a panic of user code came out of the library", 20_000, || input(1, 10), reader_t_option);
    s.check("ReaderT-Result", "a panic of user code came out of the library", 20_000, || input(1, 10), reader_t_result);
    s.check("ReaderT-Validated", "a panic of user code came out of the library", 20_000, || input(1, 10), reader_t_validated);
    s.check("ReaderT-Choice", "a panic of user code came out of the library", 10_000, || input(1, 3), reader_t_choice);
    s.check("Cont", "a panic of user code came out of the library", 30_000, || input(1, 8), conts);
    s.check("ContT", "a panic of user code came out of the library", 30_000, || input(1, 8), cont_ts);
    s.check("IO", "a panic of user code came out of the library", 15_000, || input(1, 8), ios);
    s.check("AsyncM", "a panic of user code came out of the library", 10_000, || input(1, 8), asyncs);
    s.check("wrappers", "a panic of user code came out of the library", 20_000, || input(1, 8), wrappers);
    s.check("memoizer", "a panic of user code came out of the library", 20_000, || input(1, 20), memo);
    s.check("optics", "a panic of user code came out of the library", 20_000, || input(1, 12), optics);
    s.check("errors", "a panic of user code came out of the library", 20_000, || input(1, 12), errors);
    s.check("utils", "a panic of user code came out of the library", 20_000, || input(1, 8), utils);
    s.main()
}
