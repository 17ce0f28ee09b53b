//! C40: the generators offered for property tests draw from the given randomness only, give every
//! shape of value, and shrink towards smaller values.
use proptest::prelude::*;
use quickcheck::{Arbitrary, Gen};
use rustica::datatypes::async_monad::AsyncM;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::cont::Cont;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::io::IO;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::reader::Reader;
use rustica::datatypes::state::State;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::writer::Writer;
use std::cell::RefCell;
use std::collections::BTreeSet;
use vharness::runner::*;
use vharness::{ensure, ensure_eq};

thread_local! {
    static MADE: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
}
/// An element that only its own generator makes.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct El(u64);
impl Arbitrary for El {
    fn arbitrary(g: &mut Gen) -> Self {
        let x = u64::arbitrary(g) % 1_000_000;
        MADE.with(|m| m.borrow_mut().push(x));
        El(x)
    }
    fn shrink(&self) -> Box<dyn Iterator<Item = Self>> {
        let x = self.0;
        Box::new((0..20).map(move |k| x - (x >> k)).chain(x.checked_sub(1)).filter(move |y| *y < x).map(El))
    }
}
/// What a value holds: its shape, and its elements.
#[derive(Clone, Debug, Default, PartialEq)]
struct Held {
    shape: String,
    els: Vec<u64>,
}
impl Held {
    fn of(shape: &str, parts: Vec<Held>) -> Held {
        let mut h = Held { shape: format!("{shape}("), els: vec![] };
        for p in parts {
            h.shape += &p.shape;
            h.els.extend(p.els);
        }
        h.shape += ")";
        h
    }
    fn size(&self) -> (usize, usize, u64) {
        (self.els.len(), self.shape.len(), self.els.iter().sum())
    }
}
trait View: Arbitrary {
    fn view(&self) -> Held;
    /// The different shapes that must turn up among many values, by their prefix.
    fn shapes() -> Vec<&'static str> {
        vec![]
    }
}
impl View for El {
    fn view(&self) -> Held {
        Held { shape: ".".into(), els: vec![self.0] }
    }
}
impl<T: View> View for Vec<T> {
    fn view(&self) -> Held {
        Held::of("Vec", self.iter().map(View::view).collect())
    }
}
impl<T: View> View for Maybe<T> {
    fn view(&self) -> Held {
        match self {
            Maybe::Just(a) => Held::of("Just", vec![a.view()]),
            Maybe::Nothing => Held::default(),
        }
    }
    fn shapes() -> Vec<&'static str> {
        vec!["Just", ""]
    }
}
impl<L: View, R: View> View for Either<L, R> {
    fn view(&self) -> Held {
        match self {
            Either::Left(a) => Held::of("Left", vec![a.view()]),
            Either::Right(a) => Held::of("Right", vec![a.view()]),
        }
    }
    fn shapes() -> Vec<&'static str> {
        vec!["Left", "Right"]
    }
}
impl<E: View, A: View> View for Validated<E, A> {
    fn view(&self) -> Held {
        match self {
            Validated::Valid(a) => Held::of("Valid", vec![a.view()]),
            Validated::Invalid(es) => Held::of("Invalid", es.iter().map(View::view).collect()),
        }
    }
    fn shapes() -> Vec<&'static str> {
        vec!["Valid", "Invalid(."]
    }
}
impl<T: View> View for Choice<T> {
    fn view(&self) -> Held {
        Held::of("Choice", self.iter().map(View::view).collect())
    }
    fn shapes() -> Vec<&'static str> {
        vec!["Choice()", "Choice(.)", "Choice(..)", "Choice(...."]
    }
}
impl<T: View> View for Id<T> {
    fn view(&self) -> Held {
        Held::of("Id", vec![self.as_ref().view()])
    }
}
impl View for Writer<Vec<El>, El> {
    fn view(&self) -> Held {
        let (log, a) = self.clone().run();
        Held::of("Writer", vec![log.view(), a.view()])
    }
    fn shapes() -> Vec<&'static str> {
        vec!["Writer(Vec()", "Writer(Vec(.)", "Writer(Vec(..."]
    }
}
/// Given to a computation; not from the generator.
const OWN: El = El(u64::MAX);
impl View for State<El, El> {
    fn view(&self) -> Held {
        let (a, s) = self.run_state(OWN);
        Held::of("State", vec![a.view(), s.view()])
    }
}
impl View for Reader<El, El> {
    fn view(&self) -> Held {
        Held::of("Reader", vec![self.run_reader(OWN).view()])
    }
}
impl View for Cont<Vec<El>, El> {
    fn view(&self) -> Held {
        Held::of("Cont", vec![self.clone().run(|a| vec![a]).view()])
    }
}
impl View for IO<El> {
    fn view(&self) -> Held {
        Held::of("IO", vec![self.run().view()])
    }
}
impl View for AsyncM<El> {
    fn view(&self) -> Held {
        Held::of("AsyncM", vec![RT.with(|rt| rt.block_on(self.try_get())).view()])
    }
}

fn part(els: &[u64], mut of: Vec<u64>) -> bool {
    els.iter().filter(|x| **x != OWN.0).all(|x| of.iter().position(|y| y == x).map(|i| of.swap_remove(i)).is_some())
}
fn draw<T: View>(g: &mut Gen) -> Result<T, Fail> {
    MADE.set(vec![]);
    let v = T::arbitrary(g);
    let (h, made) = (v.view(), MADE.take());
    ensure!(part(&h.els, made.clone()), "a value holds {h:?}, of the elements {made:?} that were generated for it");
    Ok(v)
}
/// Several values in a row, twice from the same seed.
fn reproducible<T: View>((seed, size, n): &(u64, usize, usize), obs: &mut Obs) -> Res {
    let (mut g, mut h) = (Gen::from_size_and_seed(*size, *seed), Gen::from_size_and_seed(*size, *seed));
    for i in 0..*n {
        let (a, b) = (draw::<T>(&mut g)?, draw::<T>(&mut h)?);
        let va = a.view();
        obs.nontrivial(!va.els.is_empty());
        ensure_eq!(va, b.view(), "value {i} from the same seed");
        ensure_eq!(a.view(), va, "the same value again");
        ensure_eq!(a.clone().view(), va, "its clone");
    }
    ensure_eq!(u64::arbitrary(&mut g), u64::arbitrary(&mut h), "the randomness left");
    Ok(())
}
/// Every shape turns up among many values, and the values differ.
fn varied<T: View>((seed, size): &(u64, usize), obs: &mut Obs) -> Res {
    let mut g = Gen::from_size_and_seed(*size, *seed);
    let mut shapes: Vec<&str> = T::shapes();
    let mut seen = BTreeSet::new();
    for _ in 0..600 {
        let h = draw::<T>(&mut g)?.view();
        // a prefix that ends in a bracket or is empty stands for the whole shape
        shapes.retain(|s| if s.is_empty() { !h.shape.is_empty() } else { !h.shape.starts_with(s) });
        seen.insert(h.els.clone());
    }
    obs.nontrivial(true);
    ensure!(shapes.is_empty(), "600 values, and none of the shape {shapes:?}");
    ensure!(seen.len() > 60, "600 values, of which only {} are different", seen.len());
    Ok(())
}
/// No structure is larger than the size asked for.
fn sized<T: View>((seed, size): &(u64, usize), per: usize, obs: &mut Obs) -> Res {
    let mut g = Gen::from_size_and_seed(*size, *seed);
    let mut longest = 0;
    for _ in 0..40 {
        longest = longest.max(draw::<T>(&mut g)?.view().els.len());
    }
    obs.nontrivial(longest > 1);
    ensure!(longest <= size + per, "{longest} elements where at most {size} were asked for");
    Ok(())
}
/// Candidates are smaller, and made of what is smaller than the elements.
fn shrinks<T: View>((seed, size, choices): &(u64, usize, Vec<u8>), obs: &mut Obs) -> Res {
    let mut v = draw::<T>(&mut Gen::from_size_and_seed(*size, *seed))?;
    for k in choices {
        let h = v.view();
        let mut smaller = vec![];
        for (i, c) in v.shrink().enumerate() {
            ensure!(i < 100_000, "candidates for {h:?} do not end");
            let ch = c.view();
            ensure!(ch.size() < h.size(), "candidate {ch:?} is not smaller than {h:?}");
            smaller.push(c);
        }
        if smaller.is_empty() {
            break;
        }
        obs.nontrivial(true);
        v = smaller.swap_remove(*k as usize % smaller.len());
    }
    Ok(())
}
/// The smallest value that fails a test is found.
fn minimal<T: View>(mut v: T, fails: impl Fn(&T) -> bool) -> Option<T> {
    if !fails(&v) {
        return None;
    }
    for _ in 0..100_000 {
        match v.shrink().find(|c| fails(c)) {
            Some(c) => v = c,
            None => return Some(v),
        }
    }
    None
}
fn seeds() -> impl Strategy<Value = (u64, usize)> + Clone {
    (any::<u64>(), prop_oneof![1 => 1usize..4, 4 => 4usize..40, 1 => 40usize..200])
}

macro_rules! kinds {
    ($s:ident, $($name:literal $T:ty),*) => {$(
        $s.check(concat!("reproducible/", $name), "a value holds elements", 4_000, || (any::<u64>(), 1usize..60, 1usize..6), reproducible::<$T>);
        $s.check(concat!("shrinks/", $name), "a value has a smaller candidate", 2_000, || (any::<u64>(), 1usize..20, proptest::collection::vec(any::<u8>(), 1..12)), shrinks::<$T>);
        $s.check(concat!("varied/", $name), "every case", 150, || (any::<u64>(), 8usize..16), varied::<$T>);
        $s.check(concat!("sized/", $name), "a value holds more than one element", 500, seeds, |i, obs| sized::<$T>(i, 2, obs));
    )*};
}

fn main() {
    let mut s = Suite::new("C40");
    s.assume("the element type's own generator and shrinker are lawful; a size of at least one");
    kinds!(
        s,
        "Id" Id<El>,
        "Maybe" Maybe<El>,
        "Either" Either<El, El>,
        "Validated" Validated<El, El>,
        "Choice" Choice<El>,
        "Writer" Writer<Vec<El>, El>,
        "State" State<El, El>,
        "Reader" Reader<El, El>,
        "Cont" Cont<Vec<El>, El>,
        "IO" IO<El>,
        "AsyncM" AsyncM<El>,
        "Maybe of Maybe" Maybe<Maybe<El>>,
        "Either of Choice and Maybe" Either<Choice<El>, Maybe<El>>
    );
    s.check(
        "minimal/Maybe",
        "the value fails the test",
        10_000,
        || (any::<u64>(), 0u64..400_000),
        |(seed, least), obs| {
            let v: Maybe<El> = draw(&mut Gen::from_size_and_seed(10, *seed))?;
            let just = matches!(&v, Maybe::Just(a) if a.0 >= *least);
            obs.nontrivial(just);
            ensure_eq!(minimal(v.clone(), |_| true), Some(Maybe::Nothing), "the smallest value at all");
            let want = just.then_some(Maybe::Just(El(*least)));
            ensure_eq!(minimal(v.clone(), |v| matches!(v, Maybe::Just(a) if a.0 >= *least)), want, "the smallest value of at least {least}");
            let w = Maybe::Just(v.clone());
            let inner = minimal(w, |w| matches!(w, Maybe::Just(Maybe::Just(a)) if a.0 >= *least));
            ensure_eq!(inner, just.then_some(Maybe::Just(Maybe::Just(El(*least)))), "the smallest value of at least {least}, one level deeper");
            ensure_eq!(minimal(Maybe::Just(v), |w| matches!(w, Maybe::Just(_))), Some(Maybe::Just(Maybe::Nothing)), "the smallest value that is not Nothing");
            Ok(())
        },
    );
    s.main()
}
