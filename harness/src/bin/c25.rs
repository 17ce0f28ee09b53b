//! C25: serialization round-trips.
use proptest::collection::vec;
use proptest::prelude::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::first::First;
use rustica::datatypes::wrapper::last::Last;
use rustica::datatypes::wrapper::max::Max;
use rustica::datatypes::wrapper::min::Min;
use rustica::datatypes::wrapper::product::Product;
use rustica::datatypes::wrapper::sum::Sum;
use rustica::datatypes::writer::Writer;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;
use vharness::runner::*;
use vharness::{ensure, ensure_eq};

/// Choices for building a value: a byte string read front to back, zeros afterwards.
struct Src<'a> {
    b: &'a [u8],
    at: usize,
    depth: usize,
    most: usize,
}
impl Src<'_> {
    fn next(&mut self) -> u8 {
        let x = self.b.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        x
    }
    /// A length: mostly short, sometimes around and beyond the inline capacity of eight.
    fn len(&mut self) -> usize {
        let x = self.next() as usize;
        let n = if x < 160 { x % 5 } else { x % 21 };
        let n = if self.depth > 2 { n.min(3) } else { n };
        self.most = self.most.max(n);
        n
    }
}

trait G: Sized {
    /// Self-describing formats write some values of this type as their null.
    const NULL: bool = false;
    /// Self-describing formats cannot tell all values of this type apart (an option of a nullable).
    const LOSSY: bool = false;
    fn gen(s: &mut Src) -> Self;
}
impl G for () {
    const NULL: bool = true;
    fn gen(_: &mut Src) {}
}
impl G for bool {
    fn gen(s: &mut Src) -> bool {
        s.next() & 1 == 1
    }
}
impl G for i64 {
    fn gen(s: &mut Src) -> i64 {
        let x = s.next();
        match x {
            0..=199 => x as i64 - 100,
            200..=219 => i64::MIN + (x as i64 - 200),
            220..=239 => i64::MAX - (x as i64 - 220),
            _ => i64::from_le_bytes(std::array::from_fn(|_| s.next())),
        }
    }
}
impl G for u8 {
    fn gen(s: &mut Src) -> u8 {
        s.next()
    }
}
impl G for u64 {
    fn gen(s: &mut Src) -> u64 {
        i64::gen(s) as u64
    }
}
impl G for i32 {
    fn gen(s: &mut Src) -> i32 {
        i64::gen(s) as i32
    }
}
impl G for f64 {
    fn gen(s: &mut Src) -> f64 {
        (i64::gen(s) % 1_000_000) as f64 / 64.0
    }
}
impl G for char {
    fn gen(s: &mut Src) -> char {
        let x = s.next();
        match x {
            0..=199 => (b'a' + x % 26) as char,
            200..=210 => '\u{0}',
            211..=225 => '"',
            226..=240 => '\u{1F600}',
            _ => char::from_u32(s.next() as u32 * 251).unwrap_or('\u{FFFD}'),
        }
    }
}
impl G for String {
    fn gen(s: &mut Src) -> String {
        let n = s.len();
        (0..n).map(|_| char::gen(s)).collect()
    }
}
impl<T: G> G for Vec<T> {
    const LOSSY: bool = T::LOSSY;
    fn gen(s: &mut Src) -> Self {
        let n = s.len();
        s.depth += 1;
        let v = (0..n).map(|_| T::gen(s)).collect();
        s.depth -= 1;
        v
    }
}
impl<T: G> G for Option<T> {
    const NULL: bool = true;
    const LOSSY: bool = T::NULL || T::LOSSY;
    fn gen(s: &mut Src) -> Self {
        (s.next() % 4 != 0).then(|| T::gen(s))
    }
}
impl<T: G> G for Box<T> {
    const NULL: bool = T::NULL;
    const LOSSY: bool = T::LOSSY;
    fn gen(s: &mut Src) -> Self {
        Box::new(T::gen(s))
    }
}
impl<T: G> G for Rc<T> {
    const NULL: bool = T::NULL;
    const LOSSY: bool = T::LOSSY;
    fn gen(s: &mut Src) -> Self {
        Rc::new(T::gen(s))
    }
}
impl<T: G> G for BTreeMap<String, T> {
    const LOSSY: bool = T::LOSSY;
    fn gen(s: &mut Src) -> Self {
        Vec::<(String, T)>::gen(s).into_iter().collect()
    }
}
impl<A: G, B: G> G for (A, B) {
    const LOSSY: bool = A::LOSSY || B::LOSSY;
    fn gen(s: &mut Src) -> Self {
        (A::gen(s), B::gen(s))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Rec<A, B> {
    left: A,
    right: B,
    more: Vec<B>,
}
impl<A: G, B: G> G for Rec<A, B> {
    const LOSSY: bool = A::LOSSY || B::LOSSY;
    fn gen(s: &mut Src) -> Self {
        Rec { left: A::gen(s), right: B::gen(s), more: Vec::gen(s) }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Shape<A> {
    Unit,
    One(A),
    Two(A, i64),
    Named { a: A, b: bool },
}
impl<A: G> G for Shape<A> {
    const LOSSY: bool = A::LOSSY;
    fn gen(s: &mut Src) -> Self {
        match s.next() % 4 {
            0 => Shape::Unit,
            1 => Shape::One(A::gen(s)),
            2 => Shape::Two(A::gen(s), i64::gen(s)),
            _ => Shape::Named { a: A::gen(s), b: bool::gen(s) },
        }
    }
}
// the library's types
impl<T: G> G for Maybe<T> {
    const LOSSY: bool = T::LOSSY;
    fn gen(s: &mut Src) -> Self {
        if s.next() % 4 != 0 { Maybe::Just(T::gen(s)) } else { Maybe::Nothing }
    }
}
impl<A: G, B: G> G for Either<A, B> {
    const LOSSY: bool = A::LOSSY || B::LOSSY;
    fn gen(s: &mut Src) -> Self {
        if s.next() % 2 == 0 { Either::Left(A::gen(s)) } else { Either::Right(B::gen(s)) }
    }
}
impl<A: G, B: G> G for Validated<A, B> {
    const LOSSY: bool = A::LOSSY || B::LOSSY;
    fn gen(s: &mut Src) -> Self {
        if s.next() % 2 == 0 { Validated::Invalid(Vec::gen(s).into_iter().collect()) } else { Validated::Valid(B::gen(s)) }
    }
}
impl<T: G> G for Choice<T> {
    const LOSSY: bool = T::LOSSY;
    fn gen(s: &mut Src) -> Self {
        let v = Vec::gen(s);
        let mut it = v.into_iter();
        match it.next() {
            None => Choice::new_empty(),
            Some(x) => Choice::new(x, it.collect::<Vec<T>>()),
        }
    }
}
impl<T: G> G for Id<T> {
    // may or may not be written transparently
    const NULL: bool = T::NULL;
    const LOSSY: bool = T::LOSSY;
    fn gen(s: &mut Src) -> Self {
        Id::new(T::gen(s))
    }
}
impl<W: G + rustica::traits::monoid::Monoid + Clone, A: G> G for Writer<W, A> {
    const LOSSY: bool = W::LOSSY || A::LOSSY;
    fn gen(s: &mut Src) -> Self {
        Writer::new(W::gen(s), A::gen(s))
    }
}
impl<T: G> G for First<T> {
    const NULL: bool = true;
    const LOSSY: bool = T::NULL || T::LOSSY;
    fn gen(s: &mut Src) -> Self {
        First(G::gen(s))
    }
}
impl<T: G> G for Last<T> {
    const NULL: bool = true;
    const LOSSY: bool = T::NULL || T::LOSSY;
    fn gen(s: &mut Src) -> Self {
        Last(G::gen(s))
    }
}
macro_rules! newtype {
    ($($w:ident),*) => {$(
        impl<T: G> G for $w<T> {
            const NULL: bool = T::NULL;
            const LOSSY: bool = T::LOSSY;
            fn gen(s: &mut Src) -> Self {
                $w(T::gen(s))
            }
        }
    )*};
}
newtype!(Min, Max, Sum, Product);

struct Info {
    most: usize,
    text: String,
    self_describing: bool,
    parsed: bool,
}

fn round<T: G + Serialize + DeserializeOwned + PartialEq + Debug>(name: &str, seed: &[u8], muts: &[(u16, u8)]) -> Result<Info, Fail> {
    let mut src = Src { b: seed, at: 0, depth: 0, most: 0 };
    let x = T::gen(&mut src);
    let show = format!("{x:?}");
    macro_rules! back {
        ($how:literal, $ser:expr, |$b:ident| $de:expr) => {{
            let $b = $ser.map_err(|e| Fail::with_sig(concat!("ser ", $how), format!("{} cannot write {show} of type {name}: {e}", $how)))?;
            let y: T = $de.map_err(|e| Fail::with_sig(concat!("de ", $how), format!("{} cannot read back {show} of type {name} from {:?}: {e}", $how, $b)))?;
            ensure!(x == y, "{} of type {name}: {show} came back as {y:?}", $how);
            ensure_eq!(format!("{y:?}"), show, "{} of type {name}", $how);
            y
        }};
    }
    let y = back!("bincode", bincode::serialize(&x), |b| bincode::deserialize(&b));
    ensure_eq!(bincode::serialize(&y).ok(), bincode::serialize(&x).ok(), "writing {name} again with bincode");
    ensure_eq!(bincode::serialized_size(&x).ok().map(|n| n as usize), bincode::serialize(&x).ok().map(|b| b.len()), "size of {name}");
    let mut info = Info { most: src.most, text: show.clone(), self_describing: !T::LOSSY, parsed: false };
    if T::LOSSY {
        return Ok(info);
    }
    let y = back!("json text", serde_json::to_string(&x), |b| serde_json::from_str(&b));
    ensure_eq!(serde_json::to_string(&y).ok(), serde_json::to_string(&x).ok(), "writing {name} again as json");
    back!("pretty json", serde_json::to_vec_pretty(&x), |b| serde_json::from_reader(&b[..]));
    back!("json value", serde_json::to_value(&x), |b| serde_json::from_value(b.clone()));
    let cbor = |x: &T| {
        let mut v = vec![];
        ciborium::into_writer(x, &mut v).map(|_| v)
    };
    back!("cbor", cbor(&x), |b| ciborium::from_reader(&b[..]));
    // whatever can be read from damaged text is a value, so it must round-trip too
    if !muts.is_empty() {
        let mut b = serde_json::to_vec(&x).unwrap();
        for (at, c) in muts {
            if b.is_empty() {
                break;
            }
            let i = *at as usize * b.len() / 65536;
            match c % 4 {
                0 => b[i] = c / 4 + 32,
                1 => {
                    b.remove(i);
                }
                2 => b.insert(i, b"0123456789[]{},\":"[(c / 4) as usize % 17]),
                _ => {
                    let z = b[i];
                    b.insert(i, z);
                }
            }
        }
        let text = String::from_utf8_lossy(&b).to_string();
        let r = no_panic(|| serde_json::from_str::<T>(&text)).map_err(|p| Fail::with_sig("panic", format!("reading {text} as {name}: {p}")))?;
        if let Ok(z) = r {
            info.parsed = true;
            let t2 = serde_json::to_string(&z).map_err(|e| Fail::with_sig("text", format!("{name}: read {z:?} from {text} but cannot write it: {e}")))?;
            let w: T = serde_json::from_str(&t2).map_err(|e| Fail::with_sig("text", format!("{name}: wrote {t2} for {z:?} but cannot read it: {e}")))?;
            ensure!(w == z, "{name}: {z:?}, read from {text}, came back as {w:?}");
        }
    }
    Ok(info)
}

type Row = (&'static str, fn(&str, &[u8], &[(u16, u8)]) -> Result<Info, Fail>);
macro_rules! types {
    ($($t:ty),* $(,)?) => { &[$((stringify!($t), round::<$t>)),*] };
}
type S = String;
const FLAT: &[Row] = types![
    Maybe<i64>, Maybe<S>, Maybe<()>, Maybe<bool>, Maybe<f64>, Maybe<char>, Maybe<Vec<i64>>, Maybe<Shape<i64>>, Maybe<Rec<i64, S>>,
    Maybe<Option<i64>>, Maybe<Box<i64>>, Maybe<(S, u64)>,
    Either<i64, S>, Either<S, S>, Either<i64, i64>, Either<(), bool>, Either<Shape<S>, Vec<S>>, Either<Option<i64>, Option<S>>,
    Validated<S, i64>, Validated<i64, S>, Validated<(), ()>, Validated<S, Vec<S>>, Validated<Shape<i64>, Rec<S, S>>, Validated<Option<i64>, i64>,
    Choice<i64>, Choice<S>, Choice<()>, Choice<Shape<i64>>, Choice<(S, i64)>, Choice<Vec<u8>>, Choice<Option<u8>>,
    Id<i64>, Id<S>, Id<()>, Id<Vec<S>>, Id<Shape<S>>, Id<Rec<i64, S>>, Id<Option<i64>>,
    Writer<Vec<S>, i64>, Writer<S, S>, Writer<Vec<i64>, ()>, Writer<Sum<i64>, S>, Writer<S, Option<i64>>,
    First<i64>, First<S>, First<Vec<S>>, First<Shape<i64>>, Last<i64>, Last<S>, Last<(S, i64)>, First<Option<i64>>, Last<()>,
    Min<i64>, Min<S>, Max<i64>, Max<S>, Sum<i64>, Sum<S>, Sum<f64>, Product<i64>, Product<f64>, Min<Vec<i64>>, Max<(i64, S)>, Min<Option<i64>>,
];
const NESTED: &[Row] = types![
    Maybe<Maybe<i64>>, Maybe<Maybe<Maybe<()>>>, Either<Maybe<S>, Either<i64, S>>, Validated<Either<S, i64>, Maybe<S>>, Choice<Maybe<i64>>, Choice<Choice<i64>>,
    Choice<Validated<S, Choice<i64>>>, Id<Id<i64>>, Id<Maybe<Id<S>>>, Writer<Vec<Maybe<S>>, Either<S, i64>>, Writer<Vec<S>, Writer<Vec<S>, i64>>,
    First<Maybe<i64>>, First<Choice<S>>, Last<Validated<S, i64>>, First<First<i64>>, Last<First<S>>, First<Last<Option<i64>>>, Maybe<First<i64>>, Either<First<S>, Last<S>>,
    Min<Maybe<i64>>, Max<Either<i64, S>>, Sum<Maybe<i64>>, Product<Id<i64>>, Sum<Sum<i64>>, Min<Max<S>>,
    Validated<Validated<S, i64>, Validated<i64, S>>, Validated<Choice<S>, Choice<i64>>, Validated<(S, Maybe<i64>), ()>,
    Vec<Maybe<S>>, Vec<Either<i64, Choice<S>>>, Vec<Validated<S, i64>>, Vec<First<i64>>, Option<Maybe<i64>>, Option<Either<S, i64>>, Option<Choice<i64>>,
    BTreeMap<S, Maybe<i64>>, BTreeMap<S, Choice<Either<i64, S>>>, Rec<Maybe<i64>, Validated<S, i64>>, Rec<Choice<i64>, First<S>>, Shape<Maybe<S>>, Shape<Choice<Id<i64>>>,
    Maybe<Shape<Either<S, Maybe<i64>>>>, Choice<Rec<Min<i64>, Max<i64>>>, Id<BTreeMap<S, Validated<S, Maybe<i64>>>>, Box<Maybe<i64>>, Rc<Choice<S>>, Maybe<Rc<S>>, Either<Box<S>, Rc<Choice<i64>>>,
    Writer<Choice<S>, Maybe<Either<S, i64>>>, Writer<Sum<i64>, Writer<Product<i64>, Choice<Maybe<S>>>>, (Maybe<i64>, Either<S, Choice<i64>>),
    Validated<Writer<Vec<S>, Id<i64>>, Choice<First<Maybe<i64>>>>, Either<Either<Either<i64, S>, S>, Choice<Choice<Choice<u8>>>>,
];

fn main() {
    let mut s = Suite::new("C25");
    s.assume("an option directly inside an option is written ambiguously by JSON and CBOR themselves; such types are checked with the binary format only");
    s.assume("floating-point values are finite with few digits, which all formats keep exactly");
    for (name, table, rule, n) in [
        ("flat", FLAT, "the value is written with more than ten characters", 400_000),
        ("nested", NESTED, "the value is written with more than ten characters", 400_000),
    ] {
        s.check(
            name,
            rule,
            n,
            move || (0..table.len(), vec(any::<u8>(), 0..80), vec((any::<u16>(), any::<u8>()), 0..4)),
            move |(t, seed, muts), obs| {
                let (name, f) = table[t % table.len()];
                let info = f(name, seed, muts)?;
                obs.nontrivial(info.text.len() > 10);
                obs.tag_if(info.most > 8, "more elements than the inline capacity");
                obs.tag_if(info.self_describing, "all formats");
                obs.tag_if(info.parsed, "damaged text that still reads");
                Ok(())
            },
        );
    }
    s.main()
}
