//! Symbolic values and defunctionalised functions: values are strings read as terms of a free
//! algebra, so `f1(f0(a))` records exactly which functions ran, in which order, on what.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub type S = String;

pub fn h(x: &str, salt: u8) -> u64 {
    let mut v: u64 = 0xcbf29ce484222325 ^ (salt as u64).wrapping_mul(0x9E3779B97F4A7C15);
    for b in x.bytes() {
        v ^= b as u64;
        v = v.wrapping_mul(0x100000001b3);
    }
    v ^ (v >> 31)
}

/// Unary function.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fun {
    Id,
    Const(S),
    /// x -> f{i}(x)
    Tag(u8),
    /// prefix (used for values that should stay short)
    Pre(S),
}
impl Fun {
    pub fn ap(&self, x: &S) -> S {
        match self {
            Fun::Id => x.clone(),
            Fun::Const(c) => c.clone(),
            Fun::Tag(i) => format!("f{i}({x})"),
            Fun::Pre(p) => format!("{p}{x}"),
        }
    }
    pub fn is_id(&self) -> bool {
        matches!(self, Fun::Id)
    }
}

/// Binary function.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fun2 {
    Left,
    Right,
    Const(S),
    Tag(u8),
    Cat,
}
impl Fun2 {
    pub fn ap(&self, a: &S, b: &S) -> S {
        match self {
            Fun2::Left => a.clone(),
            Fun2::Right => b.clone(),
            Fun2::Const(c) => c.clone(),
            Fun2::Tag(i) => format!("g{i}({a},{b})"),
            Fun2::Cat => format!("{a}{b}"),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fun3 {
    First,
    Last,
    Tag(u8),
}
impl Fun3 {
    pub fn ap(&self, a: &S, b: &S, c: &S) -> S {
        match self {
            Fun3::First => a.clone(),
            Fun3::Last => c.clone(),
            Fun3::Tag(i) => format!("h{i}({a},{b},{c})"),
        }
    }
}

/// Predicate.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pred {
    Yes,
    No,
    Hash(u8),
    Is(S),
    IsNot(S),
}
impl Pred {
    pub fn ok(&self, x: &str) -> bool {
        match self {
            Pred::Yes => true,
            Pred::No => false,
            Pred::Hash(s) => h(x, *s) & 1 == 0,
            Pred::Is(v) => x == v,
            Pred::IsNot(v) => x != v,
        }
    }
}

/// One outcome of a Kleisli function: success or failure, and the functions producing its values.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Out {
    pub ok: bool,
    pub funs: Vec<Fun>,
}
/// Kleisli function: picks an outcome by hashing its argument.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Kl {
    pub salt: u8,
    pub outs: Vec<Out>,
}
impl Kl {
    pub fn pick(&self, x: &S) -> &Out {
        &self.outs[(h(x, self.salt) % self.outs.len() as u64) as usize]
    }
    /// Success flag and the produced values.
    pub fn run(&self, x: &S) -> (bool, Vec<S>) {
        let o = self.pick(x);
        (o.ok, o.funs.iter().map(|f| f.ap(x)).collect())
    }
}

pub fn val() -> BoxedStrategy<S> {
    prop_oneof![
        48 => prop::sample::select(vec!["a", "b", "c", "d", "e"]).prop_map(|s| s.to_string()),
        4 => Just(String::new()),
        8 => "[a-z]{2,6}",
        4 => prop::sample::select(vec!["é", "日本", "\u{0}", "\n", "Nothing", "\"q\"", "0"]).prop_map(|s| s.to_string()),
        4 => "\\PC{0,24}",
        1 => (val_char(), 30usize..600).prop_map(|(c, n)| c.repeat(n)),
    ]
    .boxed()
}
fn val_char() -> BoxedStrategy<&'static str> {
    prop::sample::select(vec!["a", "ab", "é", "日", "x y "]).boxed()
}
pub fn fun() -> BoxedStrategy<Fun> {
    prop_oneof![
        1 => Just(Fun::Id),
        1 => val().prop_map(Fun::Const),
        6 => (0u8..6).prop_map(Fun::Tag),
        1 => val().prop_map(Fun::Pre),
    ]
    .boxed()
}
pub fn fun2() -> BoxedStrategy<Fun2> {
    prop_oneof![
        1 => Just(Fun2::Left),
        1 => Just(Fun2::Right),
        1 => val().prop_map(Fun2::Const),
        6 => (0u8..6).prop_map(Fun2::Tag),
        1 => Just(Fun2::Cat),
    ]
    .boxed()
}
pub fn fun3() -> BoxedStrategy<Fun3> {
    prop_oneof![
        1 => Just(Fun3::First),
        1 => Just(Fun3::Last),
        6 => (0u8..6).prop_map(Fun3::Tag),
    ]
    .boxed()
}
pub fn pred() -> BoxedStrategy<Pred> {
    prop_oneof![
        1 => Just(Pred::Yes),
        1 => Just(Pred::No),
        6 => any::<u8>().prop_map(Pred::Hash),
        1 => val().prop_map(Pred::Is),
        1 => val().prop_map(Pred::IsNot),
    ]
    .boxed()
}
pub fn out() -> BoxedStrategy<Out> {
    (prop::bool::weighted(0.65), prop::collection::vec(fun(), 0..5))
        .prop_map(|(ok, funs)| Out { ok, funs })
        .boxed()
}
pub fn kl() -> BoxedStrategy<Kl> {
    (any::<u8>(), prop::collection::vec(out(), 1..5)).prop_map(|(salt, outs)| Kl { salt, outs }).boxed()
}
/// List lengths around the inline capacities used by the library (4, 8) plus empties.
pub fn vals(max: usize) -> BoxedStrategy<Vec<S>> {
    prop_oneof![
        1 => Just(vec![]),
        2 => prop::collection::vec(val(), 1..=1),
        6 => prop::collection::vec(val(), 0..=5.min(max)),
        3 => prop::collection::vec(val(), 0..=max),
        1 => prop::collection::vec(val(), 0..=7 * max),
    ]
    .boxed()
}
/// Small integers, extremes, and everything between.
pub fn int() -> BoxedStrategy<i64> {
    prop_oneof![
        8 => -3i64..4,
        2 => -1000i64..1000,
        1 => prop::sample::select(vec![i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1, i32::MAX as i64, i32::MIN as i64]),
        1 => any::<i64>(),
    ]
    .boxed()
}

/// Mostly short lists, now and then long ones.
pub fn list<T: Strategy + Clone + 'static>(x: T, short: usize, long: usize) -> BoxedStrategy<Vec<T::Value>> {
    prop_oneof![
        16 => prop::collection::vec(x.clone(), 0..short),
        2 => prop::collection::vec(x.clone(), 0..long),
        1 => prop::collection::vec(x, 0..5 * long),
    ]
    .boxed()
}

/// Equality, order and hash see only the key: which of two equal values was kept is told by the tag.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Keyed {
    pub key: u8,
    pub tag: S,
}
impl PartialEq for Keyed {
    fn eq(&self, o: &Self) -> bool {
        self.key == o.key
    }
}
impl Eq for Keyed {}
impl PartialOrd for Keyed {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Keyed {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.key.cmp(&o.key)
    }
}
impl std::hash::Hash for Keyed {
    fn hash<H: std::hash::Hasher>(&self, s: &mut H) {
        self.key.hash(s)
    }
}
pub fn keyed() -> BoxedStrategy<Keyed> {
    (prop_oneof![6 => 0u8..4, 1 => any::<u8>()], val()).prop_map(|(key, tag)| Keyed { key, tag }).boxed()
}
impl Keyed {
    /// What equality does not see as well.
    pub fn full(&self) -> (u8, S) {
        (self.key, self.tag.clone())
    }
}
