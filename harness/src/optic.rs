//! Defunctionalised invertible functions on strings, and isomorphisms built from closures.
use crate::sym::*;
use proptest::prelude::*;
use rustica::traits::iso::Iso;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

/// An invertible function on strings (`Bad*` are the exceptions, used only where asked for).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Inv {
    Id,
    Rev,
    /// rotate the characters left
    Rot(u8),
    /// exchange two letters everywhere
    Swap(char, char),
    /// shift lower case letters cyclically
    Caesar(u8),
    /// not injective
    BadConst(S),
    /// backward does not undo forward, but forward undoes backward only on some values
    BadUpper,
}
pub fn caesar(x: &str, k: u8) -> S {
    x.chars().map(|c| if c.is_ascii_lowercase() { (b'a' + (c as u8 - b'a' + k % 26) % 26) as char } else { c }).collect()
}
impl Inv {
    pub fn lawful(&self) -> bool {
        !matches!(self, Inv::BadConst(_) | Inv::BadUpper)
    }
    pub fn fwd(&self, x: &S) -> S {
        match self {
            Inv::Id => x.clone(),
            Inv::Rev => x.chars().rev().collect(),
            Inv::Rot(k) => {
                let mut v: Vec<char> = x.chars().collect();
                if !v.is_empty() {
                    let n = v.len();
                    v.rotate_left(*k as usize % n);
                }
                v.into_iter().collect()
            }
            Inv::Swap(a, b) => x.chars().map(|c| if c == *a { *b } else if c == *b { *a } else { c }).collect(),
            Inv::Caesar(k) => caesar(x, *k),
            Inv::BadConst(s) => s.clone(),
            Inv::BadUpper => x.to_ascii_uppercase(),
        }
    }
    pub fn bwd(&self, x: &S) -> S {
        match self {
            Inv::Rot(k) => {
                let mut v: Vec<char> = x.chars().collect();
                if !v.is_empty() {
                    let n = v.len();
                    v.rotate_right(*k as usize % n);
                }
                v.into_iter().collect()
            }
            Inv::Caesar(k) => caesar(x, 26 - k % 26),
            Inv::BadUpper => x.clone(),
            o => o.fwd(x),
        }
    }
}
pub fn inv() -> BoxedStrategy<Inv> {
    prop_oneof![
        1 => Just(Inv::Id),
        3 => Just(Inv::Rev),
        3 => (1u8..5).prop_map(Inv::Rot),
        3 => (prop::sample::select(vec!['a', 'b', 'c']), prop::sample::select(vec!['d', 'e', 'a'])).prop_map(|(a, b)| Inv::Swap(a, b)),
        3 => (1u8..26).prop_map(Inv::Caesar),
    ]
    .boxed()
}
pub fn bad_inv() -> BoxedStrategy<Inv> {
    prop_oneof![1 => val().prop_map(Inv::BadConst), 1 => Just(Inv::BadUpper)].boxed()
}
/// Strings on which the invertible functions differ.
pub fn word() -> BoxedStrategy<S> {
    prop_oneof![6 => "[a-f]{1,6}", 2 => val(), 1 => "[a-fA-C]{1,5}"].boxed()
}

/// An isomorphism from two closures.
pub struct FnIso<A, B> {
    pub f: Rc<dyn Fn(&A) -> B>,
    pub b: Rc<dyn Fn(&B) -> A>,
}
impl<A, B> Clone for FnIso<A, B> {
    fn clone(&self) -> Self {
        FnIso { f: self.f.clone(), b: self.b.clone() }
    }
}
impl<A, B> FnIso<A, B> {
    pub fn new(f: impl Fn(&A) -> B + 'static, b: impl Fn(&B) -> A + 'static) -> Self {
        FnIso { f: Rc::new(f), b: Rc::new(b) }
    }
}
impl<A, B> Iso<A, B> for FnIso<A, B> {
    type From = A;
    type To = B;
    fn forward(&self, a: &A) -> B {
        (self.f)(a)
    }
    fn backward(&self, b: &B) -> A {
        (self.b)(b)
    }
}
/// Hide the type of an isomorphism, so that chains of any shape can be built.
pub fn erase<A: 'static, B: 'static, I: Iso<A, B, From = A, To = B> + 'static>(i: I) -> FnIso<A, B> {
    let i = Rc::new(i);
    let j = i.clone();
    FnIso { f: Rc::new(move |a| i.forward(a)), b: Rc::new(move |b| j.backward(b)) }
}
