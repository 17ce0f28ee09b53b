//! Element types of every shape behind one interface: a value of any of them is a small code.
//! `Ref<N>` is the plain reference type; a type that can hold fewer codes than 256 says so by its
//! mask, and the reference type is told which mask to apply.
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;
use std::fmt::Debug;
use std::hash::Hash;

/// A value that can be made from a code and shows it. Combining keeps the first code that is not
/// zero, so combining is associative and does not commute.
pub trait El: Clone + Debug + PartialEq + Eq + PartialOrd + Ord + Hash + Default + Send + Sync + Unpin + 'static + Monoid {
    fn mask() -> u8;
    fn of(c: u8) -> Self;
    fn code(&self) -> u8;
    /// A value that depends on the one here and on the salt.
    fn to<B: El>(&self, k: u8) -> B {
        B::of(mix(self.code(), k))
    }
    fn with<B: El, C: El>(&self, b: &B, k: u8) -> C {
        C::of(mix(mix(self.code(), k), b.code()))
    }
    fn holds(&self, k: u8) -> bool {
        mix(self.code(), k) % 3 != 0
    }
}
pub fn mix(a: u8, k: u8) -> u8 {
    a.wrapping_mul(31).rotate_left(3).wrapping_add(k) ^ k.wrapping_mul(5)
}

macro_rules! el {
    ($(#[$m:meta])* $t:ident $(<$(const $p:ident: u8),*>)?, $mask:expr, |$c:ident| $of:expr, |$s:ident| $code:expr) => {
        impl $(<$(const $p: u8),*>)? Debug for $t $(<$($p),*>)? {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "#{}", self.code())
            }
        }
        impl $(<$(const $p: u8),*>)? Semigroup for $t $(<$($p),*>)? {
            fn combine(&self, o: &Self) -> Self {
                if self.code() != 0 { self.clone() } else { o.clone() }
            }
            fn combine_owned(self, o: Self) -> Self {
                if self.code() != 0 { self } else { o }
            }
        }
        impl $(<$(const $p: u8),*>)? Monoid for $t $(<$($p),*>)? {
            fn empty() -> Self {
                Self::of(0)
            }
        }
        impl $(<$(const $p: u8),*>)? Default for $t $(<$($p),*>)? {
            fn default() -> Self {
                Self::of(0)
            }
        }
        impl $(<$(const $p: u8),*>)? El for $t $(<$($p),*>)? {
            fn mask() -> u8 {
                $mask
            }
            fn of($c: u8) -> Self {
                let $c = $c & Self::mask();
                $of
            }
            fn code(&self) -> u8 {
                let $s = self;
                $code
            }
        }
    };
}
thread_local! { static MASKS: std::cell::Cell<[u8; 3]> = const { std::cell::Cell::new([255; 3]) }; }
/// What the reference types can hold, on this thread, and whether the reference log keeps messages.
pub fn reference(masks: [u8; 3]) {
    MASKS.set(masks);
}
/// The reference: a heap-allocated text.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Ref<const N: u8>(String);
el!(Ref<const N: u8>, MASKS.get()[N as usize], |c| Ref(format!("{c:03}")), |s| s.0.parse().unwrap());

/// Zero-sized and plain.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Unit;
el!(Unit, 0, |_c| Unit, |_s| 0);
/// Zero-sized, with something to do when dropped.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Token;
impl Drop for Token {
    fn drop(&mut self) {
        std::hint::black_box(());
    }
}
el!(Token, 0, |_c| Token, |_s| 0);
/// One byte with room for niches.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Flag(bool);
el!(Flag, 1, |c| Flag(c == 1), |s| s.0 as u8);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Byte(u8);
el!(Byte, 255, |c| Byte(c), |s| s.0);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Word(u64);
el!(Word, 255, |c| Word(c as u64), |s| s.0 as u8);
/// Large and plain.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Big([u64; 40]);
el!(Big, 255, |c| Big([c as u64; 40]), |s| if s.0[0] == s.0[39] { s.0[20] as u8 } else { panic!("torn value") });
/// Stricter alignment than an allocator gives by itself.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(64))]
pub struct Wide(u8);
el!(Wide, 255, |c| Wide(c), |s| s.0);
/// Owns an allocation.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Boxed(Box<u8>);
el!(Boxed, 255, |c| Boxed(Box::new(c)), |s| *s.0);
/// Shares an allocation.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Shared(std::sync::Arc<(u8, String)>);
el!(Shared, 255, |c| Shared(std::sync::Arc::new((c, String::new()))), |s| s.0.0);

/// A log: the messages in order, unless the type has no room for them.
pub trait Log: Clone + Debug + PartialEq + Monoid + Send + Sync + 'static {
    fn keeps() -> bool;
    fn msg(c: u8) -> Self;
    fn seen(&self) -> Vec<u8>;
}
macro_rules! log {
    ($t:ident, $keeps:expr, $empty:expr, |$c:ident| $msg:expr, |$a:ident, $b:ident| $comb:expr, |$s:ident| $seen:expr) => {
        impl Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{:?}", self.seen())
            }
        }
        impl Semigroup for $t {
            fn combine(&self, o: &Self) -> Self {
                let ($a, $b) = (self.clone(), o);
                $comb
            }
            fn combine_owned(self, o: Self) -> Self {
                let ($a, $b) = (self, &o);
                $comb
            }
        }
        impl Monoid for $t {
            fn empty() -> Self {
                $empty
            }
        }
        impl Log for $t {
            fn keeps() -> bool {
                $keeps
            }
            fn msg($c: u8) -> Self {
                $msg
            }
            fn seen(&self) -> Vec<u8> {
                let $s = self;
                $seen
            }
        }
    };
}
/// The reference log.
#[derive(Clone, PartialEq)]
pub struct RefLog(Vec<u8>);
log!(RefLog, MASKS.get()[2] != 0, RefLog(vec![]), |c| RefLog(if Self::keeps() { vec![c] } else { vec![] }), |a, b| RefLog([a.0, b.0.clone()].concat()), |s| s.0.clone());
/// Nothing can be told to it.
#[derive(Clone, Copy, PartialEq)]
pub struct NoLog;
log!(NoLog, false, NoLog, |_c| NoLog, |_a, _b| NoLog, |_s| vec![]);
/// A plain array of up to 63 messages.
#[derive(Clone, Copy, PartialEq)]
pub struct PlainLog(u8, [u8; 63]);
log!(PlainLog, true, PlainLog(0, [0; 63]), |c| { let mut l = PlainLog(1, [0; 63]); l.1[0] = c; l }, |a, b| {
    let mut l = a;
    l.1[a.0 as usize..(a.0 + b.0) as usize].copy_from_slice(&b.1[..b.0 as usize]);
    l.0 += b.0;
    l
}, |s| s.1[..s.0 as usize].to_vec());
/// Shared until it changes.
#[derive(Clone, PartialEq)]
pub struct SharedLog(std::sync::Arc<Vec<u8>>);
log!(SharedLog, true, SharedLog(Default::default()), |c| SharedLog(std::sync::Arc::new(vec![c])), |a, b| {
    let mut a = a;
    std::sync::Arc::make_mut(&mut a.0).extend(b.0.iter());
    a
}, |s| s.0.to_vec());
