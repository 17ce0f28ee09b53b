//! C38: values compare, order, hash and clone by what they hold.
#![allow(deprecated)]
use proptest::prelude::*;
use rustica::datatypes::io::IOError;
use rustica::datatypes::maybe::{Maybe, MaybeError};
use rustica::datatypes::id::Id;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::error::{ComposableError, ErrorContext};
use rustica::pvec::PersistentVector;
use rustica::utils::error_utils::AppError;
use std::cmp::Ordering::{self, *};
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use vharness::cont::*;
use vharness::pv::{build, content_len, recipe};
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

fn hash<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
/// A value of the kind close to another one: the same, or with one value, error or message
/// changed, added or missing.
fn near(k: Kind, m: &Md<S>, how: u8, at: u16) -> Md<S> {
    let mut m = m.clone();
    let (is_log, len) = match &m.out {
        Ok(_) if k == Kind::Log && how % 2 == 0 => (true, m.log.len()),
        Ok(v) | Err(v) => (false, v.len()),
    };
    let many = is_log || k == Kind::List || (k == Kind::Val && m.out.is_err());
    let v = match &mut m.out {
        _ if is_log => &mut m.log,
        Ok(v) | Err(v) => v,
    };
    let i = at as usize % len.max(1);
    match how / 2 % 6 {
        0 => {}
        1 if len > 0 => v[i].push('!'),
        2 if len > 0 => {
            v[i].pop();
        }
        3 if many => v.push("z".into()),
        4 if many && len > 0 => {
            v.pop();
        }
        5 if many && len > 1 => v.swap(i, len - 1),
        _ => {}
    }
    m
}
/// Everything that must follow from what two values hold.
fn pair<T: Clone + Ord + Hash + Debug>(a: &T, b: &T, same: bool, order: Option<Ordering>) -> Res {
    ensure_eq!(a == b, same, "equality of {a:?} and {b:?}");
    ensure_eq!(a != b, !same, "inequality of {a:?} and {b:?}");
    let o = a.cmp(b);
    if let Some(want) = order {
        ensure_eq!(o, want, "order of {a:?} and {b:?}");
    }
    ensure_eq!(o == Equal, same, "{a:?} and {b:?} compare as {o:?}");
    ensure_eq!(b.cmp(a), o.reverse(), "order of {b:?} and {a:?}");
    ensure_eq!(a.partial_cmp(b), Some(o), "partial order of {a:?} and {b:?}");
    ensure_eq!((a < b, a <= b, a > b, a >= b), (o == Less, o != Greater, o == Greater, o != Less), "comparison operators on {a:?} and {b:?}");
    ensure_eq!((a.max(b) == b, a.min(b) == a), (o != Greater, o != Greater), "max and min of {a:?} and {b:?}");
    if same {
        ensure_eq!(hash(a), hash(b), "hashes of the equal {a:?} and {b:?}");
    }
    let c = a.clone();
    ensure!(c == *a && hash(&c) == hash(a) && c.cmp(a) == Equal, "a copy of {a:?} differs from it");
    let mut d = b.clone();
    d.clone_from(a);
    ensure!(d == *a && hash(&d) == hash(a), "{b:?} overwritten by a copy of {a:?} is {d:?}");
    let (hs, bs): (HashSet<&T>, BTreeSet<&T>) = ([a, b, a].into(), [b, a, b].into());
    ensure_eq!((hs.len(), bs.len()), (2 - same as usize, 2 - same as usize), "sets of {a:?} and {b:?}");
    Ok(())
}
/// The order of two models as far as it follows from the values alone.
fn order<A: Ord>(a: &Md<A>, b: &Md<A>) -> Option<Ordering> {
    match (&a.out, &b.out) {
        (Ok(x), Ok(y)) if a.log == b.log => Some(x.cmp(y)),
        (Ok(x), Ok(y)) if x == y => Some(a.log.cmp(&b.log)),
        (Err(x), Err(y)) => Some(x.cmp(y)),
        _ => None,
    }
}
const NUM: [f64; 6] = [f64::NAN, 0.0, -0.0, 1.5, f64::INFINITY, -3.0];

macro_rules! container {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("total/", $name),
            "two of the three values are equal, two differ",
            25_000,
            || (md(<$C<S> as Repr<S>>::KIND), md(<$C<S> as Repr<S>>::KIND), prop::array::uniform2((0u8..13, any::<u16>()))),
            |(m, o, e), obs| {
                type C = $C<S>;
                let k = <C as Repr<S>>::KIND;
                let near = |(how, at): (u8, u16)| if how == 12 { o.clone() } else { near(k, m, how, at) };
                let ms = [m.clone(), near(e[0]), near(e[1])];
                let cs: Vec<C> = ms.iter().cloned().map(C::mk).collect();
                let eqs = (0..3).filter(|i| ms[*i] == ms[(i + 1) % 3]).count();
                obs.nontrivial(eqs > 0 && eqs < 3);
                obs.tag_if(eqs == 0, "three different values");
                for i in 0..3 {
                    for j in 0..3 {
                        pair(&cs[i], &cs[j], ms[i] == ms[j], order(&ms[i], &ms[j]))?;
                    }
                }
                let mut sorted: Vec<&C> = cs.iter().collect();
                sorted.sort();
                ensure!(sorted[0] <= sorted[1] && sorted[1] <= sorted[2] && sorted[0] <= sorted[2], "the order is not transitive on {cs:?}");
                for (c, m) in cs.iter().zip(&ms) {
                    ensure_eq!(c.view(), *m, "the value after it was compared");
                }
                Ok(())
            },
        );
        $s.check(
            concat!("partial/", $name),
            "the values differ or hold one that is not equal to itself",
            15_000,
            || (md_of(<$C<u8> as Repr<u8>>::KIND, 0u8..6, 11), md_of(<$C<u8> as Repr<u8>>::KIND, 0u8..6, 11), any::<bool>()),
            |(m, o, same), obs| {
                // values that are only partially equal and ordered, on both sides of which the
                // errors and messages are the same
                let f = |m: &Md<u8>| m.map(|x| NUM[*x as usize]);
                let (a, mut b) = (f(m), f(if *same { m } else { o }));
                b.log = a.log.clone();
                let (x, y) = (<$C<f64>>::mk(a.clone()), <$C<f64>>::mk(b.clone()));
                obs.tag_if(a.values().iter().any(|v| v.is_nan()), "holds a NaN");
                obs.nontrivial(a != b);
                ensure_eq!(x == y, a.out == b.out, "equality of {x:?} and {y:?}");
                ensure_eq!(x != y, a.out != b.out, "inequality of {x:?} and {y:?}");
                let p = x.partial_cmp(&y);
                ensure_eq!(y.partial_cmp(&x), p.map(Ordering::reverse), "order of {x:?} and {y:?} reversed");
                match (&a.out, &b.out) {
                    (Ok(v), Ok(w)) => ensure_eq!(p, v.partial_cmp(w), "order of {x:?} and {y:?}"),
                    (Err(v), Err(w)) => ensure_eq!(p, Some(v.cmp(w)), "order of {x:?} and {y:?}"),
                    _ => ensure!(p.is_some_and(|p| p != Equal), "order of {x:?} and {y:?}: {p:?}"),
                }
                ensure_eq!((x < y, x <= y, x > y, x >= y), (p == Some(Less), matches!(p, Some(Less | Equal)), p == Some(Greater), matches!(p, Some(Greater | Equal))), "comparison operators");
                let bits = |m: Md<f64>| m.map(|v| v.to_bits());
                ensure_eq!(bits(x.clone().view()), bits(x.view()), "a copy");
                Ok(())
            },
        );
    };
}

fn main() {
    let mut s = Suite::new("C38");
    s.assume("which of two different cases (success or failure) is smaller is not specified, only that the order is total and stays the same");
    container!(s, "maybe", CMay);
    container!(s, "either", CEi);
    container!(s, "validated", CVal);
    container!(s, "choice", CCh);
    container!(s, "id", CId);
    container!(s, "writer", CWr);
    container!(s, "pvec", CPv);
    s.check(
        "partial/vectors with a past in common",
        "the vectors have the same elements up to some of which one is not equal to itself",
        12_000,
        || (recipe(), content_len(), any::<u64>(), 0u8..4, prop::array::uniform2(prop::collection::vec((0u8..10, any::<u16>(), 0u8..6), 0..4)), recipe()),
        |(r, n, salt, nans, steps, r2), obs| {
            // few values that are not equal to themselves, if any, at places given by the salt
            let mut xs: Vec<f64> = (0..*n as u64).map(|i| ((salt.wrapping_add(i * i)) % 5) as f64).collect();
            for i in 0..(*nans as usize).min(*n) {
                xs[(salt >> (i * 8)) as usize % n] = f64::NAN;
            }
            let base = build(r, &xs, &9.0);
            let go = |steps: &[(u8, u16, u8)]| {
                let (mut v, mut m) = (base.clone(), xs.clone());
                for (op, at, x) in steps {
                    let (x, i) = (NUM[*x as usize], *at as usize % m.len().max(1));
                    v = match op {
                        0..=2 => v.clone(),
                        3 if !m.is_empty() => {
                            m[i] = x;
                            v.update(i, x)
                        }
                        4 => {
                            m.push(x);
                            v.push_back(x)
                        }
                        5 => match v.pop_back() {
                            Some((w, _)) => {
                                m.pop();
                                w
                            }
                            None => v,
                        },
                        6 => match v.pop_front() {
                            Some((w, _)) => {
                                m.remove(0);
                                w
                            }
                            None => v,
                        },
                        7 => {
                            let mut w = v.push_back(x);
                            w = w.pop_back().map_or(w, |w| w.0);
                            w
                        }
                        8 => {
                            m.insert(0, x);
                            v.push_front(x)
                        }
                        _ => {
                            let (l, r) = v.split_at(i);
                            l.concat(&r)
                        }
                    };
                }
                (v, m)
            };
            let (a, b) = (go(&steps[0]), go(&steps[1]));
            // the same contents, and nothing shared
            let c = (build(r2, &a.1, &9.0), a.1.clone());
            let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
            obs.nontrivial(bits(&a.1) == bits(&b.1) && a.1 != b.1);
            obs.tag_if(*n > 64, "more elements than are held inline");
            let (both, both2) = ((base.clone(), xs.clone()), (base.clone(), xs.clone()));
            for (l, r) in [(&a, &b), (&a, &a), (&a, &c), (&both, &both2), (&b, &c)] {
                let ((x, v), (y, w)) = (l, r);
                ensure_eq!((x == y, x != y), (v == w, v != w), "equality of vectors of {v:?} and {w:?}");
                ensure_eq!(x.partial_cmp(y), v.partial_cmp(w), "order of vectors of {v:?} and {w:?}");
                ensure_eq!((x < y, x <= y, x > y, x >= y), (v < w, v <= w, v > w, v >= w), "comparison operators on {v:?} and {w:?}");
                ensure_eq!(Some(x.clone()) == Some(y.clone()), v == w, "equality of copies");
                let whole = |v: &[f64]| v.iter().map(|x| if x.is_nan() { 7 } else { *x as i32 }).collect::<Vec<_>>();
                let (x, y) = (x.map(|x| if x.is_nan() { 7 } else { *x as i32 }), y.map(|x| if x.is_nan() { 7 } else { *x as i32 }));
                let (v, w) = (whole(v), whole(w));
                ensure_eq!((x == y, x.cmp(&y)), (v == w, v.cmp(&w)), "equality and order of vectors of {v:?} and {w:?}");
                ensure!(v != w || hash(&x) == hash(&y), "hashes of equal vectors of {v:?}");
            }
            Ok(())
        },
    );
    s.check(
        "wrappers",
        "two of the three values are equal, two differ",
        60_000,
        || (prop::array::uniform3(0u8..6), prop::array::uniform3(prop::option::of(0u8..3))),
        |(n, o), obs| {
            obs.nontrivial((n[0] == n[1]) != (n[1] == n[2]));
            for i in 0..3 {
                for j in 0..3 {
                    macro_rules! plain {
                        ($($W:ident)*) => {$({
                            pair(&$W(n[i]), &$W(n[j]), n[i] == n[j], Some(n[i].cmp(&n[j])))?;
                            ensure_eq!(format!("{:?}", $W(n[i])), format!(concat!(stringify!($W), "({:?})"), n[i]), "debug text");
                            let (x, y) = (NUM[n[i] as usize], NUM[n[j] as usize]);
                            ensure_eq!(($W(x) == $W(y), $W(x).partial_cmp(&$W(y))), (x == y, x.partial_cmp(&y)), "partial comparison of {x} and {y}");
                        })*};
                    }
                    plain!(Sum Product Min Max);
                    let both = match (o[i], o[j]) {
                        (Some(x), Some(y)) => Some(x.cmp(&y)),
                        _ => None,
                    };
                    pair(&First(o[i]), &First(o[j]), o[i] == o[j], both)?;
                    pair(&Last(o[i]), &Last(o[j]), o[i] == o[j], both)?;
                }
            }
            let mut f = o.map(First);
            f.sort();
            ensure!(f[0] <= f[1] && f[1] <= f[2] && f[0] <= f[2], "the order of {f:?} is not transitive");
            let mut f = o.map(Last);
            f.sort();
            ensure!(f[0] <= f[1] && f[1] <= f[2] && f[0] <= f[2], "the order of {f:?} is not transitive");
            Ok(())
        },
    );
    s.check(
        "errors",
        "the two errors differ in one part",
        60_000,
        || (prop::array::uniform2((0u8..3, list(0u8..3, 4, 12), prop::option::of(0u32..3))), any::<[bool; 3]>(), any::<u16>()),
        |([a, b], same, at), obs| {
            let (a, mut b) = (a.clone(), b.clone());
            if same[0] {
                b.0 = a.0;
            }
            if same[1] {
                b.1 = a.1.clone();
                if same[2] && !b.1.is_empty() {
                    // two contexts exchanged
                    let (i, n) = (*at as usize % b.1.len(), b.1.len());
                    b.1.swap(i, n - 1);
                }
            }
            if same[2] {
                b.2 = a.2;
            }
            obs.nontrivial([a.0 != b.0, a.1 != b.1, a.2 != b.2].iter().filter(|x| **x).count() == 1);
            let mk = |(e, c, n): &(u8, Vec<u8>, Option<u32>), bulk: bool| {
                let e = match n {
                    Some(n) => ComposableError::with_code(*e, *n),
                    None => ComposableError::new(*e),
                };
                if bulk { e.with_contexts(c.iter().map(|x| x.to_string())) } else { c.iter().fold(e, |e, x| e.with_context(x.to_string())) }
            };
            let (x, y) = (mk(&a, false), mk(&b, true));
            ensure_eq!((x == y, x != y), (a == b, a != b), "equality of {x:?} and {y:?}");
            ensure!(x.clone() == x && mk(&a, true) == x, "a copy of {x:?} differs from it");
            let app = |(m, c, n): &(u8, Vec<u8>, Option<u32>)| match n {
                Some(n) => AppError::with_context((*m, c.clone()), *n),
                None => AppError::new((*m, c.clone())),
            };
            let (x, y) = (app(&a), app(&b));
            ensure_eq!((x == y, x != y), (a == b, a != b), "equality of {x:?} and {y:?}");
            ensure!(x.clone() == x, "a copy of {x:?} differs from it");
            let text = |v: &(u8, Vec<u8>, Option<u32>)| v.1.iter().map(|x| x.to_string()).collect::<S>();
            let (t, u) = (text(&a), text(&b));
            let (x, y) = (ErrorContext::new(t.clone()), ErrorContext::new(u.clone()));
            ensure_eq!(x == y, t == u, "equality of {x:?} and {y:?}");
            ensure!(x != y || hash(&x) == hash(&y), "hashes of {x:?} and {y:?}");
            let io = |v: &(u8, Vec<u8>, Option<u32>)| if v.0 == 0 { IOError::ValueNotSet } else { IOError::Other(text(v)) };
            ensure_eq!(io(&a) == io(&b), (a.0 == 0) == (b.0 == 0) && (a.0 == 0 || t == u), "equality of {:?} and {:?}", io(&a), io(&b));
            let my = |v: &(u8, Vec<u8>, Option<u32>)| if v.0 == 0 { MaybeError::ValueNotPresent } else { MaybeError::Custom(text(v)) };
            ensure_eq!(my(&a) == my(&b), (a.0 == 0) == (b.0 == 0) && (a.0 == 0 || t == u), "equality of {:?} and {:?}", my(&a), my(&b));
            // what a default holds
            ensure_eq!(Maybe::<S>::default(), Maybe::Nothing, "default maybe");
            ensure_eq!(Id::<S>::default(), Id::new(S::new()), "default identity");
            ensure_eq!(PersistentVector::<S>::default().to_vec(), Vec::<S>::new(), "default vector");
            ensure_eq!(Id::from(t.clone()), Id::new(t), "identity from a value");
            Ok(())
        },
    );
    s.main()
}
