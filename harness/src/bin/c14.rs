//! C14: lenses and iso-lenses.
use proptest::prelude::*;
use rustica::datatypes::iso_lens::IsoLens;
use rustica::datatypes::lens::Lens;
use rustica::traits::iso::Iso;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use vharness::optic::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Inner {
    x: S,
    y: Vec<S>,
    o: Option<S>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Src {
    a: S,
    b: S,
    t: (S, Inner),
    v: Vec<Inner>,
    m: BTreeMap<u8, S>,
}
fn inner() -> BoxedStrategy<Inner> {
    (word(), prop::collection::vec(word(), 0..4), prop::option::of(word())).prop_map(|(x, y, o)| Inner { x, y, o }).boxed()
}
fn src() -> BoxedStrategy<Src> {
    (word(), word(), word(), inner(), prop::collection::vec(inner(), 1..4), prop::collection::btree_map(0u8..4, word(), 0..4))
        .prop_map(|(a, b, t0, t1, v, m)| Src { a, b, t: (t0, t1), v, m })
        .boxed()
}

/// Focus of a string lens, as a path.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Path {
    A,
    B,
    T0,
    T1X,
    VX(u8),
}
fn path() -> BoxedStrategy<Path> {
    prop_oneof![Just(Path::A), Just(Path::B), Just(Path::T0), Just(Path::T1X), any::<u8>().prop_map(Path::VX)].boxed()
}
impl Path {
    fn get(&self, s: &Src) -> S {
        let mut c = s.clone();
        self.at(&mut c).clone()
    }
    fn at<'a>(&self, s: &'a mut Src) -> &'a mut S {
        match self {
            Path::A => &mut s.a,
            Path::B => &mut s.b,
            Path::T0 => &mut s.t.0,
            Path::T1X => &mut s.t.1.x,
            Path::VX(i) => {
                let n = s.v.len();
                &mut s.v[*i as usize % n].x
            }
        }
    }
    fn put(&self, mut s: Src, v: S) -> Src {
        *self.at(&mut s) = v;
        s
    }
}
type G<A, B> = Box<dyn Fn(&A) -> B>;
type P<A, B> = Box<dyn Fn(A, B) -> A>;
type L<A, B> = Lens<A, B, G<A, B>, P<A, B>>;
fn bx<A: Clone + 'static, B: Clone + 'static, GF: Fn(&A) -> B + 'static, SF: Fn(A, B) -> A + 'static>(l: Lens<A, B, GF, SF>) -> L<A, B>
where
{
    let l = Rc::new(l);
    let m = l.clone();
    Lens::new(Box::new(move |s: &A| l.get(s)) as G<A, B>, Box::new(move |s: A, b: B| m.set_always(s, b)) as P<A, B>)
}

/// The laws for any lens, against a plain getter and setter.
fn laws<A, B>(l: &L<A, B>, s: &A, v1: &B, v2: &B, f: &dyn Fn(B) -> B, get: &dyn Fn(&A) -> B, put: &dyn Fn(A, B) -> A) -> Res
where
    A: Clone + PartialEq + std::fmt::Debug,
    B: Clone + PartialEq + std::fmt::Debug,
{
    let cur = get(s);
    ensure_eq!(l.get(s), cur.clone(), "get");
    for (n, set) in [("set", &(|s: A, v: B| l.set(s, v)) as &dyn Fn(A, B) -> A), ("set_always", &|s, v| l.set_always(s, v))] {
        let one = set(s.clone(), v1.clone());
        ensure_eq!(one, put(s.clone(), v1.clone()), "{n}: only the focus changes");
        ensure_eq!(l.get(&one), v1.clone(), "get after {n}");
        ensure_eq!(set(s.clone(), cur.clone()), s.clone(), "{n} what was read");
        ensure_eq!(set(one.clone(), v2.clone()), set(s.clone(), v2.clone()), "second {n} overwrites the first");
        ensure_eq!(set(one, cur.clone()), s.clone(), "{n} back");
    }
    let calls = RefCell::new(vec![]);
    let g = |b: B| {
        calls.borrow_mut().push(b.clone());
        f(b)
    };
    let want = put(s.clone(), f(cur.clone()));
    ensure_eq!(l.modify(s.clone(), g), want, "modify");
    ensure_eq!(calls.take(), vec![cur.clone()], "arguments of the function given to modify");
    ensure_eq!(l.modify_always(s.clone(), g), want, "modify_always");
    ensure_eq!(calls.take(), vec![cur.clone()], "arguments of the function given to modify_always");
    ensure_eq!(l.modify(s.clone(), |b| b), s.clone(), "modify by the identity");
    ensure_eq!(l.modify(l.modify(s.clone(), f), f), l.modify(s.clone(), |b| f(f(b))), "modify twice");
    Ok(())
}

fn main() {
    let mut s = Suite::new("C14");
    s.assume("lenses and isomorphisms are built from lawful accessors; focus equality is the derived one");
    s.check(
        "fields",
        "the value set differs from the one already there, or the function changes it",
        40_000,
        || (src(), path(), word(), word(), fun(), prop::collection::vec(inv(), 0..5)),
        |(x, p, v1, v2, f, conv), obs| {
            let cur = p.get(x);
            obs.nontrivial(*v1 != cur || f.ap(&cur) != cur);
            obs.tag_if(*v1 == cur, "sets the same value");
            obs.tag_if(f.ap(&cur) == cur, "modification changes nothing");
            obs.tag_if(conv.len() > 1, "two or more conversions");
            let (p1, p2) = (p.clone(), p.clone());
            let mut l: L<Src, S> = bx(Lens::new(move |s: &Src| p1.get(s), move |s: Src, v: S| p2.put(s, v)));
            for i in conv {
                let (a, b) = (i.clone(), i.clone());
                l = bx(l.fmap(move |v: S| a.fwd(&v), move |v: S| b.bwd(&v)));
            }
            let to = |v: S| conv.iter().fold(v, |v, i| i.fwd(&v));
            let from = |v: S| conv.iter().rev().fold(v, |v, i| i.bwd(&v));
            laws(&l, x, v1, v2, &|b| f.ap(&b), &|s| to(p.get(s)), &|s, v| p.put(s, from(v)))
        },
    );
    s.check(
        "nested",
        "the modification changes the focus",
        25_000,
        || (src(), any::<u8>(), any::<u8>(), prop::option::of(word()), prop::option::of(word()), prop::collection::vec(word(), 0..4), inner(), fun()),
        |(x, vi, key, o1, o2, ys, inn, f), obs| {
            let key = key % 5;
            let i = *vi as usize % x.v.len();
            // an entry of a map: present, absent, inserted, removed
            let at = bx(Lens::new(
                move |s: &Src| s.m.get(&key).cloned(),
                move |mut s: Src, v: Option<S>| {
                    match v {
                        Some(v) => s.m.insert(key, v),
                        None => s.m.remove(&key),
                    };
                    s
                },
            ));
            obs.nontrivial(x.m.get(&key) != o1.as_ref() || x.v[i].o != *o1);
            obs.tag_if(o1.is_none() && x.m.contains_key(&key), "removes an entry");
            obs.tag_if(o1.is_some() && !x.m.contains_key(&key), "inserts an entry");
            let put_m = |mut s: Src, v: Option<S>| {
                match v {
                    Some(v) => s.m.insert(key, v),
                    None => s.m.remove(&key),
                };
                s
            };
            laws(&at, x, o1, o2, &|b: Option<S>| b.map(|b| f.ap(&b)), &|s| s.m.get(&key).cloned(), &put_m)?;
            // lens of a lens, three levels deep, assembled from the library's get and set
            let vi = Rc::new(bx(Lens::new(
                move |s: &Src| s.v[i].clone(),
                move |mut s: Src, v: Inner| {
                    s.v[i] = v;
                    s
                },
            )));
            let fo = Rc::new(bx(Lens::new(
                |s: &Inner| s.o.clone(),
                |mut s: Inner, v: Option<S>| {
                    s.o = v;
                    s
                },
            )));
            let (va, vb, fa, fb) = (vi.clone(), vi.clone(), fo.clone(), fo.clone());
            let comp = bx(Lens::new(move |s: &Src| fa.get(&va.get(s)), move |s: Src, v: Option<S>| vb.modify(s, |inner| fb.set(inner, v.clone()))));
            let put_o = |mut s: Src, v: Option<S>| {
                s.v[i].o = v;
                s
            };
            laws(&comp, x, o1, o2, &|b: Option<S>| b.map(|b| f.ap(&b)), &|s| s.v[i].o.clone(), &put_o)?;
            // whole structures and lists as focus
            laws(&vi, x, inn, &x.v[0], &|mut b: Inner| {
                b.x = f.ap(&b.x);
                b
            }, &|s| s.v[i].clone(), &|mut s, v| {
                s.v[i] = v;
                s
            })?;
            let fy = bx(Lens::new(
                |s: &Src| s.t.1.y.clone(),
                |mut s: Src, v: Vec<S>| {
                    s.t.1.y = v;
                    s
                },
            ));
            laws(&fy, x, ys, &inn.y, &|b: Vec<S>| b.iter().rev().map(|b| f.ap(b)).collect(), &|s| s.t.1.y.clone(), &|mut s, v| {
                s.t.1.y = v;
                s
            })?;
            // through a mapping to another type
            let joined = bx(fy.fmap(|v: Vec<S>| (v.len(), v), |(_, v): (usize, Vec<S>)| v));
            let tag = |v: &Vec<S>| (v.len(), v.clone());
            laws(&joined, x, &tag(ys), &tag(&inn.y), &|(_, b)| tag(&b.iter().rev().map(|b| f.ap(b)).collect()), &|s| tag(&s.t.1.y), &|mut s, v| {
                s.t.1.y = v.1;
                s
            })
        },
    );
    // A focus whose equality is not reflexive, or which has equal but distinguishable values.
    s.check(
        "floats",
        "the two values differ in bits",
        8_000,
        || (prop::sample::select(vec![0.0f64, -0.0, f64::NAN, 1.5, f64::INFINITY]), prop::sample::select(vec![0.0f64, -0.0, f64::NAN, 1.5, -2.0]), any::<u8>()),
        |(a, b, t), obs| {
            obs.nontrivial(a.to_bits() != b.to_bits());
            let sets = Rc::new(Cell::new(0));
            let n = sets.clone();
            let l = Lens::new(
                |s: &(f64, u8)| s.0,
                move |s: (f64, u8), v: f64| {
                    n.set(n.get() + 1);
                    (v, s.1)
                },
            );
            let r = l.set((*a, *t), *b);
            ensure!(r.0 == *b || (r.0.is_nan() && b.is_nan()), "set({a}, {b}) gives {}", r.0);
            ensure_eq!(r.1, *t, "the rest");
            let r = l.set_always((*a, *t), *b);
            ensure_eq!(r.0.to_bits(), b.to_bits(), "set_always");
            let r = l.modify((*a, *t), |_| *b);
            ensure!(r.0 == *b || (r.0.is_nan() && b.is_nan()), "modify({a}, {b}) gives {}", r.0);
            sets.set(0);
            let r = l.modify_always((*a, *t), |_| *b);
            ensure_eq!(r.0.to_bits(), b.to_bits(), "modify_always");
            ensure_eq!(sets.get(), 1, "modify_always sets once");
            Ok(())
        },
    );
    s.check(
        "iso-lens",
        "the value set differs from the one already there, or the function changes it",
        30_000,
        || (src(), path(), inv(), word(), word(), fun()),
        |(x, p, i, v1, v2, f), obs| {
            let cur = i.fwd(&p.get(x));
            obs.nontrivial(*v1 != cur || f.ap(&cur) != cur);
            let (p1, p2, i1, i2) = (p.clone(), p.clone(), i.clone(), i.clone());
            let lens = IsoLens::new(FnIso::<Src, (S, Src)>::new(
                move |s| (i1.fwd(&p1.get(s)), s.clone()),
                move |(v, s)| p2.put(s.clone(), i2.bwd(v)),
            ));
            let put = |s: &Src, v: &S| p.put(s.clone(), i.bwd(v));
            ensure_eq!(lens.get(x), (cur.clone(), x.clone()), "get");
            ensure_eq!(lens.set(&lens.get(x)), x.clone(), "set what was read");
            ensure_eq!(lens.set(&(v1.clone(), x.clone())), put(x, v1), "set");
            let one = lens.set_focus(x, v1);
            ensure_eq!(one, put(x, v1), "set_focus: only the focus changes");
            ensure_eq!(lens.get(&one).0, v1.clone(), "get after set_focus");
            ensure_eq!(lens.set_focus(x, &cur), x.clone(), "set_focus what was read");
            ensure_eq!(lens.set_focus(&one, v2), lens.set_focus(x, v2), "second set_focus overwrites the first");
            let calls = RefCell::new(vec![]);
            let g = |v: S| {
                let r = f.ap(&v);
                calls.borrow_mut().push(v);
                r
            };
            ensure_eq!(lens.modify_focus(x, g), put(x, &f.ap(&cur)), "modify_focus");
            ensure_eq!(calls.take(), vec![cur.clone()], "arguments of the function given to modify_focus");
            ensure_eq!(lens.modify(x, |(v, s)| (g(v), s)), put(x, &f.ap(&cur)), "modify");
            ensure_eq!(calls.take(), vec![cur.clone()], "arguments of the function given to modify");
            // modification of the context as well
            let other = Path::B.put(x.clone(), v2.clone());
            ensure_eq!(lens.modify(x, |_| (v1.clone(), other.clone())), put(&other, v1), "modify both");
            ensure_eq!(lens.iso_ref().forward(x), lens.get(x), "iso_ref");
            ensure_eq!(lens.clone().get(x), lens.get(x), "clone");
            Ok(())
        },
    );
    s.check(
        "iso-lens/compose",
        "the value set differs from the one already there, or the function changes it",
        30_000,
        || (src(), inv(), inv(), word(), word(), fun(), any::<u8>()),
        |(x, i, j, v1, v2, f, k), obs| {
            // Src -> its second tuple component -> a string inside it, converted at both steps.
            let on = |i: &Inv, n: &Inner| Inner { x: i.fwd(&n.x), ..n.clone() };
            let off = |i: &Inv, n: &Inner| Inner { x: i.bwd(&n.x), ..n.clone() };
            let (i1, i2) = (i.clone(), i.clone());
            let outer: IsoLens<Src, (Inner, Src), _> = IsoLens::new(FnIso::<Src, (Inner, Src)>::new(
                move |s| (on(&i1, &s.t.1), s.clone()),
                move |(n, s)| {
                    let mut s = s.clone();
                    s.t.1 = off(&i2, n);
                    s
                },
            ));
            let (i1, j1, j2) = (i.clone(), j.clone(), j.clone());
            let inner: IsoLens<(Inner, Src), (S, Src), _> = IsoLens::new(FnIso::<(Inner, Src), (S, Src)>::new(
                move |(n, s)| (j1.fwd(&n.x), s.clone()),
                move |(v, s)| (Inner { x: j2.bwd(v), ..on(&i1, &s.t.1) }, s.clone()),
            ));
            let c = outer.compose(inner);
            let cur = j.fwd(&i.fwd(&x.t.1.x));
            let put = |s: &Src, v: &S| {
                let mut s = s.clone();
                s.t.1.x = i.bwd(&j.bwd(v));
                s
            };
            obs.nontrivial(*v1 != cur || f.ap(&cur) != cur);
            obs.tag_if(i.fwd(&j.fwd(&x.t.1.x)) != cur, "the order of the parts matters");
            ensure_eq!(c.get(x), (cur.clone(), x.clone()), "get");
            ensure_eq!(c.set(&c.get(x)), x.clone(), "set what was read");
            ensure_eq!(c.set_focus(x, v1), put(x, v1), "set_focus");
            ensure_eq!(c.get(&c.set_focus(x, v1)).0, v1.clone(), "get after set_focus");
            ensure_eq!(c.set_focus(&c.set_focus(x, v1), v2), c.set_focus(x, v2), "second set_focus overwrites the first");
            ensure_eq!(c.modify_focus(x, |v| f.ap(&v)), put(x, &f.ap(&cur)), "modify_focus");
            // three deep
            let (k1, k2) = (Inv::Rot(*k % 4), Inv::Rot(*k % 4));
            let third: IsoLens<(S, Src), (S, Src), _> = IsoLens::new(FnIso::<(S, Src), (S, Src)>::new(move |(v, s)| (k1.fwd(v), s.clone()), move |(v, s)| (k2.bwd(v), s.clone())));
            let d = c.compose(third);
            let r = Inv::Rot(*k % 4);
            ensure_eq!(d.get(x), (r.fwd(&cur), x.clone()), "get through three");
            ensure_eq!(d.set_focus(x, v1), put(x, &r.bwd(v1)), "set_focus through three");
            ensure_eq!(d.modify_focus(x, |v| f.ap(&v)), put(x, &r.bwd(&f.ap(&r.fwd(&cur)))), "modify_focus through three");
            Ok(())
        },
    );
    // The context need not be the whole source: an isomorphism may split the source in two.
    s.check(
        "iso-lens/split",
        "the function changes the focus",
        20_000,
        || (any::<u32>(), 2u64..12, 2u64..12, any::<u32>(), any::<u32>()),
        |(n, m, k, a, b), obs| {
            let (n, m, k) = (*n as u64, *m, *k);
            let digit = |m: u64| IsoLens::new(FnIso::<u64, (u64, u64)>::new(move |n: &u64| (n % m, n / m), move |(d, r): &(u64, u64)| r * m + d));
            let l = digit(m);
            let f = |d: u64| (d + *a as u64) % m;
            obs.nontrivial(f(n % m) != n % m);
            ensure_eq!(l.get(&n), (n % m, n / m), "get");
            ensure_eq!(l.set(&l.get(&n)), n, "set what was read");
            ensure_eq!(l.modify_focus(&n, f), n / m * m + f(n % m), "modify_focus");
            ensure_eq!(l.modify_focus(&n, |d| d), n, "modify_focus by the identity");
            ensure_eq!(l.modify(&n, |(d, r)| (f(d), r + *b as u64)), (n / m + *b as u64) * m + f(n % m), "modify");
            // the focus seen through a second split of the pair
            let c = l.compose(IsoLens::new(FnIso::<(u64, u64), (u64, u64)>::new(
                move |(d, r): &(u64, u64)| (r % k, r / k * 100 + d),
                move |(e, x): &(u64, u64)| (x % 100, x / 100 * k + e),
            )));
            let g = |e: u64| (e + *b as u64) % k;
            ensure_eq!(c.modify_focus(&n, g), (n / m / k * k + g(n / m % k)) * m + n % m, "modify_focus of a composition");
            Ok(())
        },
    );
    s.main();
}
