//! C28: predicates as sets.
use proptest::collection::vec;
use proptest::prelude::*;
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::traits::contravariant_functor::{ContravariantFunctor, ContravariantFunctorExt};
use rustica::traits::hkt::HKT;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::{Semigroup, SemigroupExt};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

type P = Predicate<S>;
type Log = Rc<RefCell<Vec<usize>>>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum E {
    Leaf(Pred),
    Empty,
    /// an earlier result again
    Again(u8),
    Union(Box<E>, Box<E>, u8),
    Inter(Box<E>, Box<E>, bool),
    Diff(Box<E>, Box<E>, bool),
    Not(Box<E>, bool),
    All(Vec<E>, u8),
}
fn e(depth: u32) -> BoxedStrategy<E> {
    let leaf = prop_oneof![8 => pred().prop_map(E::Leaf), 1 => Just(E::Empty), 2 => any::<u8>().prop_map(E::Again)];
    if depth == 0 {
        return leaf.boxed();
    }
    let x = e(depth - 1);
    let b = x.clone().prop_map(Box::new);
    prop_oneof![
        3 => leaf,
        3 => (b.clone(), b.clone(), any::<u8>()).prop_map(|(x, y, h)| E::Union(x, y, h)),
        3 => (b.clone(), b.clone(), any::<bool>()).prop_map(|(x, y, h)| E::Inter(x, y, h)),
        3 => (b.clone(), b.clone(), any::<bool>()).prop_map(|(x, y, h)| E::Diff(x, y, h)),
        2 => (b, any::<bool>()).prop_map(|(x, h)| E::Not(x, h)),
        1 => (list(x.boxed(), 5, 16), any::<u8>()).prop_map(|(v, h)| E::All(v, h)),
    ]
    .boxed()
}
/// The sets, with every base predicate numbered.
#[derive(Clone, Debug)]
enum M {
    Leaf(usize, Pred),
    Empty,
    Union(Rc<M>, Rc<M>),
    Inter(Rc<M>, Rc<M>),
    Diff(Rc<M>, Rc<M>),
    Not(Rc<M>),
}
impl M {
    fn has(&self, x: &S, log: &mut Vec<usize>) -> bool {
        match self {
            M::Leaf(i, p) => {
                log.push(*i);
                p.ok(x)
            }
            M::Empty => false,
            M::Union(a, b) => a.has(x, log) || b.has(x, log),
            M::Inter(a, b) => a.has(x, log) && b.has(x, log),
            M::Diff(a, b) => a.has(x, log) && !b.has(x, log),
            M::Not(a) => !a.has(x, log),
        }
    }
    fn leaves(&self) -> usize {
        match self {
            M::Leaf(..) => 1,
            M::Empty => 0,
            M::Union(a, b) | M::Inter(a, b) | M::Diff(a, b) => a.leaves() + b.leaves(),
            M::Not(a) => a.leaves(),
        }
    }
}
struct Built {
    done: Vec<(P, Rc<M>)>,
    log: Log,
    n: usize,
}
fn leaf(p: &Pred, i: usize, log: &Log) -> P {
    let (p, log) = (p.clone(), log.clone());
    Predicate::new(move |x: &S| {
        log.borrow_mut().push(i);
        p.ok(x)
    })
}
fn build(e: &E, b: &mut Built) -> (P, Rc<M>) {
    let r = match e {
        E::Leaf(p) => {
            b.n += 1;
            (leaf(p, b.n, &b.log), Rc::new(M::Leaf(b.n, p.clone())))
        }
        E::Empty => (P::empty(), Rc::new(M::Empty)),
        E::Again(i) => match b.done.len() {
            0 => (P::empty(), Rc::new(M::Empty)),
            n => b.done[*i as usize % n].clone(),
        },
        E::Union(x, y, h) => {
            let ((x, mx), (y, my)) = (build(x, b), build(y, b));
            let p = match h % 5 {
                0 => x.union(&y),
                1 => x.clone() | y.clone(),
                2 => x.combine(&y),
                3 => x.clone().combine_owned(y.clone()),
                _ => x | y,
            };
            (p, Rc::new(M::Union(mx, my)))
        }
        E::Inter(x, y, h) => {
            let ((x, mx), (y, my)) = (build(x, b), build(y, b));
            (if *h { x.intersection(&y) } else { x & y }, Rc::new(M::Inter(mx, my)))
        }
        E::Diff(x, y, h) => {
            let ((x, mx), (y, my)) = (build(x, b), build(y, b));
            (if *h { x.diff(&y) } else { x - y }, Rc::new(M::Diff(mx, my)))
        }
        E::Not(x, h) => {
            let (x, mx) = build(x, b);
            (if *h { x.negate() } else { !x }, Rc::new(M::Not(mx)))
        }
        E::All(es, h) => {
            let parts: Vec<(P, Rc<M>)> = es.iter().map(|e| build(e, b)).collect();
            let m = parts.iter().fold(Rc::new(M::Empty), |a, (_, m)| Rc::new(M::Union(a, m.clone())));
            let ps: Vec<P> = parts.iter().map(|(p, _)| p.clone()).collect();
            let p = match h % 5 {
                0 => rustica::traits::monoid::combine_all(ps),
                1 => ps.into_iter().fold(P::empty(), |a, p| a.combine_owned(p)),
                2 => match ps.split_first() {
                    None => P::empty(),
                    Some((f, rest)) => f.clone().combine_all(rest.to_vec()),
                },
                3 => rustica::traits::monoid::mconcat(&ps),
                _ => ps.iter().fold(P::empty(), |a, p| a.combine(p)),
            };
            (p, m)
        }
    };
    b.done.push(r.clone());
    r
}
/// A predicate of the harness that can be mapped contravariantly.
struct Pd<A>(Rc<dyn Fn(&A) -> bool>);
impl<A> HKT for Pd<A> {
    type Source = A;
    type Output<U> = Pd<U>;
}
impl<A> ContravariantFunctor for Pd<A> {
    fn contramap<U, F: Fn(&U) -> A>(&self, f: F) -> Pd<U>
    where
        U: Clone,
    {
        let g = self.0.clone();
        let b: Rc<dyn Fn(&U) -> bool + '_> = Rc::new(move |u: &U| g(&f(u)));
        // the mapped predicates of this file are used only while what they borrow is alive
        Pd(unsafe { std::mem::transmute::<Rc<dyn Fn(&U) -> bool + '_>, Rc<dyn Fn(&U) -> bool + 'static>>(b) })
    }
    fn contramap_owned<U, F: Fn(U) -> A>(self, f: F) -> Pd<U>
    where
        U: Clone,
    {
        self.contramap(|u: &U| f(u.clone()))
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Wrapped(S);
impl From<S> for Wrapped {
    fn from(s: S) -> Self {
        Wrapped(s)
    }
}

fn main() {
    let mut s = Suite::new("C28");
    s.assume("the library implements contravariant mapping for none of its types: its derived operations are checked through an implementation of the harness");
    s.check(
        "algebra",
        "the expression has at least three base predicates",
        200_000,
        || (e(5), vec(val(), 1..6)),
        |(e, xs), obs| {
            let mut b = Built { done: vec![], log: Log::default(), n: 0 };
            let (p, m) = build(e, &mut b);
            obs.nontrivial(m.leaves() >= 3);
            obs.tag_if(m.leaves() > 10, "more than ten base predicates");
            ensure_eq!(b.log.take(), Vec::<usize>::new(), "evaluated while building");
            for x in xs {
                let mut want = vec![];
                let w = m.has(x, &mut want);
                ensure_eq!(p.contains(x), w, "contains {x:?}");
                ensure_eq!(b.log.take(), want, "base predicates evaluated on {x:?}");
                obs.tag(if w { "accepted" } else { "rejected" });
            }
            // the parts are unchanged and still mean the same
            for (q, m) in b.done.iter().take(12) {
                let mut want = vec![];
                ensure_eq!(q.contains(&xs[0]), m.has(&xs[0], &mut want), "part {m:?} on {:?}", xs[0]);
                ensure_eq!(b.log.take(), want, "base predicates of a part");
            }
            // a clone outlives everything it was made of
            let c = p.clone();
            drop(p);
            b.done.clear();
            ensure_eq!(c.contains(&xs[0]), m.has(&xs[0], &mut vec![]), "clone");
            Ok(())
        },
    );
    s.check(
        "laws",
        "the predicates differ on the value",
        60_000,
        || (pred(), pred(), pred(), vec(val(), 1..6)),
        |(p, q, r, xs), obs| {
            let mk = |p: &Pred| leaf(p, 0, &Log::default());
            let (a, b, c) = (mk(p), mk(q), mk(r));
            obs.nontrivial(xs.iter().any(|x| p.ok(x) != q.ok(x) || q.ok(x) != r.ok(x)));
            for x in xs {
                let same = |l: P, r: P| l.contains(x) == r.contains(x);
                ensure_eq!(a.contains(x), p.ok(x), "contains");
                ensure!(same(!(a.clone() | b.clone()), !a.clone() & !b.clone()), "de Morgan for union on {x:?}");
                ensure!(same(!(a.clone() & b.clone()), !a.clone() | !b.clone()), "de Morgan for intersection on {x:?}");
                ensure!(same(a.clone() - b.clone(), a.clone() & !b.clone()), "difference on {x:?}");
                ensure!(same(!!a.clone(), a.clone()), "double negation on {x:?}");
                ensure!(same(a.clone() & (b.clone() | c.clone()), (a.clone() & b.clone()) | (a.clone() & c.clone())), "distribution on {x:?}");
                ensure!(same(a.clone() | (b.clone() & c.clone()), (a.clone() | b.clone()) & (a.clone() | c.clone())), "dual distribution on {x:?}");
                ensure!(same(a.clone() | (a.clone() & b.clone()), a.clone()), "absorption on {x:?}");
                ensure!(same(a.combine(&b.combine(&c)), a.combine(&b).combine(&c)), "associativity on {x:?}");
                ensure!(same(a.combine(&P::empty()), a.clone()) && same(P::empty().combine(&a), a.clone()), "neutral on {x:?}");
                ensure!(!P::empty().contains(x), "empty contains {x:?}");
                ensure!(!(a.clone() - a.clone()).contains(x) && (a.clone() | !a.clone()).contains(x), "complement on {x:?}");
                ensure!(same(a.combine_n(&3), a.clone()), "combine_n on {x:?}");
                ensure!(same(a.clone().combine_n_owned(2), a.clone()), "combine_n_owned on {x:?}");
            }
            Ok(())
        },
    );
    s.check(
        "contravariant",
        "the mapping changes the answer",
        60_000,
        || (pred(), fun(), fun(), vec(val(), 1..5), val()),
        |(p, f, g, xs, k), obs| {
            let p2 = p.clone();
            let d: Pd<S> = Pd(Rc::new(move |x: &S| p2.ok(x)));
            let calls = RefCell::new(vec![]);
            let cf = |x: &S| {
                calls.borrow_mut().push(x.clone());
                f.ap(x)
            };
            let with: Pd<S> = d.contramap_with(cf);
            let cons: Pd<S> = d.contramap_const(k.clone());
            let twice: Pd<S> = d.contramap_with(|x: &S| f.ap(x)).contramap_with(|x: &S| g.ap(x));
            let w: Pd<Wrapped> = {
                let p2 = p.clone();
                Pd(Rc::new(move |x: &Wrapped| p2.ok(&x.0)))
            };
            let through: Pd<S> = w.contra_compose(&d);
            for x in xs {
                obs.nontrivial(p.ok(x) != p.ok(&f.ap(x)));
                ensure_eq!((with.0)(x), p.ok(&f.ap(x)), "contramap_with on {x:?}");
                ensure_eq!(calls.take(), vec![x.clone()], "argument of the mapping");
                ensure_eq!((cons.0)(x), p.ok(k), "contramap_const on {x:?}");
                ensure_eq!((twice.0)(x), p.ok(&f.ap(&g.ap(x))), "mapping twice on {x:?}");
                ensure_eq!((through.0)(x), p.ok(x), "contra_compose on {x:?}");
            }
            Ok(())
        },
    );
    s.main()
}
