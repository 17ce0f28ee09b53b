//! C11: choice between alternatives prefers the first success.
use proptest::prelude::*;
use rustica::traits::alternative::Alternative;
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use vharness::cont::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

fn success<A>(m: &Md<A>) -> bool {
    m.is_ok() && !m.values().is_empty()
}
fn same<A: PartialEq>(m: &Md<A>, a: &Md<A>) -> bool {
    m == a
}

/// What two failures combine to.
#[derive(Clone, Copy, PartialEq)]
enum Both {
    /// one of the two failures
    OneOf,
    /// all errors of both, in order
    All,
}

/// `alt`/`mplus` on models: the first success, or all candidates in order.
fn plus(concat: bool, both: Both, a: &Md<S>, b: &Md<S>) -> Vec<Md<S>> {
    if concat {
        return vec![Md::ok(a.values().iter().chain(b.values()).cloned().collect())];
    }
    if success(a) {
        vec![a.clone()]
    } else if success(b) {
        vec![b.clone()]
    } else {
        match (&a.out, &b.out) {
            (Err(x), Err(y)) if both == Both::All => vec![Md::err(x.iter().chain(y).cloned().collect())],
            _ => vec![a.clone(), b.clone()],
        }
    }
}

macro_rules! plus_laws {
    ($s:ident, $name:expr, $C:ident, $concat:expr, $both:expr, $empty:expr, $op:expr, $opo:expr) => {
        $s.check(
            $name,
            "at least one operand succeeds and at least one of the others fails or also succeeds differently",
            50_000,
            || {
                let k = <$C<S> as Repr<S>>::KIND;
                (md(k), md(k), md(k))
            },
            |(a, b, c), obs| {
                type C = $C<S>;
                let op: fn(&C, &C) -> C = $op;
                let opo: fn(C, C) -> C = $opo;
                let (x, y, z) = (C::mk(a.clone()), C::mk(b.clone()), C::mk(c.clone()));
                obs.nontrivial([a, b, c].iter().any(|m| success(m)) && (a != b || b != c));
                obs.tag_if(!success(a) && success(b), "second wins");
                obs.tag_if(!success(a) && !success(b), "both fail");
                obs.tag_if(success(a) && success(b), "both succeed");
                let xy = op(&x, &y);
                let want = plus($concat, $both, a, b);
                ensure!(want.iter().any(|w| same(w, &xy.view())), "a + b: got {:?}, expected {:?}", xy.view(), want);
                ensure_eq!(opo(x.clone(), y.clone()).view(), xy.view(), "consuming form");
                ensure_eq!(op(&xy, &z).view(), op(&x, &op(&y, &z)).view(), "(a + b) + c = a + (b + c)");
                let e: C = $empty;
                ensure!(!success(&e.view()), "the empty alternative is a failure, got {:?}", e.view());
                if success(a) || $concat {
                    ensure_eq!(op(&e, &x).view(), *a, "empty + a");
                    ensure_eq!(op(&x, &e).view(), *a, "a + empty");
                    ensure_eq!(opo(e.clone(), x.clone()).view(), *a, "empty + a (owned)");
                    ensure_eq!(opo(x.clone(), e.clone()).view(), *a, "a + empty (owned)");
                } else {
                    ensure!(!success(&op(&e, &x).view()), "empty + failure");
                    ensure!(!success(&op(&x, &e).view()), "failure + empty");
                    if matches!(<C as Repr<S>>::KIND, Kind::Opt) || $both == Both::All {
                        ensure_eq!(op(&e, &x).view(), *a, "empty + failure");
                        ensure_eq!(op(&x, &e).view(), *a, "failure + empty");
                    }
                }
                let xx = op(&x, &x);
                ensure!(plus($concat, $both, a, a).iter().any(|w| same(w, &xx.view())), "a + a: got {:?}", xx.view());
                ensure_eq!(opo(x.clone(), x.clone()).view(), xx.view(), "a + a, consuming form");
                ensure_eq!(x.view(), *a, "the first operand itself");
                ensure_eq!(y.view(), *b, "the second operand itself");
                Ok(())
            },
        );
    };
}

macro_rules! alternative {
    ($s:ident, $name:literal, $C:ident, $concat:expr, $many:expr) => {
        plus_laws!($s, concat!("alt/", $name), $C, $concat, Both::OneOf, <C as Alternative>::empty_alt::<S>(), |a, b| a.alt(b), |a, b| a.alt(&b));
        $s.check(
            concat!("guard-many/", $name),
            "a container holding a value",
            20_000,
            || (md(<$C<S> as Repr<S>>::KIND), any::<bool>()),
            |(m, cond), obs| {
                type C = $C<S>;
                let x = C::mk(m.clone());
                obs.nontrivial(success(m));
                obs.tag_if(*cond, "guard passes");
                let g = <C as Alternative>::guard(*cond);
                let v = g.view();
                if *cond {
                    ensure_eq!(v, Md::ok(vec![()]), "guard(true)");
                } else {
                    ensure!(v.values().is_empty(), "guard(false) succeeded: {v:?}");
                }
                let many: fn(&[S]) -> Vec<Vec<S>> = $many;
                let got = x.many().view();
                if success(m) {
                    ensure_eq!(got, Md::ok(many(m.values())), "many of a success");
                } else {
                    ensure!(got.values().is_empty(), "many of a failure succeeded: {got:?}");
                }
                Ok(())
            },
        );
    };
}

macro_rules! monad_plus {
    ($s:ident, $name:literal, $C:ident, $concat:expr, $both:expr) => {
        plus_laws!($s, concat!("mplus/", $name), $C, $concat, $both, <C as MonadPlus>::mzero::<S>(), |a, b| a.mplus(b), |a, b| a.mplus_owned(b));
        $s.check(
            concat!("mzero/", $name),
            "a container holding a value",
            15_000,
            || (md(<$C<S> as Repr<S>>::KIND), kl()),
            |(m, k), obs| {
                type C = $C<S>;
                const K: Kind = <$C<S> as Repr<S>>::KIND;
                obs.nontrivial(success(m));
                let zero = <C as MonadPlus>::mzero::<S>();
                let kc = |a: &S| C::mk(kl_md(K, k, a));
                ensure_eq!(zero.bind(kc).view(), zero.view(), "mzero >>= k");
                ensure_eq!(zero.clone().bind_owned(|a: S| kc(&a)).view(), zero.view(), "mzero >>= k (owned)");
                let x = C::mk(m.clone());
                let r = x.bind(|_: &S| <C as MonadPlus>::mzero::<S>());
                ensure!(r.view().values().is_empty(), "m >>= mzero: {:?}", r.view());
                if $concat {
                    let y = C::mk(m.map(|a| format!("{a}'")));
                    ensure_eq!(x.mplus(&y).bind(kc).view(), x.bind(kc).mplus(&y.bind(kc)).view(), "left distribution");
                }
                Ok(())
            },
        );
    };
}

fn main() {
    let mut s = Suite::new("C11");
    s.assume("when both operands fail, the combination is one of the two failures (all errors for validated `mplus`)");
    alternative!(s, "Option", COpt, false, |v| vec![v.to_vec()]);
    alternative!(s, "Maybe", CMay, false, |v| vec![v.to_vec()]);
    alternative!(s, "Either", CEi, false, |v| vec![v.to_vec()]);
    alternative!(s, "Validated", CVal, false, |v| vec![v.to_vec()]);
    alternative!(s, "Vec", CVec, false, |v| vec![v.to_vec()]);
    alternative!(s, "Choice", CCh, true, |v| vec![vec![v[0].clone()]]);
    monad_plus!(s, "Option", COpt, false, Both::OneOf);
    monad_plus!(s, "Result", CRes, false, Both::OneOf);
    monad_plus!(s, "Maybe", CMay, false, Both::OneOf);
    monad_plus!(s, "Either", CEi, false, Both::OneOf);
    monad_plus!(s, "Validated", CVal, false, Both::All);
    monad_plus!(s, "Choice", CCh, true, Both::All);
    s.main()
}
