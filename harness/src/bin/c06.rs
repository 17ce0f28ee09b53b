//! C06: applicative laws and combination of containers.
use rustica::traits::applicative::Applicative;
use rustica::traits::functor::Functor;
use rustica::traits::pure::Pure;
use vharness::cont::*;
use vharness::user::*;
use vharness::ensure_eq;
use vharness::runner::*;
use vharness::sym::*;

fn fr(f: Fun) -> impl Fn(&S) -> S + Clone {
    move |a: &S| f.ap(a)
}
fn fo(f: Fun) -> impl Fn(S) -> S + Clone {
    move |a: S| f.ap(&a)
}

/// All pairs in the order the container documents for `apply`: functions outermost, or (choice)
/// arguments outermost.
fn app<A, B, C>(vals_first: bool, acc: bool, u: &Md<A>, v: &Md<B>, f: impl Fn(&A, &B) -> C) -> Md<C> {
    if vals_first {
        let r = v.ap(u, acc, |b, a| f(a, b));
        let mut log = u.log.clone();
        log.extend(v.log.iter().cloned());
        Md { log, out: r.out }
    } else {
        u.ap(v, acc, f)
    }
}

macro_rules! applicative {
    ($s:ident, $name:literal, $C:ident, $vals_first:expr) => {
        $s.check(
            concat!("apply/", $name),
            "both containers hold a value (laws), or at least one fails (failure order)",
            30_000,
            || {
                let k = <$C<S> as Repr<S>>::KIND;
                (md_of(k, fun(), 4), md_of(k, fun(), 3), md_of(k, val(), 5), fun(), val())
            },
            |(u, v, w, f, y), obs| {
                type C = $C<S>;
                const K: Kind = <$C<S> as Repr<S>>::KIND;
                let acc = K == Kind::Val;
                let vf: bool = $vals_first;
                obs.nontrivial(!w.values().is_empty() && !u.values().is_empty() || !u.is_ok() || !w.is_ok());
                obs.tag_if(!u.is_ok() && !w.is_ok(), "both fail");
                obs.tag_if(u.is_ok() != w.is_ok(), "one fails");
                obs.tag_if(u.values().len() > 1 && w.values().len() > 1, "many by many");
                let want = app(vf, acc, u, w, |f, x| f.ap(x));
                let ur = || Repr::mk(u.map(|f| fr(f.clone())));
                let uo = || Repr::mk(u.map(|f| fo(f.clone())));
                let wc: C = Repr::mk(w.clone());
                // apply
                let cu: $C<_> = ur();
                ensure_eq!(cu.apply(&wc).view(), want, "apply");
                let cu: $C<_> = uo();
                ensure_eq!(cu.apply_owned(wc.clone()).view(), want, "apply_owned");
                // identity
                ensure_eq!(<C as Pure>::pure(&fr(Fun::Id)).apply(&wc).view(), *w, "pure id <*> w");
                ensure_eq!(<C as Pure>::pure(&fo(Fun::Id)).apply_owned(wc.clone()).view(), *w, "pure id <*> w (owned)");
                // homomorphism
                let one = Md::ok(vec![f.ap(y)]);
                ensure_eq!(<C as Pure>::pure(&fr(f.clone())).apply(&<C as Pure>::pure(y)).view(), one, "pure f <*> pure y");
                ensure_eq!(<C as Pure>::pure_owned(fo(f.clone())).apply_owned(<C as Pure>::pure_owned(y.clone())).view(), one, "pure f <*> pure y (owned)");
                // interchange
                fn ev<G: Fn(&S) -> S>(y: S) -> impl Fn(&G) -> S + Clone {
                    move |g: &G| g(&y)
                }
                let cu: $C<_> = ur();
                let l = cu.apply(&<C as Pure>::pure(y));
                let cu2 = ur();
                let r = <C as Pure>::pure(&ev(y.clone())).apply(&cu2);
                ensure_eq!(l.view(), r.view(), "u <*> pure y = pure ($ y) <*> u");
                ensure_eq!(l.view(), u.map(|f| f.ap(y)), "u <*> pure y");
                // composition
                fn comp<G: Fn(&S) -> S + Clone>(v: Fun) -> impl Fn(&G) -> Comp<G> + Clone {
                    let _ = &v;
                    move |g: &G| Comp { outer: v.clone(), inner: g.clone() }
                }
                #[derive(Clone)]
                struct Comp<G> {
                    outer: Fun,
                    inner: G,
                }
                let cv: $C<_> = Repr::mk(v.map(|g| comp(g.clone())));
                let cu: $C<_> = ur();
                let composed = cv.apply(&cu);
                let composed = composed.fmap(|c: &Comp<_>| {
                    let c = c.clone();
                    move |x: &S| c.outer.ap(&(c.inner)(x))
                });
                let l = composed.apply(&wc);
                let cu: $C<_> = ur();
                let cv: $C<_> = Repr::mk(v.map(|g| fr(g.clone())));
                let r = cv.apply(&cu.apply(&wc));
                ensure_eq!(l.view(), r.view(), "pure (.) <*> v <*> u <*> w = v <*> (u <*> w)");
                ensure_eq!(wc.view(), *w, "the operand itself");
                // fmap f = pure f <*>
                ensure_eq!(<C as Pure>::pure(&fr(f.clone())).apply(&wc).view(), wc.fmap(|a: &S| f.ap(a)).view(), "fmap f = pure f <*>");
                Ok(())
            },
        );
        $s.check(
            concat!("lift/", $name),
            "all operands succeed with at least one value and the function is not a projection, or at least one fails",
            40_000,
            || {
                let k = <$C<S> as Repr<S>>::KIND;
                (md_of(k, val(), 5), md_of(k, val(), 4), md_of(k, val(), 4), fun2(), fun3())
            },
            |(a, b, c, f, g), obs| {
                type C = $C<S>;
                const K: Kind = <$C<S> as Repr<S>>::KIND;
                let acc = K == Kind::Val;
                let fails = [a, b, c].iter().filter(|m| !m.is_ok()).count();
                obs.nontrivial(fails > 0 || ![a, b, c].iter().any(|m| m.values().is_empty()));
                obs.tag_if(fails == 1, "one fails");
                obs.tag_if(fails > 1, "several fail");
                obs.tag_if([a, b, c].iter().all(|m| m.values().len() > 1), "many values each");
                let (ca, cb, cc) = (C::mk(a.clone()), C::mk(b.clone()), C::mk(c.clone()));
                let want2 = a.ap(b, acc, |x, y| f.ap(x, y));
                ensure_eq!(C::lift2(|x: &S, y: &S| f.ap(x, y), &ca, &cb).view(), want2, "lift2");
                ensure_eq!(C::ap2(|x: &S, y: &S| f.ap(x, y), &ca, &cb).view(), want2, "ap2");
                ensure_eq!(C::lift2_owned(|x: S, y: S| f.ap(&x, &y), ca.clone(), cb.clone()).view(), want2, "lift2_owned");
                let want3 = a.ap(b, acc, |x, y| (x.clone(), y.clone())).ap(c, acc, |p, z| g.ap(&p.0, &p.1, z));
                ensure_eq!(C::lift3(|x: &S, y: &S, z: &S| g.ap(x, y, z), &ca, &cb, &cc).view(), want3, "lift3");
                ensure_eq!(C::lift3_owned(|x: S, y: S, z: S| g.ap(&x, &y, &z), ca.clone(), cb.clone(), cc.clone()).view(), want3, "lift3_owned");
                // one operand twice
                let twice = a.ap(a, acc, |x, y| f.ap(x, y));
                ensure_eq!(C::lift2(|x: &S, y: &S| f.ap(x, y), &ca, &ca).view(), twice, "lift2 of one operand");
                ensure_eq!(C::ap2(|x: &S, y: &S| f.ap(x, y), &ca, &ca).view(), twice, "ap2 of one operand");
                ensure_eq!(C::lift3(|x: &S, y: &S, z: &S| g.ap(x, y, z), &ca, &cb, &ca).view(), a.ap(b, acc, |x, y| (x.clone(), y.clone())).ap(a, acc, |p, z| g.ap(&p.0, &p.1, z)), "lift3 with one operand twice");
                ensure_eq!(C::sequence_right(&ca, &ca).view(), a.ap(a, acc, |_, y| y.clone()), "sequence_right of one operand");
                ensure_eq!(C::sequence_left(&ca, &ca).view(), a.ap(a, acc, |x, _| x.clone()), "sequence_left of one operand");
                let right = a.ap(b, acc, |_, y| y.clone());
                ensure_eq!(C::sequence_right(&ca, &cb).view(), right, "sequence_right");
                ensure_eq!(C::sequence_right_owned(ca.clone(), cb.clone()).view(), right, "sequence_right_owned");
                let left = a.ap(b, acc, |x, _| x.clone());
                ensure_eq!(C::sequence_left(&ca, &cb).view(), left, "sequence_left");
                ensure_eq!(C::sequence_left_owned(ca.clone(), cb.clone()).view(), left, "sequence_left_owned");
                // Operands of different types.
                let n = b.map(|y| y.len());
                let cn: $C<usize> = Repr::mk(n.clone());
                ensure_eq!(
                    C::lift2(|x: &S, y: &usize| (*y, x.clone()), &ca, &cn).view(),
                    a.ap(&n, acc, |x, y| (*y, x.clone())),
                    "lift2 at different types"
                );
                ensure_eq!(ca.view(), *a, "first operand itself");
                ensure_eq!(cb.view(), *b, "second operand itself");
                ensure_eq!(cc.view(), *c, "third operand itself");
                Ok(())
            },
        );
    };
}

fn main() {
    let mut s = Suite::new("C06");
    s.assume("combining functions are pure; `apply` on a choice is pinned to its documented argument-major order");
    applicative!(s, "Option", COpt, false);
    applicative!(s, "Result", CRes, false);
    applicative!(s, "Maybe", CMay, false);
    applicative!(s, "Either", CEi, false);
    applicative!(s, "Validated", CVal, false);
    applicative!(s, "Choice", CCh, true);
    applicative!(s, "Vec", CVec, false);
    applicative!(s, "Id", CId, false);
    applicative!(s, "Writer", CWr, false);
    applicative!(s, "a list of the user's", CUl, false);
    applicative!(s, "a log of the user's", CUt, false);
    s.main()
}
