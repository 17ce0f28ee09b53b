//! C07: monad laws.
use rustica::traits::functor::Functor;
use rustica::traits::monad::Monad;
use rustica::traits::pure::Pure;
use std::cell::RefCell;
use vharness::cont::*;
use vharness::user::*;
use vharness::ensure_eq;
use vharness::runner::*;
use vharness::sym::*;

macro_rules! monad {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("laws/", $name),
            "the container holds a value, and the first function is not pure on it or the second is not on one of its results",
            60_000,
            || (md(<$C<S> as Repr<S>>::KIND), kl(), kl(), fun(), val()),
            |(m, k, l, f, y), obs| {
                type C = $C<S>;
                const K: Kind = <$C<S> as Repr<S>>::KIND;
                let x = C::mk(m.clone());
                let km = |a: &S| kl_md(K, k, a);
                let lm = |a: &S| kl_md(K, l, a);
                let kc = |a: &S| C::mk(km(a));
                let lc = |a: &S| C::mk(lm(a));
                let mid = m.bind(km);
                let want = mid.bind(lm);
                obs.nontrivial(!m.values().is_empty());
                obs.tag_if(!m.is_ok(), "fails before");
                obs.tag_if(m.is_ok() && !mid.is_ok(), "first step fails");
                obs.tag_if(mid.is_ok() && !want.is_ok(), "second step fails");
                obs.tag_if(mid.values().len() > 8, "more than 8 results");
                obs.tag_if(m.values().iter().any(|a| km(a).values().is_empty()) && !mid.values().is_empty(), "some results empty");
                // left identity
                ensure_eq!(<C as Pure>::pure(y).bind(kc).view(), km(y), "pure y >>= k");
                ensure_eq!(<C as Pure>::pure_owned(y.clone()).bind_owned(|a: S| kc(&a)).view(), km(y), "pure y >>= k (owned)");
                // right identity
                ensure_eq!(x.bind(|a: &S| <C as Pure>::pure(a)).view(), *m, "m >>= pure");
                ensure_eq!(x.clone().bind_owned(|a: S| <C as Pure>::pure_owned(a)).view(), *m, "m >>= pure (owned)");
                // sequencing, and how often and in which order the steps ran
                let calls = RefCell::new(vec![]);
                let b = x.bind(|a: &S| {
                    calls.borrow_mut().push(a.clone());
                    kc(a)
                });
                ensure_eq!(b.view(), mid, "m >>= k");
                ensure_eq!(calls.take(), m.values(), "arguments of k, in order");
                let b2 = x.clone().bind_owned(|a: S| {
                    calls.borrow_mut().push(a.clone());
                    kc(&a)
                });
                ensure_eq!(b2.view(), mid, "m >>= k (owned)");
                ensure_eq!(calls.take(), m.values(), "arguments of k, in order (owned)");
                ensure_eq!(x.flat_map(kc).view(), mid, "flat_map");
                ensure_eq!(x.clone().flat_map_owned(|a: S| kc(&a)).view(), mid, "flat_map_owned");
                // associativity
                let left = b.bind(lc);
                let right = x.bind(|a: &S| kc(a).bind(lc));
                ensure_eq!(left.view(), want, "(m >>= k) >>= l");
                ensure_eq!(right.view(), want, "m >>= (k >=> l)");
                let left = b2.bind_owned(|a: S| lc(&a));
                let right = x.clone().bind_owned(|a: S| kc(&a).bind_owned(|a: S| lc(&a)));
                ensure_eq!(left.view(), want, "(m >>= k) >>= l (owned)");
                ensure_eq!(right.view(), want, "m >>= (k >=> l) (owned)");
                // mapping
                let mapped = m.map(|a| f.ap(a));
                ensure_eq!(x.map_and_pure(|a: &S| f.ap(a)).view(), mapped, "map_and_pure");
                ensure_eq!(x.bind(|a: &S| <C as Pure>::pure(&f.ap(a))).view(), mapped, "m >>= pure . f");
                ensure_eq!(x.fmap(|a: &S| f.ap(a)).view(), mapped, "fmap f m");
                // a step of another type
                ensure_eq!(x.bind(|a: &S| kc(a).fmap(|b: &S| b.len())).view(), mid.map(|b| b.len()), "bind to another type");
                ensure_eq!(x.view(), *m, "the container itself");
                Ok(())
            },
        );
        $s.check(
            concat!("join/", $name),
            "the outer container holds an inner one",
            30_000,
            || {
                let k = <$C<S> as Repr<S>>::KIND;
                (md_of(k, md_of(k, val(), 5), 4), kl())
            },
            |(m, l), obs| {
                type C = $C<S>;
                const K: Kind = <$C<S> as Repr<S>>::KIND;
                obs.nontrivial(!m.values().is_empty());
                obs.tag_if(m.values().iter().any(|i| !i.is_ok()), "inner fails");
                obs.tag_if(m.values().iter().any(|i| i.values().is_empty()), "inner empty");
                let want = m.bind(|i| i.clone());
                let x: $C<C> = Repr::mk(m.map(|i| C::mk(i.clone())));
                ensure_eq!(x.join::<S>().view(), want, "join");
                ensure_eq!(x.clone().join_owned::<S>().view(), want, "join_owned");
                ensure_eq!(x.bind(|i: &C| i.clone()).view(), want, "bind id");
                ensure_eq!(x.clone().bind_owned(|i: C| i).view(), want, "bind id (owned)");
                // join . fmap k = bind k, on the joined values
                let flat = C::mk(want.clone());
                let kc = |a: &S| C::mk(kl_md(K, l, a));
                let want = want.bind(|a| kl_md(K, l, a));
                let nested: $C<C> = flat.fmap(|a: &S| kc(a));
                ensure_eq!(nested.join::<S>().view(), want, "join . fmap k");
                let nested: $C<C> = flat.clone().fmap_owned(|a: S| kc(&a));
                ensure_eq!(nested.join_owned::<S>().view(), want, "join . fmap k (owned)");
                Ok(())
            },
        );
        $s.check(
            concat!("try_bind/", $name),
            "a step that fails and falls back to the default",
            20_000,
            || (md(<$C<S> as Repr<S>>::KIND), kl(), pred(), val()),
            |(m, k, p, d), obs| {
                type C = $C<S>;
                const K: Kind = <$C<S> as Repr<S>>::KIND;
                let x = C::mk(m.clone());
                obs.nontrivial(m.values().iter().any(|a| !p.ok(a)));
                obs.tag_if(m.values().iter().any(|a| p.ok(a)), "some steps succeed");
                let step = |a: &S| if p.ok(a) { Ok(C::mk(kl_md(K, k, a))) } else { Err(a.clone()) };
                let want = m.bind(|a| if p.ok(a) { kl_md(K, k, a) } else { Md::ok(vec![d.clone()]) });
                ensure_eq!(x.try_bind(d, step).view(), want, "try_bind");
                Ok(())
            },
        );
    };
}

fn main() {
    let mut s = Suite::new("C07");
    s.assume("steps are pure functions of their argument");
    monad!(s, "Option", COpt);
    monad!(s, "Result", CRes);
    monad!(s, "Maybe", CMay);
    monad!(s, "Either", CEi);
    monad!(s, "Validated", CVal);
    monad!(s, "Choice", CCh);
    monad!(s, "Id", CId);
    monad!(s, "Writer", CWr);
    monad!(s, "a list of the user's", CUl);
    monad!(s, "a log of the user's", CUt);
    s.main()
}
