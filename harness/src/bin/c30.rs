//! C30: two-sided mapping acts independently on each side.
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::hkt::BinaryHKT;
use std::cell::RefCell;
use vharness::cont::*;
use vharness::ensure_eq;
use vharness::runner::*;
use vharness::sym::*;

/// Model of mapping the success side with f and every error with g.
fn bi(m: &Md<S>, f: &Fun, g: &Fun) -> Md<S> {
    Md { log: vec![], out: m.out.as_ref().map(|v| v.iter().map(|a| f.ap(a)).collect()).map_err(|e| e.iter().map(|a| g.ap(a)).collect()) }
}

macro_rules! bifunctor {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            $name,
            "the function of the occupied side is not the identity",
            120_000,
            || (md(<$C<S> as Repr<S>>::KIND), fun(), fun(), fun(), fun()),
            |(m, f, g, f2, g2), obs| {
                type C = $C<S>;
                let x = C::mk(m.clone());
                obs.nontrivial(if m.is_ok() { !f.is_id() } else { !g.is_id() });
                obs.tag(if m.is_ok() { "success side" } else { "error side" });
                obs.tag_if(m.out.as_ref().err().is_some_and(|e| e.len() > 8), "more than 8 errors");
                let id = Fun::Id;
                let (cf, cg) = (|a: &S| f.ap(a), |e: &S| g.ap(e));
                ensure_eq!(x.first(cf).view(), bi(m, f, &id), "first");
                ensure_eq!(x.second(cg).view(), bi(m, &id, g), "second");
                ensure_eq!(x.map_second(cg).view(), bi(m, &id, g), "map_second");
                ensure_eq!(x.clone().map_second_owned(|e: S| g.ap(&e)).view(), bi(m, &id, g), "map_second_owned");
                let calls = RefCell::new((vec![], vec![]));
                let both = x.bimap(
                    |a: &S| {
                        calls.borrow_mut().0.push(a.clone());
                        f.ap(a)
                    },
                    |e: &S| {
                        calls.borrow_mut().1.push(e.clone());
                        g.ap(e)
                    },
                );
                ensure_eq!(both.view(), bi(m, f, g), "bimap");
                ensure_eq!(calls.take(), (m.values().to_vec(), m.out.clone().err().unwrap_or_default()), "arguments of both functions");
                ensure_eq!(x.bimap(|a: &S| a.clone(), |e: &S| e.clone()).view(), *m, "bimap id id");
                ensure_eq!(x.first(|a: &S| a.clone()).view(), *m, "first id");
                ensure_eq!(x.second(|a: &S| a.clone()).view(), *m, "second id");
                ensure_eq!(x.first(cf).second(cg).view(), both.view(), "second g . first f");
                ensure_eq!(x.second(cg).first(cf).view(), both.view(), "first f . second g");
                let twice = both.bimap(|a: &S| f2.ap(a), |e: &S| g2.ap(e));
                ensure_eq!(twice.view(), x.bimap(|a: &S| f2.ap(&f.ap(a)), |e: &S| g2.ap(&g.ap(e))).view(), "bimap composes");
                ensure_eq!(twice.view(), bi(&bi(m, f, g), f2, g2), "bimap twice");
                // other types
                let len = x.bimap(|a: &S| a.len(), |e: &S| e.clone());
                ensure_eq!(len.view(), m.map(|a| a.len()), "bimap to another type");
                ensure_eq!(x.view(), *m, "the container itself");
                Ok(())
            },
        );
    };
}

fn main() {
    let mut s = Suite::new("C30");
    s.assume("mapped functions are pure");
    bifunctor!(s, "Either", CEi);
    bifunctor!(s, "Validated", CVal);
    s.main()
}
