//! C10: foldable operations agree with the list of elements.
use proptest::prelude::*;
use rustica::datatypes::wrapper::{first::First, last::Last};
use rustica::traits::foldable::{Foldable, FoldableExt};
use std::cell::RefCell;
use vharness::cont::*;
use vharness::user::*;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

fn pair(k: &Keyed) -> (u8, S) {
    (k.key, k.tag.clone())
}

macro_rules! foldable {
    ($s:ident, $name:literal, $C:ident) => {
        $s.check(
            concat!("folds/", $name),
            "at least one element and a function that is not a projection",
            40_000,
            || (md_of(<$C<S> as Repr<S>>::KIND, val(), 40), val(), fun2(), fun2(), pred(), fun()),
            |(m, init, f, g, p, h), obs| {
                type C = $C<S>;
                let x = C::mk(m.clone());
                let v = m.values();
                obs.nontrivial(!v.is_empty() && !matches!(f, Fun2::Const(_)));
                obs.tag_if(v.is_empty(), "no element");
                obs.tag_if(v.len() > 8, "more than 8 elements");
                let left = v.iter().fold(init.clone(), |a, b| f.ap(&a, b));
                ensure_eq!(x.fold_left(init, |a: &S, b: &S| f.ap(a, b)), left, "fold_left");
                let right = v.iter().rev().fold(init.clone(), |a, b| g.ap(b, &a));
                ensure_eq!(x.fold_right(init, |b: &S, a: &S| g.ap(b, a)), right, "fold_right");
                // the order in which elements are visited
                let seen = RefCell::new(vec![]);
                x.fold_left(&(), |_, b: &S| seen.borrow_mut().push(b.clone()));
                ensure_eq!(seen.take(), v, "elements visited from the left");
                x.fold_right(&(), |b: &S, _| seen.borrow_mut().push(b.clone()));
                ensure_eq!(seen.take(), v.iter().rev().cloned().collect::<Vec<_>>(), "elements visited from the right");
                ensure_eq!(x.fold_map(|a: &S| h.ap(a)), v.iter().map(|a| h.ap(a)).collect::<S>(), "fold_map to strings");
                ensure_eq!(x.fold_map(|a: &S| vec![h.ap(a), a.clone()]), v.iter().flat_map(|a| vec![h.ap(a), a.clone()]).collect::<Vec<_>>(), "fold_map to lists");
                ensure_eq!(x.fold_monoid::<S>(), v.concat(), "fold_monoid");
                ensure_eq!(Foldable::length(&x), v.len(), "length");
                ensure_eq!(Foldable::is_empty(&x), v.is_empty(), "is_empty");
                ensure_eq!(FoldableExt::find(&x, |a: &S| p.ok(a)), v.iter().find(|a| p.ok(a)).cloned(), "find");
                ensure_eq!(FoldableExt::all(&x, |a: &S| p.ok(a)), v.iter().all(|a| p.ok(a)), "all");
                ensure_eq!(FoldableExt::any(&x, |a: &S| p.ok(a)), v.iter().any(|a| p.ok(a)), "any");
                ensure_eq!(FoldableExt::contains(&x, init), v.contains(init), "contains {init:?}");
                for a in v.iter().rev().take(2) {
                    ensure!(FoldableExt::contains(&x, a), "contains {a:?}");
                }
                ensure_eq!(FoldableExt::to_vec(&x), v, "to_vec");
                ensure_eq!(FoldableExt::is_sorted(&x), v.windows(2).all(|w| w[0] <= w[1]), "is_sorted");
                let opt = |a: &S| p.ok(a).then(|| h.ap(a));
                ensure_eq!(x.fold_option(opt), v.iter().map(opt).collect::<Option<S>>(), "fold_option");
                ensure_eq!(FoldableExt::reduce(&x, |a: &S, b: &S| f.ap(a, b)), v.iter().cloned().reduce(|a, b| f.ap(&a, &b)), "reduce");
                ensure_eq!(x.fold_map(|a: &S| First(Some(a.clone()))).0, v.first().cloned(), "fold_map to the first");
                ensure_eq!(x.fold_map(|a: &S| Last(p.ok(a).then(|| a.clone()))).0, v.iter().rev().find(|a| p.ok(a)).cloned(), "fold_map to the last");
                ensure_eq!(x.view(), *m, "the container itself");
                Ok(())
            },
        );
        $s.check(
            concat!("queries/", $name),
            "at least one element",
            25_000,
            || {
                let k = <$C<S> as Repr<S>>::KIND;
                (md_of(k, (0u8..4, val()).prop_map(|(key, tag)| Keyed { key, tag }), 12), md_of(k, -9i64..10, 15), any::<bool>())
            },
            |(m, n, sort), obs| {
                let mut n = n.clone();
                if *sort {
                    if let Ok(v) = &mut n.out {
                        v.sort();
                    }
                }
                obs.nontrivial(!m.values().is_empty() && !n.values().is_empty());
                obs.tag_if(*sort && n.values().len() > 1, "sorted input");
                let x: $C<Keyed> = Repr::mk(m.clone());
                let v = m.values();
                // Ties: the first of the equal elements.
                let max = v.iter().fold(None, |b: Option<&Keyed>, a| if b.is_none_or(|b| a > b) { Some(a) } else { b });
                let min = v.iter().fold(None, |b: Option<&Keyed>, a| if b.is_none_or(|b| a < b) { Some(a) } else { b });
                ensure_eq!(FoldableExt::maximum(&x).as_ref().map(pair), max.map(pair), "maximum");
                ensure_eq!(FoldableExt::minimum(&x).as_ref().map(pair), min.map(pair), "minimum");
                ensure_eq!(FoldableExt::is_sorted(&x), v.windows(2).all(|w| w[0].key <= w[1].key), "is_sorted with ties");
                let y: $C<i64> = Repr::mk(n.clone());
                let v = n.values();
                ensure_eq!(FoldableExt::sum_values(&y), v.iter().sum::<i64>(), "sum_values");
                let c: $C<Cat> = Repr::mk(m.map(|k| Cat(k.tag.clone())));
                let all: S = m.values().iter().map(|k| k.tag.as_str()).collect();
                ensure_eq!(FoldableExt::sum_values(&c).0, all, "sum_values of strings");
                ensure_eq!(FoldableExt::product_values(&c).0, all, "product_values of strings");
                if v.iter().map(|a| a.unsigned_abs().max(1) as f64).product::<f64>() < 1e17 {
                    ensure_eq!(FoldableExt::product_values(&y), v.iter().product::<i64>(), "product_values");
                }
                ensure_eq!(FoldableExt::maximum(&y), v.iter().max().cloned(), "maximum of numbers");
                ensure_eq!(FoldableExt::minimum(&y), v.iter().min().cloned(), "minimum of numbers");
                ensure_eq!(FoldableExt::is_sorted(&y), v.windows(2).all(|w| w[0] <= w[1]), "is_sorted of numbers");
                ensure_eq!(FoldableExt::contains(&y, &3), v.contains(&3), "contains of numbers");
                Ok(())
            },
        );
    };
}

fn main() {
    let mut s = Suite::new("C10");
    s.assume("among equal elements, maximum and minimum are pinned to the first one");
    foldable!(s, "Vec", CVec);
    foldable!(s, "Option", COpt);
    foldable!(s, "Result", CRes);
    foldable!(s, "Id", CId);
    foldable!(s, "Validated", CVal);
    foldable!(s, "Choice", CCh);
    foldable!(s, "PersistentVector", CPv);
    foldable!(s, "a list of the user's", CUl);
    foldable!(s, "a log of the user's", CUt);
    s.main()
}
