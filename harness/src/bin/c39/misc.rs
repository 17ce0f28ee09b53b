//! Errors, conversions, utilities and function categories.
use super::*;
use rustica::category::function_category::FunctionCategory as FC;
use rustica::error as er;
use rustica::error::{ComposableError, ErrorPipeline};
use rustica::traits::arrow::Arrow;
use rustica::traits::category::Category;
use rustica::utils::{categorical_utils as cu, error_utils as eu, hkt_utils as hu, transform_utils as tu};

fn utilities<A: El, B: El, E: El>(i: &In) -> Seen {
    let mut o: Seen = vec![];
    let k = i.k;
    let (x, y, e) = (A::of(i.es[0]), B::of(*i.es.last().unwrap()), E::of(i.es[i.es.len() / 2]));
    let ok: Vec<Result<A, E>> = i.xs.iter().map(|c| Ok(A::of(*c))).collect();
    let some: Vec<Result<A, E>> = i.x::<A>().into_iter().map(|a| if a.holds(k) { Ok(a) } else { Err(a.to(k)) }).collect();
    let check = |a: A| if a.holds(k) { Ok(a.to::<B>(k)) } else { Err(a.to::<E>(k)) };
    let valid = |a: A| if a.holds(k) { Validated::Valid(a.to::<B>(k)) } else { Validated::<E, B>::Invalid([a.to::<E>(k), a.to::<E>(1)].into_iter().collect()) };
    // the errors of a validation that failed at least twice
    let inv: Validated<E, A> = val(vec![], &i.e::<E>(), false);
    see!(o,
        "sequence" => (eu::sequence(ok.clone()), eu::sequence(some.clone())), "sequence_with_error" => eu::sequence_with_error::<_, A, E>(some.clone()), "traverse" => eu::traverse(i.x::<A>(), check), "traverse_validated" => er_val(eu::traverse_validated(i.x::<A>(), valid_result(check))),
        "sequence_results" => cu::sequence_results(some.clone()), "sequence_options" => cu::sequence_options(some.iter().cloned().map(|r| r.ok()).collect()),
        "map" => (cu::map_option(Some(x.clone()), |a: A| a.to::<B>(k)), cu::map_result(some_first(&some, &x), |a: A| a.to::<B>(k)), hu::map_result(some_first(&some, &x), |a: A| a.to::<B>(k)), cu::bimap_result(some_first(&some, &x), |a: A| a.to::<B>(k), |e: E| e.to::<A>(k))),
        "flat_map" => (cu::flat_map_option(Some(x.clone()), |a: A| a.holds(k).then(|| a.to::<B>(k))), cu::flat_map_result(some_first(&some, &x), check)),
        "compose" => (cu::compose(|b: B| b.to::<E>(k), |a: A| a.to::<B>(k))(x.clone()), cu::pipe(|a: A| a.to::<B>(k), |b: B| b.to::<E>(k))(x.clone()), cu::flip(|a: A, b: B| a.with::<B, E>(&b, k))(y.clone(), x.clone())),
        "filter_map" => (cu::filter_map_collect(i.x::<A>(), |a: A| a.holds(k).then(|| a.to::<B>(k))), hu::filter_map(i.x::<A>(), |a: &A| a.holds(k), |a: A| a.to::<B>(k))),
        "zip_with" => hu::zip_with(i.x::<A>(), i.y::<B>(), |a: A, b: B| a.with::<B, E>(&b, k)), "fan_out" => hu::fan_out(x.clone(), functions_owned::<A, B>(i.xs.len())), "lift_option" => hu::lift_option(|a: A| a.to::<B>(k))(Some(x.clone())),
        "transform_all" => tu::transform_all(&[Some(x.clone()), None], |a: &A| a.to::<B>(k)), "transform_chain" => tu::transform_chain(Some(Some(x.clone())), |a: &A| a.to::<B>(k)),
        "pipeline" => tu::Pipeline::new(Some(x.clone())).map(|a: &A| a.to::<B>(k)).map_owned(|b: B| b.to::<E>(1)).extract(),
        // conversions
        "either" => (er::either_to_result(ei(vec![x.clone()], &[e.clone()], i.ok & 1 == 0)), er::result_to_either(some_first(&some, &x)), er::either_to_validated(ei(vec![x.clone()], &[e.clone()], i.ok & 1 == 0))),
        "validated" => (er::result_to_validated(some_first(&some, &x)), er::validated_to_result(inv.clone()), er::validated_to_either(inv.clone()), er::split_validated_errors(inv.clone()), er::collect_errors(i.e::<E>())),
        "composable" => (er::core_to_composable(e.clone()), er::composable_to_core(ComposableError::with_code(e.clone(), 7)), er::wrap_in_composable_result(some_first(&some, &x)), er::flatten_composable_result(er::wrap_in_composable_result(some_first(&some, &x)))),
    );
    // contexts
    let ctx = ComposableError::new(e.clone()).with_context("one").with_contexts(vec!["two".to_string(), "three".to_string()]).map_core(|e| e.to::<B>(k));
    see!(o, "error" => (&ctx, ctx.context(), ctx.core_error(), ctx.error_code()), "with_context" => er::with_context_result(some_first(&some, &x), "here"));
    let pipe = ErrorPipeline::new(some_first(&some, &x)).with_context("first").map(|a: A| a.to::<B>(k)).with_context("second");
    see!(o,
        "error pipeline" => pipe.and_then(|b: B| if b.holds(k) { Ok(b.to::<A>(1)) } else { Err(E::of(k)) }).with_context("third").finish_without_box(),
        "error pipeline recovers" => ErrorPipeline::new(some_first(&some, &x)).recover(|e: E| if e.holds(k) { Ok(e.to::<A>(k)) } else { Err(e) }).map_error(|e: E| e.to::<B>(k)).finish_without_box(),
    );
    // arrows
    let (f, g) = (FC::arrow(move |a: A| a.to::<B>(k)), FC::arrow(move |b: B| b.to::<E>(1)));
    let h = FC::arrow(move |a: A| a.to::<A>(k));
    see!(o,
        "compose morphisms" => FC::compose_morphisms(&g, &f)(x.clone()), "first" => FC::first::<A, B, E>(&f)((x.clone(), e.clone())), "second" => FC::second::<A, B, E>(&f)((e.clone(), x.clone())),
        "split" => FC::split(&f, &h)(x.clone()), "combine morphisms" => FC::combine_morphisms(&f, &g)((x.clone(), y.clone())), "both" => FC::both(move |a: A| a.to::<B>(k))((x.clone(), x.to(1))),
        "when" => FC::when(move |a: &A| a.holds(k), move |a: A| a.to::<A>(k))(x.clone()), "then_if" => FC::then_if(&h, &h, move |a: &A| a.holds(1))(x.clone()), "sequence of functions" => FC::sequence(functions_owned::<A, A>(i.xs.len()))(x.clone()),
        "identity" => FC::identity_morphism::<A>()(x.clone()),
    );
    let _ = valid;
    o
}
fn some_first<A: El, E: El>(v: &[Result<A, E>], x: &A) -> Result<A, E> {
    v.first().cloned().unwrap_or(Ok(x.clone()))
}
fn valid_result<A, B, E>(f: impl Fn(A) -> Result<B, E>) -> impl Fn(A) -> Result<B, E> {
    f
}
fn er_val<A: Debug, E: Debug>(v: Validated<E, Vec<A>>) -> String {
    format!("{v:?}")
}

pub fn checks(s: &mut Suite, input: fn(usize) -> BoxedStrategy<In>) {
    s.check("utilities", "several values are sequenced", 3_000, move || input(12), |i, obs| {
        obs.nontrivial(i.xs.len() > 1);
        triples!(i, utilities: (Unit Byte Shared) (Byte Unit Flag) (Token Token Token) (Flag Boxed Unit) (Big Word Byte) (Wide Big Boxed) (Shared Wide Big));
        Ok(())
    });
}
