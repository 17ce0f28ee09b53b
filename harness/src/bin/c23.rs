//! C23: error contexts.
#![allow(deprecated)]
use proptest::collection::vec;
use proptest::prelude::*;
use rustica::context;
use rustica::error::{
    accumulate_context, context_accumulator, context_fn, error_pipeline, extract_context, format_error_chain, with_context, with_context_result, AppError, ComposableError, ErrorContext, ErrorPipeline, IntoErrorContext,
    LazyContext,
};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use vharness::runner::*;
use vharness::sym::*;
use vharness::{ensure, ensure_eq};

/// The ways to give a context.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Ctx {
    Owned(S),
    Str(S),
    Value(S),
    Lazy(S),
    Macro(S, u8),
}
impl Ctx {
    fn text(&self) -> S {
        match self {
            Ctx::Owned(s) | Ctx::Str(s) | Ctx::Value(s) | Ctx::Lazy(s) => s.clone(),
            Ctx::Macro(s, n) => format!("{s}: {n:>3}"),
        }
    }
    fn is_lazy(&self) -> bool {
        matches!(self, Ctx::Lazy(_) | Ctx::Macro(..))
    }
}
fn ctx() -> BoxedStrategy<Ctx> {
    prop_oneof![
        val().prop_map(Ctx::Owned),
        val().prop_map(Ctx::Str),
        val().prop_map(Ctx::Value),
        val().prop_map(Ctx::Lazy),
        (val(), any::<u8>()).prop_map(|(s, n)| Ctx::Macro(s, n)),
    ]
    .boxed()
}
/// Text that reports being rendered.
struct Watched<'a>(&'a S, &'a Cell<usize>);
impl std::fmt::Display for Watched<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.1.set(self.1.get() + 1);
        f.write_str(self.0)
    }
}
/// Apply a function to the context in its own type; lazy ones count their evaluations.
macro_rules! give {
    ($c:expr, $n:expr, |$x:ident| $body:expr) => {{
        let n: &Cell<usize> = $n;
        match $c {
            Ctx::Owned(s) => {
                let $x = s.clone();
                $body
            }
            Ctx::Str(s) => {
                let $x = s.as_str();
                $body
            }
            Ctx::Value(s) => {
                let $x = ErrorContext::new(s.as_str());
                $body
            }
            Ctx::Lazy(s) => {
                let $x = LazyContext::new(|| {
                    n.set(n.get() + 1);
                    s.clone()
                });
                $body
            }
            Ctx::Macro(s, k) => {
                let $x = context!("{}: {:>3}", Watched(s, n), k);
                $body
            }
        }
    }};
}

/// The reference: contexts in the order they were added.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Me {
    ctxs: Vec<S>,
    core: S,
    code: Option<u32>,
}
impl Me {
    fn recent_first(&self) -> Vec<S> {
        self.ctxs.iter().rev().cloned().collect()
    }
    fn chain(&self) -> S {
        let mut parts = self.recent_first();
        parts.push(self.core.clone());
        let mut r = parts.join(" -> ");
        if let Some(c) = self.code {
            r += &format!(" (code: {c})");
        }
        r
    }
}
fn holds(e: &ComposableError<S>, m: &Me) -> Res {
    ensure_eq!(e.context(), m.recent_first(), "context");
    ensure_eq!(e.context_iter().cloned().collect::<Vec<_>>(), m.recent_first(), "context_iter");
    ensure_eq!(e.context_iter().rev().cloned().collect::<Vec<_>>(), m.ctxs, "context_iter from the back");
    ensure_eq!(e.context_iter().len(), m.ctxs.len(), "context_iter length");
    ensure_eq!(extract_context(e), m.recent_first(), "extract_context");
    ensure_eq!(e.core_error(), &m.core, "core_error");
    ensure_eq!(e.core_error, m.core, "core error field");
    ensure_eq!(e.error_code(), m.code, "error_code");
    ensure_eq!(e.error_code, m.code, "error code field");
    ensure_eq!(e.error_chain(), m.chain(), "error_chain");
    ensure_eq!(format_error_chain(e), m.chain(), "format_error_chain");
    ensure_eq!(e.to_string(), m.chain(), "Display");
    let dynamic: Box<dyn std::error::Error> = Box::new(e.clone());
    ensure_eq!(dynamic.to_string(), m.chain(), "Display as a dynamic error");
    Ok(())
}
/// The error built plainly from a model.
fn plain(m: &Me) -> ComposableError<S> {
    let mut e = ComposableError::new(m.core.clone());
    for c in &m.ctxs {
        e = e.with_context(c.clone());
    }
    e.error_code = m.code;
    e
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Start {
    New,
    Code(u32),
    From,
    Helper(Ctx),
    Accumulate(Vec<S>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    Add(Ctx),
    Many(Vec<S>),
    Code(u32),
    Map(Fun),
    Clone,
    Set(Option<u32>),
}
fn ops(max: usize) -> BoxedStrategy<Vec<Op>> {
    let op = prop_oneof![
        6 => ctx().prop_map(Op::Add),
        2 => vals(6).prop_map(Op::Many),
        1 => code().prop_map(Op::Code),
        2 => fun().prop_map(Op::Map),
        1 => Just(Op::Clone),
        1 => prop::option::of(code()).prop_map(Op::Set),
    ];
    vec(op, 0..max).boxed()
}
fn start() -> BoxedStrategy<Start> {
    prop_oneof![
        2 => Just(Start::New),
        2 => code().prop_map(Start::Code),
        1 => Just(Start::From),
        1 => ctx().prop_map(Start::Helper),
        1 => vals(7).prop_map(Start::Accumulate),
    ]
    .boxed()
}
fn history(core: &S, st: &Start, ops: &[Op], evals: &Cell<usize>) -> (ComposableError<S>, Me) {
    let mut m = Me { ctxs: vec![], core: core.clone(), code: None };
    let mut e = match st {
        Start::New => ComposableError::new(core.clone()),
        Start::Code(c) => {
            m.code = Some(*c);
            ComposableError::with_code(core.clone(), *c)
        }
        Start::From => core.clone().into(),
        Start::Helper(c) => {
            m.ctxs.push(c.text());
            give!(c, evals, |x| with_context(core.clone(), x))
        }
        Start::Accumulate(cs) => {
            m.ctxs = cs.clone();
            accumulate_context(core.clone(), cs.clone())
        }
    };
    for op in ops {
        e = match op {
            Op::Add(c) => {
                m.ctxs.push(c.text());
                give!(c, evals, |x| e.with_context(x))
            }
            Op::Many(cs) => {
                m.ctxs.extend(cs.iter().cloned());
                e.with_contexts(cs.clone())
            }
            Op::Code(c) => {
                m.code = Some(*c);
                e.set_code(*c)
            }
            Op::Map(f) => {
                m.core = f.ap(&m.core);
                e.map_core(|c| f.ap(&c))
            }
            Op::Clone => {
                let c = e.clone();
                drop(e);
                c
            }
            Op::Set(c) => {
                m.code = *c;
                e.error_code = *c;
                e
            }
        }
    }
    (e, m)
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Step {
    Context(Ctx),
    Map(Fun),
    Chain(Pred, Fun),
    MapError(Fun),
    Recover(Pred, Fun),
}
fn steps() -> BoxedStrategy<Vec<Step>> {
    let step = prop_oneof![
        5 => ctx().prop_map(Step::Context),
        2 => fun().prop_map(Step::Map),
        4 => (pred(), fun()).prop_map(|(p, f)| Step::Chain(p, f)),
        2 => fun().prop_map(Step::MapError),
        3 => (pred(), fun()).prop_map(|(p, f)| Step::Recover(p, f)),
    ];
    list(step.boxed(), 14, 60)
}
fn gate(p: &Pred, f: &Fun, x: &S) -> Result<S, S> {
    if p.ok(x) {
        Ok(f.ap(x))
    } else {
        Err(f.ap(x))
    }
}

/// Error codes: nothing, the extremes, and everything between.
fn code() -> BoxedStrategy<u32> {
    prop_oneof![3 => prop::sample::select(vec![0, 1, 404, i32::MAX as u32, u32::MAX - 1, u32::MAX]), 1 => any::<u32>()].boxed()
}

fn main() {
    let mut s = Suite::new("C23");
    s.assume("a recovered pipeline starts again without contexts; contexts of a failed recovery stay");
    s.check(
        "histories",
        "at least two contexts, added in at least two steps",
        100_000,
        || (val(), start(), ops(12)),
        |(core, st, ops), obs| {
            let evals = Cell::new(0);
            let (e, m) = history(core, st, ops, &evals);
            let adding = ops.iter().filter(|o| matches!(o, Op::Add(_) | Op::Many(_))).count() + !matches!(st, Start::New | Start::Code(_) | Start::From) as usize;
            obs.nontrivial(m.ctxs.len() > 1 && adding > 1);
            obs.tag_if(m.ctxs.len() > 4, "more than four contexts");
            obs.tag_if(m.code.is_some(), "with a code");
            holds(&e, &m)?;
            let lazies = ops.iter().filter(|o| matches!(o, Op::Add(c) if c.is_lazy())).count() + matches!(st, Start::Helper(c) if c.is_lazy()) as usize;
            ensure_eq!(evals.get(), lazies, "evaluations of lazy contexts");
            ensure_eq!(e, plain(&m), "the error built plainly");
            // the error is unchanged by having been read, and its parts come apart again
            let mapped = e.clone().map_core(|c| c.len());
            ensure_eq!(*mapped.core_error(), m.core.len(), "map_core to another type");
            ensure_eq!(mapped.context(), m.recent_first(), "contexts after map_core");
            ensure_eq!(mapped.error_code(), m.code, "code after map_core");
            // an error as the core of another one
            let outer = ComposableError::new(e.clone()).with_context("outer");
            ensure_eq!(outer.error_chain(), format!("outer -> {}", m.chain()), "chain of a nested error");
            holds(outer.core_error(), &m)
        },
    );
    s.check(
        "equality",
        "the errors differ in one part only",
        60_000,
        || (val(), start(), ops(6), ops(2)),
        |(core, st, base, more), obs| {
            let n = Cell::new(0);
            let (a, ma) = history(core, st, base, &n);
            let all: Vec<Op> = base.iter().chain(more).cloned().collect();
            let (b, mb) = history(core, st, &all, &n);
            obs.nontrivial((ma.ctxs != mb.ctxs) as u8 + (ma.core != mb.core) as u8 + (ma.code != mb.code) as u8 == 1);
            ensure_eq!(a == b, ma == mb, "equality of {a:?} and {b:?}");
            let hash = |m: &S| {
                let mut h = DefaultHasher::new();
                ErrorContext::new(m.clone()).hash(&mut h);
                h.finish()
            };
            ensure_eq!(ErrorContext::new(ma.chain()) == ErrorContext::new(mb.chain()), ma.chain() == mb.chain(), "equality of contexts");
            if ma.chain() == mb.chain() {
                ensure_eq!(hash(&ma.chain()), hash(&mb.chain()), "hash of equal contexts");
            }
            Ok(())
        },
    );
    s.check(
        "helpers",
        "at least two contexts",
        50_000,
        || (vec(val(), 1..4), ctx(), vec(ctx(), 0..7), vals(7), any::<bool>()),
        |(cores, c, cs, strs, ok), obs| {
            obs.nontrivial(strs.len() > 1);
            obs.tag_if(strs.len() > 4, "more than four contexts");
            let n = Cell::new(0);
            let core = &cores[0];
            let me = |core: &S, ctxs: Vec<S>| Me { ctxs, core: core.clone(), code: None };
            holds(&give!(c, &n, |x| with_context(core.clone(), x)), &me(core, vec![c.text()]))?;
            ensure_eq!(n.take(), c.is_lazy() as usize, "evaluations of a context");
            // only failures get a context
            let r: Result<S, S> = if *ok { Ok(core.clone()) } else { Err(core.clone()) };
            match give!(c, &n, |x| with_context_result(r.clone(), x)) {
                Ok(v) => ensure!(*ok && v == *core, "with_context_result gave success {v:?} for {r:?}"),
                Err(e) => {
                    ensure!(!*ok, "with_context_result fails on a success");
                    holds(&e, &me(core, vec![c.text()]))?;
                }
            }
            ensure_eq!(n.take(), (!*ok && c.is_lazy()) as usize, "evaluations of a context by with_context_result");
            // reusable: every error gets its own
            let text = c.text();
            let (f, g, h) = (context_fn::<S, _>(text.clone()), context_fn::<S, _>(text.as_str()), context_fn::<S, _>(ErrorContext::new(text.clone())));
            for core in cores {
                holds(&f(core.clone()), &me(core, vec![text.clone()]))?;
                holds(&g(core.clone()), &me(core, vec![text.clone()]))?;
                holds(&h(core.clone()), &me(core, vec![text.clone()]))?;
            }
            let refs: Vec<&str> = strs.iter().map(|s| s.as_str()).collect();
            let values: Vec<ErrorContext> = strs.iter().map(ErrorContext::new).collect();
            holds(&accumulate_context(core.clone(), strs.clone()), &me(core, strs.clone()))?;
            holds(&accumulate_context(core.clone(), refs.clone()), &me(core, strs.clone()))?;
            holds(&accumulate_context(core.clone(), values.clone()), &me(core, strs.clone()))?;
            let lazies = cs.iter().map(|c| {
                let (t, n) = (c.text(), &n);
                LazyContext::new(move || {
                    n.set(n.get() + 1);
                    t
                })
            });
            holds(&accumulate_context(core.clone(), lazies), &me(core, cs.iter().map(|c| c.text()).collect()))?;
            ensure_eq!(n.take(), cs.len(), "evaluations of accumulated contexts");
            let (f, g, h) = (context_accumulator::<S, _, S>(strs.clone()), context_accumulator::<S, _, &str>(refs), context_accumulator::<S, _, ErrorContext>(values));
            for core in cores {
                holds(&f(core.clone()), &me(core, strs.clone()))?;
                holds(&g(core.clone()), &me(core, strs.clone()))?;
                holds(&h(core.clone()), &me(core, strs.clone()))?;
            }
            // a context by itself
            let e = give!(c, &n, |x| x.into_error_context());
            ensure_eq!(e.message(), text, "message");
            ensure_eq!(e.to_string(), text, "Display of a context");
            ensure_eq!(e.clone().into_error_context(), ErrorContext::new(text.clone()), "a context as a context");
            Ok(())
        },
    );
    s.check(
        "pipelines",
        "fails at some point, and a context or a recovery follows",
        150_000,
        || (prop::bool::weighted(0.6), val(), steps()),
        |(ok, v, steps), obs| {
            let start: Result<S, S> = if *ok { Ok(v.clone()) } else { Err(v.clone()) };
            let evals = Cell::new(0);
            let calls: Rc<RefCell<Vec<S>>> = Rc::default();
            let mut want = start.clone();
            let mut ctxs: Vec<S> = vec![];
            let mut want_evals = 0;
            let mut want_calls: Vec<S> = vec![];
            let mut p = if v.len() % 2 == 0 { ErrorPipeline::new(start) } else { error_pipeline(start) };
            let (mut failing, mut interesting, mut again) = (!*ok, false, false);
            for (i, step) in steps.iter().enumerate() {
                interesting |= failing && matches!(step, Step::Context(_) | Step::Recover(..));
                let seen = |x: &S| calls.borrow_mut().push(format!("{i} {x}"));
                match step {
                    Step::Context(c) => {
                        p = give!(c, &evals, |x| p.with_context(x));
                        if want.is_err() {
                            ctxs.push(c.text());
                            want_evals += c.is_lazy() as usize;
                        }
                    }
                    Step::Map(f) => {
                        p = p.map(|a| {
                            seen(&a);
                            f.ap(&a)
                        });
                        want = want.map(|a| {
                            want_calls.push(format!("{i} {a}"));
                            f.ap(&a)
                        });
                    }
                    Step::Chain(q, f) => {
                        p = p.and_then(|a| {
                            seen(&a);
                            gate(q, f, &a)
                        });
                        want = want.and_then(|a| {
                            want_calls.push(format!("{i} {a}"));
                            gate(q, f, &a)
                        });
                    }
                    Step::MapError(f) => {
                        p = p.map_error(|e| {
                            seen(&e);
                            f.ap(&e)
                        });
                        want = want.map_err(|e| {
                            want_calls.push(format!("{i} {e}"));
                            f.ap(&e)
                        });
                    }
                    Step::Recover(q, f) => {
                        p = p.recover(|e| {
                            seen(&e);
                            gate(q, f, &e)
                        });
                        want = want.or_else(|e| {
                            want_calls.push(format!("{i} {e}"));
                            gate(q, f, &e)
                        });
                        if want.is_ok() {
                            ctxs.clear();
                        }
                    }
                }
                again |= failing && want.is_ok();
                failing = want.is_err();
            }
            obs.nontrivial(interesting);
            obs.tag_if(again, "recovers");
            obs.tag_if(again && failing, "fails again after recovering");
            obs.tag_if(ctxs.len() > 4, "more than four contexts at the end");
            ensure_eq!(*calls.borrow(), want_calls, "calls of the steps");
            ensure_eq!(evals.get(), want_evals, "evaluations of lazy contexts");
            let boxed = v.len() % 3 == 0;
            let got: Result<S, ComposableError<S>> = if boxed { p.finish().map_err(|e| *e) } else { p.finish_without_box() };
            match (got, want) {
                (Ok(a), Ok(b)) => ensure_eq!(a, b, "success of the pipeline"),
                (Err(e), Err(core)) => holds(&e, &Me { ctxs, core, code: None })?,
                (g, w) => ensure!(false, "the pipeline gave {g:?}, its steps {w:?}"),
            }
            ensure_eq!(*calls.borrow(), want_calls, "calls of the steps after finishing");
            ensure_eq!(evals.get(), want_evals, "evaluations of lazy contexts after finishing");
            Ok(())
        },
    );
    s.check(
        "pipelines-typed",
        "the pipeline fails",
        20_000,
        || (prop::bool::ANY, val(), ctx(), ctx(), fun()),
        |(ok, v, c, d, f), obs| {
            // steps that change the types of both sides
            let start: Result<usize, S> = if *ok { Ok(v.len()) } else { Err(v.clone()) };
            obs.nontrivial(!*ok);
            let n = Cell::new(0);
            let p = ErrorPipeline::new(start);
            let p = give!(c, &n, |x| p.with_context(x)).map(|n| vec![n; 2]).map_error(|e| (e.len(), e));
            let p = give!(d, &n, |x| p.with_context(x)).and_then(|v| if v[0] % 2 == 0 { Ok(v.len()) } else { Err((v[0], "odd".to_string())) }).map_error(|(n, e)| format!("{n}{}", f.ap(&e)));
            match p.finish() {
                Ok(r) => ensure!(*ok && v.len() % 2 == 0 && r == 2, "success {r}"),
                Err(e) if *ok => {
                    ensure!(v.len() % 2 == 1, "failure {e:?}");
                    holds(&e, &Me { ctxs: vec![], core: format!("{}{}", v.len(), f.ap(&"odd".into())), code: None })?;
                }
                Err(e) => holds(&e, &Me { ctxs: vec![c.text(), d.text()], core: format!("{}{}", v.len(), f.ap(v)), code: None })?,
            }
            ensure_eq!(n.get(), if *ok { 0 } else { c.is_lazy() as usize + d.is_lazy() as usize }, "evaluations of lazy contexts");
            Ok(())
        },
    );
    s.check(
        "app-error",
        "the error has a context and the functions are not the identity",
        20_000,
        || (val(), prop::option::of(val()), fun(), fun(), pred()),
        |(m, c, f, g, p), obs| {
            obs.nontrivial(c.is_some() && !f.is_id() && !g.is_id());
            let e: AppError<S, S> = match c {
                None => AppError::new(m.clone()),
                Some(c) if c.len() % 2 == 0 => AppError::with_context(m.clone(), c.clone()),
                Some(c) => rustica::error::error_with_context(m.clone(), c.clone()),
            };
            let parts = |e: &AppError<S, S>| (e.message().clone(), e.context().cloned());
            ensure_eq!(parts(&e), (m.clone(), c.clone()), "parts");
            ensure_eq!(parts(&e.clone().map(|m| f.ap(&m))), (f.ap(m), c.clone()), "map");
            let onc = |c: Option<S>| c.filter(|c| p.ok(c)).map(|c| g.ap(&c));
            ensure_eq!(parts(&e.clone().map_context(onc)), (m.clone(), onc(c.clone())), "map_context");
            let text = match c {
                Some(c) => format!("{m:?} (Context: {c:?})"),
                None => format!("{m:?}"),
            };
            ensure_eq!(e.to_string(), text, "Display");
            let e = e.clone().map(|m| (m, 1)).map_context(|c| c.map(|c| vec![c.clone(), c]));
            let text = match c {
                Some(c) => format!("{:?} (Context: {:?})", (m, 1), [c, c]),
                None => format!("{:?}", (m, 1)),
            };
            ensure_eq!(e.to_string(), text, "Display of structured parts");
            let e: AppError<S, S> = AppError::new(m.clone()).map_context(|_: Option<()>| c.clone());
            let e2 = e.clone().map(|m| f.ap(&m)).map_context(onc);
            ensure_eq!(e == e2, parts(&e) == parts(&e2), "equality");
            let plain: AppError<S> = rustica::error::error(m.clone());
            ensure_eq!((plain.message(), plain.context()), (m, None), "error");
            Ok(())
        },
    );
    s.main()
}
