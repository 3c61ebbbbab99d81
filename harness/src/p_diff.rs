//! A01: the three execution paths agree on every program.
use crate::corpus;

use crate::run::*;
use crate::sup::*;
use crate::util::*;

pub fn prop() -> Prop {
    Prop {
        id: "A01",
        level: "exploration",
        rule: "a case is a generated or mutated program; non-trivial when it compiled and ran to a value or a source failure in all three execution modes; distinct by program text",
        secs: (90, 840),
        cases: (32000, 1 << 40),
        crash: true,
        hang: false,
        assumptions: &["runs that hit a sandbox limit in any mode are not compared: limits are consumed differently by design"],
        worker,
        floor: 300,
    }
}
const FUEL: usize = 40_000;

pub fn differs(a: &Out, b: &Out) -> Option<String> {
    if a.res != b.res { return Some(format!("result: {} versus {}", clip(&a.res.show(), 400), clip(&b.res.show(), 400))) }
    let (x, y) = (a.host_log(), b.host_log());
    if x != y {
        let i = x.iter().zip(&y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
        return Some(format!("host event {i}: {:?} versus {:?} ({} and {} events)", x.get(i), y.get(i), x.len(), y.len()));
    }
    if a.cells != b.cells { return Some(format!("host store: {:?} versus {:?}", a.cells, b.cells)) }
    if a.props != b.props { return Some(format!("host properties: {} versus {}", a.props, b.props)) }
    None
}

fn worker(c: &mut Ctx) {
    let pool: Vec<_> = corpus::split(corpus::OK).into_iter().filter(|s| !s.contains("tracked")).collect();
    let mut sess = Sess::new();
    while let Some(i) = c.take() {
        let mut r = c.rng(i);
        let src = if i % 16 < 2 {
            let p = crate::gen_haz::generate(&mut r);
            // Neither runaway programs nor the recorded defect of half-built aggregates.
            let m = crate::model::run(&p, crate::p_sem::FUEL);
            if m.agg || matches!(m.res, Err(crate::model::Ctl::Fuel)) { c.count("generated_skipped"); continue }
            c.count("order_hazard_programs");
            crate::lang::print_prog(&p)
        } else { let n = 1 + r.below(6); corpus::mutate(&mut r, &pool, n) };
        case(c, &mut sess, &src);
        if sess.cases > 3000 { sess = Sess::new(); }
    }
}

fn case(c: &mut Ctx, sess: &mut Sess, src: &str) {
    c.eval();
    c.current(src);
    let o = match guarded(|| sess.compile(src)) {
        Err(_) => { c.count("compiler_panics_not_judged_here"); c.stop_session(sess); return }
        Ok(Err(_)) => { c.count("rejected"); return }
        Ok(Ok(o)) => o,
    };
    let Some(e) = o.expr else { c.count("no_expression"); return };
    let mut outs = vec![];
    for m in MODES {
        match guarded(|| sess.run_discard(o.module_id, e, m, limits(FUEL))) {
            Ok(x) => {
                if matches!(x.res, Res::Sandbox(_)) { c.count("sandbox_limited"); return }
                outs.push(Ok(x))
            }
            Err(p) => outs.push(Err(p)),
        }
    }
    for (k, x) in outs.iter().enumerate() {
        if let Err(p) = x {
            c.violation_on(&format!("panic:{}", sig_of_panic(p)), src, &format!("{} panicked: {p}\n{src}", MODES[k].name()));
            c.stop_session(sess);
            return;
        }
    }
    let outs: Vec<Out> = outs.into_iter().map(|x| x.unwrap()).collect();
    c.nontrivial(fnv(src.as_bytes()));
    c.add("host_events", outs[0].log.len() as u64);
    c.count(match outs[0].res { Res::Val(_) => "values", Res::Fail(_) => "failures", Res::Cleanup(_) => "cleanup_failures", _ => "other" });
    c.seen("outcomes", fnv(outs[0].res.show().as_bytes()));
    for k in 1..3 {
        if let Some(d) = differs(&outs[0], &outs[k]) {
            c.violation_on(&format!("differs:{}", MODES[k].name()), src, &format!("{} and {} disagree on {d}\n{src}", MODES[0].name(), MODES[k].name()));
        }
    }
    c.sample(|| format!("{src}\n=> {}", outs[0].res.show()));
}
