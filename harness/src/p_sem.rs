//! A02: programs compute what the language defines, judged by an independent reference interpreter.
use crate::gen_prog::{Cfg, generate};
use crate::lang::*;
use crate::model::{self, Ctl};
use crate::run::*;
use crate::sup::*;
use crate::util::*;

pub fn prop() -> Prop {
    Prop {
        id: "A02",
        level: "exploration",
        rule: "a case is a generated well-typed program; non-trivial when the reference interpreter and all execution modes ran it to a value or a source failure; distinct by program text",
        secs: (90, 840),
        cases: (5000, 1 << 40),
        crash: true,
        hang: false,
        assumptions: &["programs that leave the modelled fragment (float overflow, grapheme-aware string operations, exhausted budget) are not judged"],
        worker,
        floor: 300,
    }
}
pub fn random_cfg(r: &mut Rng) -> Cfg {
    Cfg { toks: r.pct(25), eff: *r.pick(&[0, 8, 15, 30]), fail: *r.pick(&[0, 4, 10, 20]), stmts: 3 + r.below(10), depth: 2 + r.below(4) as u32, funs: r.below(5), infer: *r.pick(&[0, 15, 40]), closures: r.pct(80), generics: r.pct(50), traits: r.pct(50), floats: r.pct(50), places: true, loops: *r.pick(&[5, 25, 33]) }
}
/// A04: the same judge, over programs full of tracked values and failures.
pub fn prop_own() -> Prop {
    Prop {
        id: "A04",
        rule: "a case is a generated well-typed program that creates lifetime-tracked values; non-trivial when it created at least one and ran to a value or a source failure in all execution modes; distinct by program text",
        cases: (2600, 1 << 40),
        assumptions: &["programs that fail while an aggregate with owned parts is half built are not judged (a recorded finding)", "programs that leave the modelled fragment are not judged"],
        ..prop()
    }
}
pub fn own_cfg(r: &mut Rng) -> Cfg {
    Cfg { toks: true, eff: *r.pick(&[8, 20, 35]), fail: *r.pick(&[0, 8, 15, 25]), stmts: 4 + r.below(10), depth: 2 + r.below(4) as u32, funs: 1 + r.below(4), infer: *r.pick(&[0, 15]), closures: r.pct(80), generics: r.pct(60), traits: r.pct(40), floats: false, places: true, loops: *r.pick(&[5, 25, 33]) }
}
const FIXED: &[(&str, &str, &[&str])] = &[
    ("an operand that reads a field of a nested value is a snapshot", "struct P { k: int, n: int }\nlet mut v = (0, P { k: 0, n: 1 });\nhost::emits(to_string(v.1.n - { v.1.n = 0; 0 }));\nlet mut w = (0, P { k: 0, n: 1 });\nhost::emits(to_string((w.1.n, { w.1.n = 9; 0 })))", &["1", "(1, 0)"]),
    ("operands are evaluated from left to right when one is a nested field", "struct P { k: int, n: int }\nlet u = [P { k: 0, n: 1 }];\nhost::emits(to_string({ host::emits(\"a\"); 10 } - u[{ host::emits(\"b\"); 0 }].n))", &["a", "b", "9"]),
    ("an in-out argument survives a later argument that shrinks its array", "fn add(x: &mut int, y: int) -> int { x = x + y; x }\nlet mut w = [1, 2, 3];\nhost::emits(to_string(add(w[2], { array_pop_back(w); array_pop_back(w); 5 })))", &["8"]),
    ("assigning to a field reads it before the rest of the right-hand side", "struct P { k: int, n: int }\nlet mut p = P { k: 0, n: 1 };\np.n += { p.n = 0; 0 };\nlet mut q = P { k: 0, n: 1 };\nq.n = q.n + { q.n = 0; 0 };\nhost::emits(to_string((p.n, q.n)))", &["(1, 1)"]),
    ("an operand that reads an element or a field is a snapshot", "struct P { k: int, n: int }\nlet mut v = (0, 1);\nhost::emits(to_string(v.1 - { v.1 = 0; 0 }));\nlet mut p = P { k: 0, n: 1 };\nhost::emits(to_string((p.n, { p.n = 9; 0 }, p.n)));\nlet mut a = [1, 2];\nhost::emits(to_string(a[0] * 10 + { a[0] = 5; 1 } + a[0]))", &["1", "(1, 0, 9)", "16"]),
];
fn worker(c: &mut Ctx) {
    let mut sess = Sess::new();
    while let Some(i) = c.take() {
        if c.id == "A02" && (i as usize) < FIXED.len() { let f = FIXED[i as usize]; crate::obs::fixture(c, &mut sess, f.0, f.1, f.2) }
        let mut r = c.rng(i);
        let cfg = if c.id == "A04" { own_cfg(&mut r) } else { random_cfg(&mut r) };
        c.current("generating");
        let Ok(p) = guarded(|| if c.id == "A02" && i % 3 != 0 { crate::gen_haz::generate(&mut r) } else { generate(&mut r, cfg) }) else { c.count("generator gave up"); continue };
        case(c, &mut sess, &p);
        if sess.cases > 3000 { sess = Sess::new(); }
    }
}
/// What the reference interpreter expects, in the vocabulary of `Out`.
pub fn expected(o: &model::Outcome) -> Option<Res> {
    match &o.res {
        Ok(v) => { let mut s = String::new(); model::show(v, &mut s); Some(Res::Val(s)) }
        Err(Ctl::Fail(k)) => Some(Res::Fail(k.clone())),
        _ => None,
    }
}
/// What was seen of one program.
pub enum Seen { Skip(&'static str), Rejected(String), Bad(String, String), Good { failed: bool, want: String, made: usize, clones: u64, drops: u64 } }
pub fn judge(sess: &mut Sess, p: &Prog, src: &str, m: &model::Outcome, own: bool) -> Seen {
    let Some(want) = expected(m) else { return Seen::Skip(match &m.res { Err(Ctl::Fuel) => "model_budget", _ => "unmodeled" }) };
    // Known defect: see findings/aggregate_failure.
    if m.agg { return Seen::Skip("left_an_aggregate_half_built") }
    let _ = p;
    let (mut made, mut clones, mut drops) = (0, 0, 0);
    let o = match guarded(|| sess.compile(src)) {
        Err(x) => return Seen::Bad(format!("compiler:{}", sig_of_panic(&x)), format!("compiler panicked: {x}\n{src}")),
        Ok(Err(e)) => return Seen::Rejected(e),
        Ok(Ok(o)) => o,
    };
    let Some(e) = o.expr else { return Seen::Skip("no_expression") };
    for md in MODES {
        match guarded(|| sess.run_discard(o.module_id, e, md, limits(2_000_000))) {
            Err(x) => return Seen::Bad(format!("panic:{}", sig_of_panic(&x)), format!("{} panicked: {x}\n{src}", md.name())),
            Ok(x) => {
                let n = md.name();
                if matches!(x.res, Res::Sandbox(_)) { return Seen::Bad("sandbox".into(), format!("{n} hit {}, reference used {} steps\n{src}", x.res.show(), m.steps)) }
                if x.res != want { return Seen::Bad(format!("result:{n}"), format!("{n}: {}\nexpected: {}\n{src}", x.res.show(), want.show())) }
                let log = x.host_log();
                if log.len() != m.log.len() || log.iter().zip(&m.log).any(|(a, b)| **a != *b) { return Seen::Bad(format!("events:{n}"), format!("{n}: host events {log:?}\nexpected {:?}\n{src}", m.log)) }
                if x.cells != m.cells { return Seen::Bad(format!("cells:{n}"), format!("{n}: cells {:?} expected {:?}\n{src}", x.cells, m.cells)) }
                made = made.max(x.log.len() - log.len());
                clones += x.clones; drops += x.drops;
                if own && (!x.faults.is_empty() || x.live != 0) { return Seen::Bad(format!("tokens:{n}"), format!("{n}: faults {:?} live {}\n{src}", x.faults, x.live)) }
            }
        }
    }
    Seen::Good { failed: m.res.is_err(), want: want.show(), made, clones, drops }
}
pub const FUEL: u64 = 30_000;
pub fn case(c: &mut Ctx, sess: &mut Sess, p: &Prog) {
    c.eval();
    let m = model::run(p, FUEL);
    let src = print_prog(p);
    c.current(&src);
    let t0 = std::time::Instant::now();
    let s = judge(sess, p, &src, &m, c.id == "A04");
    if t0.elapsed().as_millis() > 1500 { c.count("slow_cases"); }
    match s {
        Seen::Skip(k) => c.count(k),
        Seen::Rejected(e) => { c.count("rejected"); if std::env::var_os("VH_REJ").is_some() { c.violation(&format!("rejected:{}", clip(&sig_of_panic(&e), 60)), &format!("{e}\n{src}")); } }
        Seen::Bad(sig, text) => {
            if c.is_known(&sig, &src) { if sig.starts_with("panic") || sig.starts_with("compiler") { c.stop_session(sess); } return }
            let panicked = sig.starts_with("panic") || sig.starts_with("compiler");
            if panicked { c.stop_session(sess); }
            let secs = if c.verbose { 240 } else { 12 };
            let text = if (c.stop && !c.verbose) || c.viols.len() > 3 || (c.viols.iter().any(|v| v.0 == sig)) { text } else {
                let want = sig.clone();
                let own = c.id == "A04";
                let mut last = text;
                crate::shrink::shrink(p, &mut |q| {
                    let Ok(m) = guarded(|| model::run(q, FUEL)) else { return false };
                    let src = print_prog(q);
                    match judge(sess, q, &src, &m, own) {
                        Seen::Bad(s, t) => { let same = s == want; if s.starts_with("panic") || s.starts_with("compiler") { c.stop_session(sess) } if same { last = t } same }
                        _ => false,
                    }
                }, secs);
                last
            };
            c.violation(&sig, &format!("input={:016x}\n{text}", fnv(src.as_bytes())));
        }
        Seen::Good { failed, want, made, clones, drops } => {
            c.add("tracked_clones", clones);
            c.add("tracked_drops", drops);
            if c.id == "A04" && made == 0 { c.count("no_tracked_value"); return }
            c.nontrivial(fnv(src.as_bytes()));
            c.add("host_events", m.log.len() as u64);
            c.add("loop_iterations", m.loops);
            c.add("calls", m.calls);
            c.count(if failed { "failures" } else { "values" });
            c.seen("outcomes", fnv(want.as_bytes()));
            c.sample(|| format!("{src}\n=> {want}"));
        }
    }
}
