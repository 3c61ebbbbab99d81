//! A03: what a run does to the host is covered by the effects inferred for what was run.
use crate::corpus::{self, K, Tok};
use crate::gen_prog::Cfg;
use crate::run::*;
use crate::sup::*;
use crate::util::*;
use ferlium::module::LocalFunctionId;
use ferlium::types::effects::PrimitiveEffect;

pub fn prop() -> Prop {
    Prop {
        id: "A03",
        level: "exploration",
        rule: "a case is a program into which one or two host effects or failures were planted; non-trivial when it was accepted and some effect was observed while one of its functions ran; distinct by program text",
        secs: (70, 840),
        cases: (11000, 1 << 40),
        crash: false,
        hang: false,
        assumptions: &["user-defined clone and drop operations are not attributed to the code that copies or discards values", "host functions do what their declared effects say"],
        worker,
        floor: 1000,
    }
}
/// Wrap an operand into something with an effect.
fn plant(r: &mut Rng, x: &str) -> String {
    match r.below(12) {
        0..=2 => format!("{{ host::emit(0); {x} }}"),
        3 | 4 => format!("{{ host::sense(1); {x} }}"),
        5 => format!("{{ host::swap(1, 2); {x} }}"),
        6 | 7 => format!("{{ host::trip(-1); {x} }}"),
        8 => format!("{{ idiv(1, host::nop_int()); {x} }}").replace("host::nop_int()", "0"),
        9 => format!("{{ let zs_ = [1]; zs_[3]; {x} }}"),
        10 => format!("(if true {{ {x} }} else {{ panic(\"p\") }})"),
        _ => format!("{{ let ef_ = |q_| {{ host::emit(q_); q_ }}; ef_(1); {x} }}"),
    }
}
fn spot(r: &mut Rng, t: &mut Vec<Tok>) -> bool {
    let v: Vec<usize> = (0..t.len()).filter(|i| match t[*i].k {
        K::Int | K::Float | K::Str => *i == 0 || t[i - 1].t != ".",
        K::Ident => !corpus::KEYWORDS.contains(&t[*i].t.as_str()) || ["true", "false"].contains(&t[*i].t.as_str()),
        _ => false,
    }).collect();
    if v.is_empty() { return false }
    let lits: Vec<usize> = v.iter().copied().filter(|i| t[*i].k != K::Ident).collect();
    let i = if !lits.is_empty() && r.pct(70) { *r.pick(&lits) } else { *r.pick(&v) };
    // A whole call or path rather than its first word.
    let x = t[i].t.clone();
    t[i].t = plant(r, &x);
    true
}
fn text(r: &mut Rng, pool: &[&'static str], quiet: &[&'static str]) -> String {
    let base = match r.below(10) {
        0 | 1 => { let n = 1 + r.below(3); corpus::mutate(r, pool, n) }
        2..=5 => r.pick(quiet).to_string(),
        6 => crate::p_match::generate(r).src,
        _ => {
            let c = Cfg { toks: false, eff: 0, fail: 0, stmts: 2 + r.below(5), depth: 2 + r.below(3) as u32, funs: 1 + r.below(5), infer: *r.pick(&[0, 40, 90]), closures: true, generics: r.pct(70), traits: r.pct(60), floats: r.pct(20), places: r.pct(50), loops: 25 };
            crate::lang::print_prog(&crate::gen_prog::generate(r, c))
        }
    };
    let mut t = corpus::lex(&base);
    let n = 1 + (r.pct(25)) as usize;
    for _ in 0..n { spot(r, &mut t); t = corpus::lex(&corpus::join(&t)) }
    corpus::join(&t)
}
fn worker(c: &mut Ctx) {
    let pool: Vec<_> = corpus::split(corpus::OK).into_iter().filter(|s| !s.contains("tracked")).collect();
    let quiet: Vec<_> = pool.iter().copied().filter(|s| !s.contains("host::") && !s.contains("panic") && !s.contains("effects::")).collect();
    let mut sess = Sess::new();
    while let Some(i) = c.take() {
        let mut r = c.rng(i);
        c.current("generating");
        let Ok(src) = guarded(|| text(&mut r, &pool, &quiet)) else { c.count("generator gave up"); continue };
        c.eval();
        c.current(&src);
        let o = match guarded(|| sess.compile(&src)) {
            Err(_) => { c.count("compiler panics (not judged here)"); c.stop_session(&mut sess); continue }
            Ok(Err(_)) => { c.count("rejected"); continue }
            Ok(Ok(o)) => o,
        };
        if !judge(c, &mut sess, o.module_id, o.expr, &src) { c.stop_session(&mut sess) }
        if sess.cases > 3000 { sess = Sess::new() }
    }
}
fn judge(c: &mut Ctx, sess: &mut Sess, m: ferlium::module::ModuleId, expr: Option<LocalFunctionId>, src: &str) -> bool {
    // Everything that can be run without arguments.
    let mut what: Vec<(String, LocalFunctionId)> = vec![];
    if let Some(e) = expr { what.push(("the program".into(), e)) }
    {
        let md = sess.s.expect_fresh_module(m);
        for (n, _) in md.iter_named_functions() {
            if n.contains('#') || n.contains('$') || n.contains('<') || n.contains('@') { continue }
            if let Some(id) = md.get_local_function_id(n) { what.push((n.to_string(), id)) }
        }
    }
    let mut any = false;
    for (name, f) in what {
        let (declared, open) = {
            let md = sess.s.expect_fresh_module(m);
            let Some(g) = md.get_function_by_id(f) else { continue };
            let sc = &g.definition.ty_scheme;
            if !sc.ty.args.is_empty() || !sc.ty_quantifiers.is_empty() || !sc.constraints.is_empty() { continue }
            (sc.ty.effects.inner_non_vars(), sc.ty.effects.has_variables())
        };
        let md = MODES[(fnv(src.as_bytes()) % 3) as usize];
        let out = match guarded(|| sess.run_discard(m, f, md, limits(30_000))) { Ok(o) => o, Err(_) => { c.count("interpreter panics (not judged here)"); return false } };
        let mut seen = vec![];
        if out.reads > 0 { seen.push(PrimitiveEffect::Read) }
        if out.writes > 0 { seen.push(PrimitiveEffect::Write) }
        if matches!(out.res, Res::Fail(_) | Res::Cleanup(_)) { seen.push(PrimitiveEffect::Fallible) }
        if seen.is_empty() { c.count("runs without effects"); continue }
        any = true;
        for e in seen {
            c.count(&format!("{e} observed"));
            if !declared.contains(&e) {
                let d: Vec<String> = declared.iter().map(|d| d.to_string()).collect();
                c.violation_on(&format!("{e} not inferred"), src, &format!("running {name} had the effect {e}; inferred are [{}]{} ({}, {:?})\n{src}", d.join(", "), if open { " and variables" } else { "" }, out.res.show(), out.log.iter().take(4).collect::<Vec<_>>()));
                return false
            }
        }
    }
    if any { c.nontrivial(fnv(src.as_bytes())); c.sample(|| src.to_string()) }
    true
}
/// Prints the inferred effects of each text of a file (split at %%), for triage.
pub fn show(path: &str) {
    let mut sess = Sess::new();
    for src in std::fs::read_to_string(path).unwrap().split("\n%%\n") {
        match guarded(|| sess.compile(src)) {
            Ok(Ok(o)) => {
                let md = sess.s.expect_fresh_module(o.module_id);
                let eff = o.expr.map(|e| format!("{}", md.get_function_by_id(e).unwrap().definition.ty_scheme.ty.effects));
                println!("{eff:?}  <= {src}")
            }
            Ok(Err(e)) => println!("rejected {e}  <= {src}"),
            Err(p) => println!("panic {p:?}  <= {src}"),
        }
    }
}
