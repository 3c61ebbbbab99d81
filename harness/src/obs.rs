//! Shared monitor for generated programs that report a sequence of observations: each must equal
//! what the reference computed, on every execution path.
use crate::run::*;
use crate::sup::*;
use crate::util::*;

#[derive(Default, Clone)]
pub struct Case {
    pub src: String,
    pub want: Vec<String>,
    /// Text of the failure, or a prefix of it when it ends with `*`.
    pub failure: Option<String>,
    pub feed: (Vec<i64>, Vec<f64>, Vec<String>),
    /// The program has to be rejected.
    pub reject: Option<String>,
    /// Classes the case exercises, for the evidence.
    pub tags: Vec<&'static str>,
    /// Run on the HIR interpreter only (a known defect of the others is in the way).
    pub hir_only: bool,
    /// A diagnostic with this text (a documented limitation) is no answer.
    pub may_refuse: Option<&'static str>,
}
pub fn log_text(x: &Out) -> Vec<String> {
    x.host_log().iter().map(|e| match e { crate::host::Ev::EmitS(s) => s.clone(), e => format!("{e:?}") }).collect()
}
fn fits(want: &str, got: &str) -> bool { match want.strip_suffix('*') { Some(p) => got.starts_with(p), None => want == got } }

pub fn check(c: &mut Ctx, sess: &mut Sess, k: &Case) -> bool {
    c.eval();
    c.current(&k.src);
    let t0 = std::time::Instant::now();
    let o = match guarded(|| sess.compile(&k.src)) {
        Err(x) => { c.violation_on(&format!("compiler:{}", sig_of_panic(&x)), &k.src, &format!("compiler panicked: {x}\n{}", k.src)); c.stop_session(sess); return false }
        Ok(Err(e)) => {
            if k.may_refuse.is_some_and(|m| e.contains(m)) { c.count("refused as unsupported"); return true }
            match &k.reject {
                Some(why) => { c.count("rejected as required"); c.seen("diagnostics", fnv(e.split_whitespace().take(6).collect::<Vec<_>>().join(" ").as_bytes())); c.nontrivial(fnv(k.src.as_bytes())); let _ = why; return true }
                None => { c.violation_on("rejected", &k.src, &format!("rejected: {e}\n{}", k.src)); return false }
            }
        }
        Ok(Ok(o)) => o,
    };
    if let Some(why) = &k.reject { c.violation_on("accepted", &k.src, &format!("accepted, but has to be rejected: {why}\n{}", k.src)); return false }
    if c.verbose { println!("compile {:?}, {} lines", t0.elapsed(), k.src.lines().count()) }
    c.add("compile_ms", t0.elapsed().as_millis() as u64);
    let Some(e) = o.expr else { c.count("no expression"); return true };
    crate::host::FEED.with(|f| *f.borrow_mut() = k.feed.clone());
    for md in MODES {
        if k.hir_only && md != MODES[0] { continue }
        let t1 = std::time::Instant::now();
        let ran = guarded(|| sess.run_discard(o.module_id, e, md, limits(5_000_000)));
        if c.verbose { println!("{} {:?}", md.name(), t1.elapsed()) }
        match ran {
            Err(x) => { c.violation_on(&format!("panic:{}", sig_of_panic(&x)), &k.src, &format!("{} panicked: {x}\n{}\ninputs {:?}", md.name(), k.src, k.feed)); c.stop_session(sess); return false }
            Ok(x) => {
                let log = log_text(&x);
                if let Some(j) = (0..log.len().max(k.want.len())).find(|j| log.get(*j) != k.want.get(*j)) {
                    let line = k.src.lines().filter(|l| l.contains("host::emits")).nth(j).unwrap_or("");
                    c.violation_on(&format!("observation:{}", md.name()), &k.src, &format!("{}: observation {j} is {:?}, expected {:?}, at {line}\n{}\nended with {}, inputs {:?}", md.name(), log.get(j), k.want.get(j), k.src, x.res.show(), k.feed));
                    return false
                }
                let good = match (&k.failure, &x.res) { (Some(f), Res::Fail(g)) => fits(f, g), (None, Res::Val(v)) => v == "()", _ => false };
                if !good { c.violation_on(&format!("result:{}", md.name()), &k.src, &format!("{}: {} expected {}\n{}\ninputs {:?}", md.name(), x.res.show(), k.failure.clone().unwrap_or("value ()".into()), k.src, k.feed)); return false }
                c.add("observations", log.len() as u64);
            }
        }
    }
    c.nontrivial(fnv(k.src.as_bytes()));
    c.count(if k.failure.is_some() { "failures" } else { "values" });
    for t in &k.tags { c.count(t); }
    for w in &k.want { c.seen("distinct_observations", fnv(w.as_bytes())); }
    c.sample(|| format!("{}\n=> {:?}", k.src, k.want));
    true
}
pub fn worker(c: &mut Ctx, f: fn(&mut Rng) -> Case) { worker_with(c, &[], f) }
/// `fixed`: hand-written programs (name, source, observations) run besides the generated ones.
pub fn worker_with(c: &mut Ctx, fixed: &[(&str, &str, &[&str])], f: fn(&mut Rng) -> Case) {
    let mut sess = Sess::new();
    while let Some(i) = c.take() {
        if (i as usize) < fixed.len() {
            let (name, src, want) = fixed[i as usize];
            fixture(c, &mut sess, name, src, want);
        }
        let mut r = c.rng(i);
        let k = f(&mut r);
        check(c, &mut sess, &k);
        if sess.cases > 3000 { sess = Sess::new(); }
    }
}

pub fn fixture(c: &mut Ctx, sess: &mut Sess, name: &str, src: &str, want: &[&str]) {
    c.eval();
    c.current(src);
    let sig = format!("fixture:{name}");
    match guarded(|| sess.compile(src)) {
        Err(x) => { c.violation_on(&sig, src, &format!("compiler panicked: {x}\n{src}")); c.stop_session(sess) }
        Ok(Err(_)) if want == ["*"] => {}
        Ok(Ok(_)) if want == ["*"] => c.violation_on(&sig, src, &format!("accepted, but has to be rejected\n{src}")),
        Ok(Err(e)) => c.violation_on(&sig, src, &format!("rejected: {e}\n{src}")),
        Ok(Ok(o)) => for md in MODES {
            match guarded(|| sess.run_discard(o.module_id, o.expr.unwrap(), md, limits(5_000_000))) {
                Err(x) => { c.violation_on(&sig, src, &format!("{} panicked: {x}\n{src}", md.name())); c.stop_session(sess); return }
                Ok(x) => {
                    let log = log_text(&x);
                    if (if want == ["!"] { !matches!(x.res, Res::Fail(_)) } else { log != want || !matches!(x.res, Res::Val(_)) }) { c.violation_on(&sig, src, &format!("{}: observed {log:?} then {}, expected {want:?}\n{src}", md.name(), x.res.show())); return }
                }
            }
        },
    }
    c.count("fixtures");
}
