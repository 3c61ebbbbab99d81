//! A10: a session reached by any history of module revisions behaves as a fresh one given the same sources.
use crate::run::*;
use crate::sup::*;
use crate::util::*;
use ferlium::module::id::Id;
use ferlium::{ExecutionTarget, Path, ustr};
use ferlium::module::ModuleId;

pub fn prop() -> Prop {
    Prop {
        id: "A10",
        level: "exploration",
        rule: "a case is a history of module compilations and source updates in one session, compared at several points with a fresh session that is given the current sources; non-trivial when some module was current at a comparison after at least one revision; distinct by the sequence of sources",
        secs: (70, 840),
        cases: (700, 1 << 40),
        crash: true,
        hang: false,
        assumptions: &["a module may conservatively be out of date; then it must be refused, and become current again once everything is compiled anew"],
        worker,
        floor: 80,
    }
}
/// One module's text, as data.
#[derive(Clone)]
struct M {
    n: i64,
    /// Which of the items exist, are private, or have changed shape.
    val_ty: u8, private: u8, gen_op: u8, fields: u8, variants: u8, repr: bool, missing: u8, tr: u8, broken: u8,
    uses: Vec<(usize, u8, bool)>,
    /// Operations done by `main`.
    salt: i64,
}
const NAMES: [&str; 5] = ["ma", "mb", "mc", "md", "me"];
impl M {
    fn new(r: &mut Rng, i: usize) -> M {
        let mut m = M { n: r.range(1, 9), val_ty: 0, private: 255, gen_op: r.below(3) as u8, fields: r.below(3) as u8, variants: r.below(2) as u8, repr: false, missing: 255, tr: r.below(3) as u8, broken: 0, uses: vec![], salt: r.range(0, 5) };
        if i > 0 { for _ in 0..1 + r.below(4) { m.uses.push((r.below(i), r.below(12) as u8, r.pct(25))) } }
        m
    }
    fn revise(&mut self, r: &mut Rng, i: usize, n: usize) {
        match r.below(18) {
            0 | 1 => self.n = r.range(1, 99),
            2 => self.val_ty = r.below(3) as u8,
            3 => self.private = if self.private == 255 { r.below(8) as u8 } else { 255 },
            4 => self.gen_op = r.below(3) as u8,
            5 => self.fields = r.below(5) as u8,
            6 => self.variants = r.below(4) as u8,
            7 => self.repr = !self.repr,
            8 => self.missing = if self.missing == 255 { r.below(8) as u8 } else { 255 },
            9 => self.tr = r.below(4) as u8,
            10 => self.broken = r.below(4) as u8,
            11 | 12 => { self.broken = 0; self.missing = 255; self.private = 255; self.repr = false; self.val_ty = 0 }
            13 if !self.uses.is_empty() => { let k = r.below(self.uses.len()); self.uses.remove(k); }
            14 => self.salt = r.range(0, 50),
            _ => {
                // A new dependency; rarely on a later module, or on itself.
                let to = if r.pct(6) { r.below(n) } else if i > 0 { r.below(i) } else { return };
                self.uses.push((to, r.below(12) as u8, r.pct(25)));
            }
        }
    }
    fn text(&self, i: usize) -> String {
        let own = format!("v{}", NAMES[i]);
        let mut s = String::new();
        for (k, (to, _, short)) in self.uses.iter().enumerate() {
            if *short && !self.uses[..k].iter().any(|u| u.2 && u.0 == *to) { s.push_str(&format!("use {0}::v{0};\n", NAMES[*to])); break }
        }
        let n = self.n;
        let p = |k: u8| if self.private == k { "" } else { "pub " };
        let has = |k: u8| self.missing != k;
        if has(0) { s.push_str(&match self.val_ty { 0 => format!("{}fn {own}() -> int {{ {n} }}\n", p(0)), 1 => format!("{}fn {own}() -> string {{ \"{n}\" }}\n", p(0)), _ => format!("{}fn {own}() {{ {n} + 1 }}\n", p(0)) }) }
        if has(1) { s.push_str(&format!("{}fn gen(x) {{ x {} {} }}\n", p(1), ["+ x", "* x", "- x - x"][self.gen_op as usize % 3], if self.gen_op == 1 { "+ x" } else { "" })) }
        let fs = match self.fields { 0 => "a: int, b: int", 1 => "b: int, a: int", 2 => "a: int, b: int, c: int", 3 => "a: string, b: int", _ => "aa: int, b: int, a: int" };
        let mk = match self.fields { 0 | 1 => format!("a: n, b: {n}"), 2 => format!("a: n, b: {n}, c: n"), 3 => format!("a: to_string(n), b: {n}"), _ => format!("aa: {n}, b: n, a: n * 2") };
        if has(2) { s.push_str(&format!("{}{}struct Pt {{ {fs} }}\n{}fn mk(n: int) -> Pt {{ Pt {{ {mk} }} }}\n{}fn rd(x: Pt) -> int {{ x.b + {n} }}\n", if self.repr { "#[private_repr]\n" } else { "" }, p(2), p(2), p(2))) }
        let vs = match self.variants { 0 => "Aa, Bb(int)", 1 => "Bb(int), Aa", 2 => "Aa, Bb(int), Cc", _ => "Aa, Bb(int, int)" };
        let mke = if self.variants == 3 { "if n > 1 { En::Bb(n, n) } else { En::Aa }" } else { "if n > 1 { En::Bb(n) } else { En::Aa }" };
        if has(3) { s.push_str(&format!("{}enum En {{ {vs} }}\n{}fn mke(n: int) -> En {{ {mke} }}\n", p(3), p(3))) }
        if has(4) { s.push_str(&format!("{}trait Sz<Self> {{ fn sz(x: Self) -> {}; }}\n", p(4), if self.tr == 3 { "string" } else { "int" })) ; s.push_str(&format!("impl Sz for int {{ fn sz(x: int) {{ {} }} }}\n", match self.tr { 0 => format!("x + {n}"), 1 => format!("x * {n}"), 2 => "7".into(), _ => "to_string(x)".to_string() })) }
        if has(5) { s.push_str(&format!("{}fn app(f, x) {{ f(f(x)) {} }}\n", p(5), if self.gen_op == 2 { format!("+ {n}") } else { String::new() })) }
        if has(6) { s.push_str(&format!("{}fn say(x: int) -> int {{ host::emit(x + {n}); x + {n} }}\n", p(6))) }
        if has(7) { s.push_str(&format!("{}fn bump(x: &mut int) {{ x = x + {n} }}\n", p(7))) }
        s.push_str("pub fn main() -> int {\n let mut acc = ");
        s.push_str(&format!("{};\n", self.salt));
        for (k, (to, what, _)) in self.uses.iter().enumerate() {
            let m = NAMES[*to];
            let short = self.uses.iter().find(|u| u.2).map(|u| u.0) == Some(*to);
            let v = if short { format!("v{m}()") } else { format!("{m}::v{m}()") };
            s.push_str(&match what {
                0 | 1 => format!(" acc = acc * 3 + {v};\n host::emit(acc);\n"),
                2 => format!(" acc += {m}::gen(acc + 1);\n"),
                3 => format!(" host::emits(to_string({m}::gen(2.5)));\n"),
                4 => format!(" let p{k} = {m}::mk(acc);\n host::emit(p{k}.a + p{k}.b);\n"),
                5 => format!(" acc += {m}::rd({m}::mk(3));\n"),
                6 => format!(" acc += match {m}::mke(acc) {{ Aa => 1, Bb(x) => x }};\n").replace("Aa =>", &format!("{m}::En::Aa =>")).replace("Bb(x)", &format!("{m}::En::Bb(x)")),
                7 => format!(" acc += {m}::Sz::sz(acc);\n"),
                8 => format!(" acc = {m}::app(|x| x * 2 + acc, 3);\n"),
                9 => format!(" acc = {m}::say(acc);\n"),
                10 => format!(" {m}::bump(acc);\n"),
                _ => format!(" acc += {m}::main();\n host::emits(to_string({m}::mk(1)));\n"),
            });
        }
        match self.broken { 1 => s.push_str(" acc += \"x\";\n"), 2 => s.push_str(" }} }\n"), 3 => s.push_str(" acc += nowhere::f();\n"), _ => {} }
        s.push_str(" host::emit(acc);\n acc\n}\n");
        s
    }
}
struct Now { text: String, id: Option<ModuleId> }
fn worker(c: &mut Ctx) {
    while let Some(i) = c.take() {
        let mut r = c.rng(i);
        c.eval();
        c.current("history");
        match guarded(|| history(c, &mut r)) {
            Ok(()) => {}
            Err(p) => c.count(&format!("harness: {}", sig_of_panic(&p))),
        }
    }
}
fn compile(s: &mut Sess, name: &str, t: &str, target: ExecutionTarget) -> Result<ModuleId, String> {
    let r = s.s.compile_for(target, t, name, Path::single_str(name));
    r.map(|o| o.module_id).map_err(|e| format!("{}", ferlium::format::FormatWith::format_with(&e, s.s.source_table())))
}
fn stale(s: &Sess, id: ModuleId) -> bool { s.s.modules().info(id).unwrap().is_stale() }
fn main_of(s: &mut Sess, id: ModuleId, md: Mode) -> Out {
    let f = s.s.modules().get(id).unwrap().get_local_function_id(ustr("main")).unwrap();
    s.run_discard(id, f, md, limits(300_000))
}
fn history(c: &mut Ctx, r: &mut Rng) {
    let n = 2 + r.below(4);
    let mut ms: Vec<M> = (0..n).map(|i| M::new(r, i)).collect();
    let mut now: Vec<Now> = (0..n).map(|_| Now { text: String::new(), id: None }).collect();
    let mut log = String::new();
    let mut h = Sess::new();
    let steps = 4 + r.below(14);
    let mut revisions = 0;
    let mut judged = 0;
    let mut done = false;
    let mut seen_rev: Vec<(usize, usize)> = vec![(0, 0); n];
    for step in 0..n + steps {
        // In order at first, mostly; then anywhere.
        let i = if step < n && r.pct(85) { step } else { r.below(n) };
        let old = now[i].text.clone();
        if now[i].id.is_some() || !old.is_empty() { if r.pct(90) { let k = 1 + r.below(2); for _ in 0..k { ms[i].revise(r, i, n) } revisions += 1 } }
        let t = ms[i].text(i);
        let target = if r.pct(40) { ExecutionTarget::Mir } else { ExecutionTarget::Hir };
        log.push_str(&format!("--- step {step}: {} ({target:?})\n{t}", NAMES[i]));
        let by_update = now[i].id.is_some() && r.pct(50);
        let res = guarded(|| if by_update { h.s.update_module_source(now[i].id.unwrap(), &t).map(|_| now[i].id.unwrap()) } else { compile(&mut h, NAMES[i], &t, target) });
        let res = match res { Ok(x) => x, Err(p) => { c.violation_on(&format!("panic:{}", sig_of_panic(&p)), &log, &format!("compiling panicked: {p}\n{log}")); return } };
        now[i].text = t.clone();
        now[i].id = h.s.modules().id_by_path(&Path::single_str(NAMES[i]));
        log.push_str(&format!("    -> {}\n", match &res { Ok(_) => "done".to_string(), Err(e) => format!("error {}", clip(e.lines().next().unwrap_or(""), 100)) }));
        if let Some(id) = now[i].id {
            let info = h.s.modules().info(id).unwrap();
            let (v, k) = (info.source_version().map_or(0, |v| v.as_index() as usize), info.compilation_revision().as_index() as usize);
            let (v0, k0) = seen_rev[i];
            if !old.is_empty() {
                if (t == old) != (v == v0) { c.violation_on("source version", &log, &format!("the text of {} {}, its version went from {v0} to {v}\n{log}", NAMES[i], if t == old { "stayed" } else { "changed" })); return }
                if k <= k0 { c.violation_on("revision", &log, &format!("the revision of {} went from {k0} to {k}\n{log}", NAMES[i])); return }
            }
            let src = h.s.get_module_source(id).map(|s| s.source.to_string());
            if src.as_deref() != Some(&t) { c.violation_on("source", &log, &format!("the source kept for {} is not its latest\n{log}", NAMES[i])); return }
        }
        for (j, m) in now.iter().enumerate() { if let Some(id) = m.id { let info = h.s.modules().info(id).unwrap(); seen_rev[j] = (info.source_version().map_or(0, |v| v.as_index() as usize), info.compilation_revision().as_index() as usize) } }
        // Run something now and then, so that artifacts exist for the next revision to replace.
        if r.pct(40) { for m in &now { if let Some(id) = m.id { if !stale(&h, id) && r.pct(50) { let md = *r.pick(&MODES); let x = guarded(|| main_of(&mut h, id, md)); if let Err(p) = x { c.violation_on(&format!("panic:{}", sig_of_panic(&p)), &log, &format!("running {} panicked: {p}\n{log}", md.name())); return } } } } }
        if step + 1 >= n && (r.pct(25) || step + 1 == n + steps) {
            if !compare(c, &mut h, &now, &log, r, &mut judged) { return }
            if step + 1 == n + steps { done = true }
        }
    }
    if !done { return }
    // Compiling everything anew, in order, makes everything current that a fresh session accepts.
    let mut fresh = Sess::new();
    let order = order(&ms, n);
    for &i in &order {
        if now[i].text.is_empty() { continue }
        let a = match guarded(|| compile(&mut h, NAMES[i], &now[i].text, ExecutionTarget::Hir)) { Ok(x) => x, Err(p) => { c.violation_on(&format!("panic:{}", sig_of_panic(&p)), &log, &format!("compiling anew panicked: {p}\n{log}")); return } };
        let b = compile(&mut fresh, NAMES[i], &now[i].text, ExecutionTarget::Hir);
        if let Ok(id) = b { if !stale(&fresh, id) { match a {
            Err(e) => { c.violation_on("anew", &log, &format!("{} is not accepted anew although a fresh session accepts it: {e}\n{log}", NAMES[i])); return }
            Ok(id) => if stale(&h, id) { c.violation_on("anew", &log, &format!("{} is out of date after everything was compiled anew\n{log}", NAMES[i])); return }
        } } }
    }
    c.count("histories completed");
    c.add("revisions", revisions);
    if judged > 0 { c.nontrivial(fnv(log.as_bytes())); c.sample(|| log.clone()); }
}
/// Dependencies first (as far as there is no cycle).
fn order(ms: &[M], n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    while v.len() < n {
        let k = (0..n).find(|i| !v.contains(i) && ms[*i].uses.iter().all(|u| v.contains(&u.0))).or_else(|| (0..n).find(|i| !v.contains(i))).unwrap();
        v.push(k);
    }
    v
}
fn compare(c: &mut Ctx, h: &mut Sess, now: &[Now], log: &str, r: &mut Rng, judged: &mut usize) -> bool {
    let mut fresh = Sess::new();
    // Anything that depends on something missing fails and is retried once the rest is there.
    let mut ids: Vec<Option<ModuleId>> = vec![None; now.len()];
    for _ in 0..now.len() {
        let mut any = false;
        for (i, m) in now.iter().enumerate() {
            if ids[i].is_some() || m.text.is_empty() { continue }
            let x = guarded(|| compile(&mut fresh, NAMES[i], &m.text, ExecutionTarget::Hir));
            if let (Ok(Err(e)), true) = (&x, std::env::var_os("VH_REJ").is_some()) { eprintln!("REJ {}", e.lines().next().unwrap_or("")) }
            if let Ok(Ok(id)) = x { if !stale(&fresh, id) { ids[i] = Some(id); any = true } }
        }
        if !any { break }
    }
    for (i, m) in now.iter().enumerate() {
        let Some(id) = m.id else { continue };
        let current = !stale(h, id);
        match (current, ids[i]) {
            (true, None) => { c.violation_on("current although rejected", log, &format!("{} is offered as current, but a fresh session rejects its source\n{log}", NAMES[i])); return false }
            (false, Some(_)) => { c.count("conservatively out of date") }
            (false, None) => { c.count("rightly out of date") }
            (true, Some(f)) => {
                c.count("current modules compared");
                *judged += 1;
                let a = main_of(&mut fresh, f, Mode::Hir);
                let modes: Vec<Mode> = if r.pct(50) { MODES.to_vec() } else { vec![*r.pick(&MODES)] };
                for md in modes {
                    let b = match guarded(|| main_of(h, id, md)) { Ok(x) => x, Err(p) => { c.violation_on(&format!("panic:{}", sig_of_panic(&p)), log, &format!("running {} on {} panicked: {p}\n{log}", NAMES[i], md.name())); return false } };
                    if a.res != b.res || a.host_log() != b.host_log() {
                        c.violation_on("behaviour", log, &format!("{} on {}: {} {:?}, in a fresh session {} {:?}\n{log}", NAMES[i], md.name(), b.res.show(), b.host_log(), a.res.show(), a.host_log()));
                        return false
                    }
                }
            }
        }
    }
    true
}
