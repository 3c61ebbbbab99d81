//! A07: resource limits stop any program, and change nothing else.
use crate::host::Ev;
use crate::model;
use crate::run::*;
use crate::sup::*;
use crate::util::*;
use ferlium::execution::ReferenceInterpreterLimits as Lim;

pub fn prop() -> Prop {
    Prop {
        id: "A07",
        level: "exploration",
        rule: "a case is a generated program run repeatedly under different limits on every execution path: one that ends is compared with its unlimited run (same outcome or a violation after a prefix of its host calls, later with more fuel), one that never ends has to be stopped; non-trivial when at least one run was stopped by a limit; distinct by program text",
        secs: (60, 840),
        cases: (1400, 1 << 40),
        crash: true,
        hang: true,
        assumptions: &["how much of a resource an operation consumes is unspecified", "host functions return"],
        worker,
        floor: 150,
    }
}
/// Runs a program in a process of its own and says how it ended: `Ok` with its last line, or a signal.
fn apart(src: &str, mode: &str) -> Result<String, String> {
    use std::os::unix::process::ExitStatusExt;
    let f = std::env::temp_dir().join(format!("vh-limit-{}-{mode}.fer", std::process::id()));
    let _ = std::fs::write(&f, src);
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("run1").arg(mode).arg(&f).output();
    let _ = std::fs::remove_file(&f);
    match o {
        Ok(o) => match o.status.signal() { Some(s) => Err(format!("ended by signal {s}")), None => Ok(String::from_utf8_lossy(&o.stdout).lines().last().unwrap_or("").to_string()) },
        Err(e) => Ok(format!("not started: {e}")),
    }
}
const APART: &[(&str, &str)] = &[
    ("recursion through a trait method", "trait T<Self> { fn m(x: Self) -> int; } struct X(int) impl T for X { fn m(x: X) -> int { m(x) + 1 } } m(X(1))"),
    ("recursion through a trait method and a generic function", "trait T<Self> { fn m(x: Self) -> int; } struct X(int) fn go(x) { m(x) + 1 } impl T for X { fn m(x: X) -> int { go(x) + 1 } } go(X(1))"),
    ("recursion through stored function values", "enum R { N, F((R) -> int) } fn call(r: R) -> int { match r { F(f) => f(r) + 1, N => 0 } } call(R::F(call))"),
    ("recursion through a default equality", "struct K { v: int } impl Value for K { fn eq(l: K, r: K) -> bool { [l] == [r] } fn to_string(value: K) -> string { \"k\" } fn hash(value: K, state: &mut hasher) { hash(value.v, state) } fn clone(source: K) -> K { K { v: source.v } } fn drop(target: &mut K) {} } K { v: 1 } == K { v: 1 }"),
];
fn worker(c: &mut Ctx) {
    let mut sess = Sess::new();
    while let Some(i) = c.take() {
        if (i as usize) < APART.len() {
            let (name, src) = APART[i as usize];
            for md in ["hir", "mir", "opt"] {
                c.eval();
                match apart(src, md) {
                    Err(e) => { c.violation_on(&format!("fixture:{name}"), src, &format!("{md}: the process running the program was {e}\n{src}")); break }
                    Ok(l) => { if !l.contains("sandbox") { c.violation_on(&format!("fixture:{name}"), src, &format!("{md}: {l}, expected a sandbox violation\n{src}")); break } }
                }
            }
            c.count("run in a process of its own");
            continue
        }
        let mut r = c.rng(i);
        c.current("generating");
        if i % 3 == 0 { endless(c, &mut sess, &mut r) } else { finite(c, &mut sess, &mut r) }
        if sess.cases > 2500 { sess = Sess::new(); }
    }
}
fn is_prefix(a: &[&Ev], b: &[&Ev]) -> bool { a.len() <= b.len() && a.iter().zip(b).all(|(x, y)| x == y) }
fn lim(fuel: usize) -> Lim { limits(fuel) }

fn finite(c: &mut Ctx, sess: &mut Sess, r: &mut Rng) {
    let Ok(p) = guarded(|| if r.pct(40) { crate::gen_haz::generate(r) } else if r.pct(50) { let g = crate::p_sem::own_cfg(r); crate::gen_prog::generate(r, g) } else { let g = crate::p_sem::random_cfg(r); crate::gen_prog::generate(r, g) }) else { c.count("generator gave up"); return };
    let m = model::run(&p, crate::p_sem::FUEL);
    if m.agg { c.count("left_an_aggregate_half_built"); return }
    if crate::p_sem::expected(&m).is_none() { c.count("unmodeled"); return }
    let src = crate::lang::print_prog(&p);
    c.eval();
    c.current(&src);
    let o = match guarded(|| sess.compile(&src)) { Err(_) => { c.count("compiler panicked"); c.stop_session(sess); return } Ok(Err(_)) => { c.count("rejected"); return } Ok(Ok(o)) => o };
    let Some(e) = o.expr else { return };
    let mut stopped = 0u64;
    for md in MODES {
        let n = md.name();
        let mut run = |c: &mut Ctx, l: Lim| -> Option<Out> {
            match guarded(|| sess.run_discard(o.module_id, e, md, l)) {
                Err(x) => { c.violation_on(&format!("panic:{}", sig_of_panic(&x)), &src, &format!("{n} panicked: {x}\nlimits {l:?}\n{src}")); None }
                Ok(x) => Some(x),
            }
        };
        let Some(full) = run(c, lim(3_000_000)) else { c.stop_session(sess); return };
        if matches!(full.res, Res::Sandbox(_)) { c.count("beyond the default limits"); continue }
        let flog = full.host_log();
        let mut bad: Option<(String, String)> = None;
        let mut judge = |c: &mut Ctx, l: Lim, x: &Out, kinds: &[&str]| -> bool {
            let log = x.host_log();
            match &x.res {
                Res::Sandbox(k) => {
                    stopped += 1;
                    c.count(k.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""));
                    if !kinds.iter().any(|w| k.contains(w)) { bad = Some(("kind".into(), format!("{n}: {k} under {l:?}"))); return false }
                    if !is_prefix(&log, &flog) { bad = Some(("prefix".into(), format!("{n}: stopped after {log:?}, unlimited run has {flog:?}, limits {l:?}"))); return false }
                    if !x.faults.is_empty() { bad = Some(("tracked values".into(), format!("{n}: {:?} under {l:?}", x.faults))); return false }
                }
                res => {
                    if res != &full.res { bad = Some(("outcome".into(), format!("{n}: {} instead of {} under {l:?}", res.show(), full.res.show()))); return false }
                    if log != flog { bad = Some(("events".into(), format!("{n}: {log:?} instead of {flog:?} under {l:?}"))); return false }
                    if x.live != full.live { bad = Some(("tracked values".into(), format!("{n}: {} live instead of {} under {l:?}", x.live, full.live))); return false }
                }
            }
            true
        };
        let mut ok = true;
        // fuel: more of it never takes a run less far
        let mut fuels = vec![0, r.below(8), r.below(64), r.below(500), r.below(4000)];
        fuels.sort();
        let mut last: Option<(usize, usize, bool)> = None;
        let (mut lo, mut hi) = (None, None);
        let mut go = |c: &mut Ctx, f: usize, last: Option<(usize, usize, bool)>| -> Option<(usize, usize, bool)> {
            let x = run(c, lim(f))?;
            if !judge(c, lim(f), &x, &["Fuel"]) { return None }
            let now = (f, x.log.len(), !matches!(x.res, Res::Sandbox(_)));
            if let Some((g, len, done)) = last { if now.1 < len || (done && !now.2) { c.violation_on("more fuel", &src, &format!("{n}: with {f} fuel {} events, completed {}; with {g} fuel {len} events, completed {done}\n{src}", now.1, now.2)); return None } }
            Some(now)
        };
        for f in fuels {
            match go(c, f, last) { None => { ok = false; break } Some(x) => { if x.2 { if hi.is_none() { hi = Some(f) } } else { lo = Some(f) } last = Some(x) } }
        }
        // the exact amount it needs
        if let (true, Some(mut a), Some(mut b)) = (ok, lo, hi) {
            while b - a > 1 && ok { let m = (a + b) / 2; match go(c, m, None) { None => ok = false, Some(x) => if x.2 { b = m } else { a = m } } }
            if ok { c.add("fuel_needed", b as u64); c.count("fuel thresholds found"); for f in [b, b - 1, b] { match go(c, f, None) { None => { ok = false; break } Some(x) => if x.2 != (f >= b) { c.violation_on("fuel is not deterministic", &src, &format!("{n}: {f} fuel, completed {}\n{src}", x.2)); return } } } }
        }
        if ok { for _ in 0..3 {
            let l = match r.below(3) {
                0 => lim(3_000_000).with_environment_cell_limit(r.below(120)),
                1 => lim(3_000_000).with_call_depth_limit(r.below(8)),
                _ => lim(r.below(60)).with_environment_cell_limit(r.below(400)).with_call_depth_limit(r.below(10)),
            };
            let Some(x) = run(c, l) else { ok = false; break };
            if !judge(c, l, &x, &["Fuel", "CallDepth", "EnvironmentCell"]) { ok = false; break }
        } }
        // a violation leaves the session usable
        if ok { if let Some(x) = run(c, lim(3_000_000)) { if x.res != full.res || x.host_log() != flog { c.violation_on("after a violation", &src, &format!("{n}: {} instead of {}\n{src}", x.res.show(), full.res.show())) } } }
        if let Some((sig, text)) = bad { c.violation_on(&sig, &src, &format!("{text}\n{src}")); return }
        if !ok { *sess = Sess::new(); return }
    }
    c.add("stopped_runs", stopped);
    if stopped > 0 { c.nontrivial(fnv(src.as_bytes())); c.sample(|| src.clone()); }
}

const HEAD: &str = "trait Tick<Self> { fn tick(x: Self) -> int ! write; }
struct Tk { k: int }
impl Tick for Tk { fn tick(x: Tk) -> int { host::emit(x.k); x.k } }
struct Nat { n: int }
impl Iterator for <Self = Nat |-> Item = int> { fn next(it: &mut Nat) { it.n = bit_and(it.n + 1, 1023); if it.n < 0 { None } else { Some(it.n) } } }
struct Quiet { n: int }
impl Iterator for <Self = Quiet |-> Item = int> { fn next(it: &mut Quiet) { it.n = bit_xor(it.n, 1); if it.n == 5 { None } else { Some(it.n) } } }
";
/// Programs that never end by themselves.
fn endless(c: &mut Ctx, sess: &mut Sess, r: &mut Rng) {
    let mut fns = String::new();
    let mut n = 0;
    let d = 1 + r.below(3) as u32;
    let body = spin(r, d, &mut fns, &mut n, 0);
    let src = format!("{HEAD}{fns}fn go() -> int {{\n let mut acc = host::feed(0); let mut arr = [1, 2, 3];\n host::emit(-1);\n {body}\n host::emit(-2);\n acc }}\ngo()\n");
    c.eval();
    c.current(&src);
    let o = match guarded(|| sess.compile(&src)) {
        Err(x) => { c.count("compiler panicked"); if c.verbose { println!("{x}") } c.stop_session(sess); return }
        Ok(Err(e)) => { c.count("rejected"); if std::env::var_os("VH_REJ").is_some() { c.violation(&format!("rejected:{}", clip(&sig_of_panic(&e), 60)), &format!("{e}\n{src}")) } return }
        Ok(Ok(o)) => o,
    };
    let Some(e) = o.expr else { return };
    crate::host::FEED.with(|f| *f.borrow_mut() = (vec![1], vec![], vec![]));
    c.current(&format!("running\n{src}"));
    for md in MODES {
        let name = md.name();
        let mut last: Option<Vec<Ev>> = None;
        for f in [r.below(20), 20 + r.below(300), 2000] {
            let x = match guarded(|| sess.run_discard(o.module_id, e, md, lim(f))) {
                Err(x) => { c.violation_on(&format!("panic:{}", sig_of_panic(&x)), &src, &format!("{name} panicked: {x}\nfuel {f}\n{src}")); c.stop_session(sess); return }
                Ok(x) => x,
            };
            let Res::Sandbox(k) = &x.res else { c.violation_on("ended", &src, &format!("{name}: ended with {} under {f} fuel\n{src}", x.res.show())); return };
            c.count(k.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""));
            let log: Vec<Ev> = x.host_log().into_iter().cloned().collect();
            if log.iter().any(|e| *e == Ev::Emit(-2)) { c.violation_on("went past", &src, &format!("{name}: went past what never ends\n{src}")); return }
            // a round of any loop emits a bounded number of events, and takes fuel, or a level of calls
            let most = 64 * (f + 200);
            if log.len() > most { c.violation_on("rate", &src, &format!("{name}: {} events with {f} fuel\n{src}", log.len())); return }
            if let Some(p) = &last { if !(p.len() <= log.len() && p.iter().zip(&log).all(|(a, b)| a == b)) { c.violation_on("prefix", &src, &format!("{name}: with less fuel the events are no prefix\n{src}")); return } }
            c.add("events_before_the_stop", log.len() as u64);
            last = Some(log);
        }
    }
    c.nontrivial(fnv(src.as_bytes()));
    c.count("endless programs stopped");
    c.sample(|| src.clone());
}
fn work(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "acc = acc + 1;".into(),
        1 => "host::emit(acc);".into(),
        2 => "arr[1] = arr[0] + acc;".into(),
        3 => "acc = tick(Tk { k: 3 });".into(),
        4 => "if acc > 5 { acc = 0 } else { acc += 1 };".into(),
        5 => "for i in 0..3 { acc += i };".into(),
        6 => "acc = [1, 2] |> iter() |> map(|x| x + 1) |> fold(0, |a, b| a + b);".into(),
        7 => "{ let wo: Option<int> = Some(acc); match wo { Some(x) => { acc = x + 1 }, None => { acc = 0 } } };".into(),
        8 => "{ let ta = (acc, [acc]); acc = ta.1[0] };".into(),
        _ => "".into(),
    }
}
/// A statement that never ends. `acc` and `arr` are variables in scope.
fn spin(r: &mut Rng, d: u32, fns: &mut String, n: &mut usize, deep: u32) -> String {
    *n += 1;
    let k = *n;
    let (w1, w2) = (work(r), work(r));
    if d > 0 && r.pct(70) {
        let s = spin(r, d - 1, fns, n, deep + 1);
        return match r.below(10) {
            0 => format!("{w1} if acc >= acc {{ {s} }}; {w2}"),
            1 => format!("let mo{k}: Option<int> = Some(acc); match mo{k} {{ Some(z{k}) => {{ {w1} {s} }}, None => {{}} }};"),
            2 => format!("for q{k} in 0..4 {{ {w1} if q{k} == 2 {{ {s} }} }};"),
            3 => format!("acc += {{ {w1} {s} 1 }};"),
            4 => format!("'l{k}: loop {{ {w1} {s} break 'l{k} }};"),
            5 => { fns.push_str(&format!("fn part{k}(start: int) -> int {{ let mut acc = start; let mut arr = [acc, 1, 2]; {s} acc }}\n")); format!("{w1} acc = part{k}(acc);") }
            6 => format!("arr = [1, {{ {w1} {s} 2 }}, 3];"),
            7 => format!("let f{k} = |x| {{ let mut acc = x + 1; let mut arr = [acc, 1, 2]; {w1} {s} acc }}; acc = f{k}(acc);"),
            8 => { fns.push_str(&format!("fn inout{k}(a: &mut int, b: &mut [int]) {{ let mut acc = a; let mut arr = [acc, 1, 2]; {s} a = acc }}\n")); format!("{w1} inout{k}(acc, arr);") }
            _ => format!("{w1} {s} {w2}"),
        };
    }
    match r.below(20) {
        0 => format!("loop {{ {w1} {w2} }};"),
        1 => format!("loop {{ {w1} if acc > 3 {{ continue }}; {w2} }};"),
        2 => format!("loop {{ loop {{ {w1} break }}; {w2} }};"),
        3 => format!("'o{k}: loop {{ loop {{ {w1} continue 'o{k} }} }};"),
        4 => format!("for i{k} in 0..9223372036854775806 {{ {w1} {w2} }};"),
        5 => { fns.push_str(&format!("fn rec{k}(x: int) -> int {{ let mut acc = x; let mut arr = [x, x, x]; {w1} rec{k}(x + 1) + 1 }}\n")); format!("acc = rec{k}(acc);") }
        6 => { fns.push_str(&format!("fn ra{k}(x: int) -> int {{ rb{k}(x + 1) + 1 }}\nfn rb{k}(x: int) -> int {{ let mut acc = x; let mut arr = [x, x, x]; {w1} if acc == acc {{ ra{k}(x) }} else {{ 0 }} }}\n")); format!("acc = ra{k}(acc);") }
        7 => { fns.push_str(&format!("fn ap{k}(f: (int) -> int, x: int) -> int {{ f(x) + 1 }}\nfn rc{k}(x: int) -> int {{ ap{k}(rc{k}, x) }}\n")); format!("acc = rc{k}(acc);") }
        8 => { fns.push_str(&format!("fn rl{k}(x: int) -> int {{ let g = |y| rl{k}(y + 1) + y; g(x) }}\n")); format!("acc = rl{k}(acc);") }
        9 => format!("for i{k} in (Nat {{ n: acc }}) {{ {w1} }};"),
        10 => format!("acc += Nat {{ n: acc }} |> iter() |> map(|x| x + 1) |> fold(0, |a, b| bit_xor(a, b));"),
        11 => format!("acc += Quiet {{ n: 0 }} |> iter() |> filter(|x| x > 5) |> count();"),
        12 => format!("acc += Quiet {{ n: 0 }} |> iter() |> map(|x| x * 2) |> filter(|x| x == 5) |> fold(0, |a, b| a + b);"),
        13 => format!("if (Quiet {{ n: 0 }} |> any(|x| x == 9)) {{ acc = 1 }};"),
        14 => format!("if (Quiet {{ n: 0 }} |> all(|x| x < 9)) {{ acc = 1 }};"),
        15 => format!("acc += (0..9223372036854775806) |> iter() |> map(|x| bit_and(x, 3)) |> fold(0, |a, b| a + b);"),
        16 => format!("acc += (Quiet {{ n: 0 }} |> count());"),
        17 => format!("let fo{k}: Option<int> = (Quiet {{ n: 0 }} |> find(|x| x == 7)); match fo{k} {{ Some(x) => {{ acc = x }}, None => {{}} }};"),
        18 => format!("let sw{k} = (acc, true); loop {{ match sw{k} {{ (0, true) => {{ {w1} }}, _ => {{ {w2} }} }} }};"),
        _ => format!("let mut g{k} = [acc]; loop {{ array_append(g{k}, acc); {w1} }};"),
    }
}
