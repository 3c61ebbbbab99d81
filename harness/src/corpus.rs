//! Seed programs taken from the repository's tests and book, and token-level mutation of them.
use crate::run::*;
use crate::util::*;

pub const OK: &str = include_str!("../../corpus/ok.txt");
pub const REJECT: &str = include_str!("../../corpus/reject.txt");
pub fn split(t: &'static str) -> Vec<&'static str> { t.split("\n%%%%\n").collect() }

/// Sort raw snippets into programs that compile and programs that are rejected.
pub fn filter(raw: &str, ok: &str, bad: &str) {
    install_panic_hook();
    let t = std::fs::read_to_string(raw).unwrap();
    let mut good = vec![];
    let mut rej = vec![];
    std::thread::scope(|s| { std::thread::Builder::new().stack_size(1<<30).spawn_scoped(s, || {
    let mut sess = Sess::new();
    for src in t.split("\n%%%%\n") {
        let r = guarded(|| {
            let o = sess.compile(src)?;
            let Some(e) = o.expr else { return Ok("noexpr".to_string()) };
            let mut t = String::new();
            for m in MODES { let r = sess.run_discard(o.module_id, e, m, limits(300_000)); t.push_str(&r.res.show()); if matches!(r.res, Res::Sandbox(_)) { break } }
            Ok::<String, String>(t)
        });
        match r {
            Ok(Ok(_)) => good.push(src),
            Ok(Err(_)) => rej.push(src),
            Err(p) => { println!("PANIC {p}\n{src}\n======"); std::mem::forget(std::mem::replace(&mut sess, Sess::new())); rej.push(src) }
        }
    }}).unwrap().join().unwrap(); });
    println!("{} ok, {} rejected", good.len(), rej.len());
    std::fs::write(ok, good.join("\n%%%%\n")).unwrap();
    std::fs::write(bad, rej.join("\n%%%%\n")).unwrap();
}

/// Run one file in all modes and print what was observed.
pub fn run_file(p: &str) {
    let src = std::fs::read_to_string(p).unwrap();
    install_panic_hook();
    std::thread::scope(|s| { std::thread::Builder::new().stack_size(1<<30).spawn_scoped(s, || {
    let mut sess = Sess::new();
    let r = guarded(|| match sess.compile(&src) {
        Err(e) => println!("compile error: {e}"),
        Ok(o) => if let Some(e) = o.expr {
            for m in MODES {
                let (r, v) = sess.run_keep(o.module_id, e, m, limits(5_000_000));
                println!("{:14} {}  log {:?} faults {:?} live {}", m.name(), clip(&r.res.show(), 3000), r.log.iter().take(40).collect::<Vec<_>>(), r.faults, r.live);
                if m == Mode::Hir { if let Some(v) = v { let ty = sess.ret_type(o.module_id, e); println!("type {}", sess.type_text(o.module_id, ty)); println!("text {:?}", sess.to_text(o.module_id, v, ty).map(|s| clip(&s, 3000))); } }
            }
        }
    });
    if let Err(p) = r { println!("PANIC {p}"); }
    }).unwrap().join().unwrap(); });
}

#[derive(Clone, Debug, PartialEq)]
pub enum K { Ident, Int, Float, Str, Op, Space }
#[derive(Clone, Debug)]
pub struct Tok { pub k: K, pub t: String }

/// Loose lexer: concatenating the tokens gives the text back.
pub fn lex(src: &str) -> Vec<Tok> {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    while i < c.len() {
        let s = i;
        let k = if c[i].is_whitespace() {
            while i < c.len() && c[i].is_whitespace() { i += 1 }
            K::Space
        } else if c[i] == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' { i += 1 }
            K::Space
        } else if c[i] == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') { i += 1 }
            i = (i + 2).min(c.len());
            K::Space
        } else if c[i] == '"' || (c[i] == 'f' && at(i + 1) == '"') {
            if c[i] == 'f' { i += 1 }
            i += 1;
            while i < c.len() && c[i] != '"' { if c[i] == '\\' { i += 1 } i += 1 }
            i = (i + 1).min(c.len());
            K::Str
        } else if c[i].is_ascii_digit() {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1 }
            if at(i) == '.' && at(i + 1).is_ascii_digit() && !(s > 0 && c[s - 1] == '.') {
                i += 1;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1 }
                K::Float
            } else { K::Int }
        } else if c[i].is_alphabetic() || c[i] == '_' {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1 }
            K::Ident
        } else {
            let three: String = c[i..(i + 3).min(c.len())].iter().collect();
            let two: String = c[i..(i + 2).min(c.len())].iter().collect();
            if ["..="].contains(&three.as_str()) || three == "|->" { i += 3 }
            else if ["->", "=>", "==", "!=", "<=", ">=", "&&", "||", "|>", "..", "::", "+=", "-=", "*=", "/="].contains(&two.as_str()) { i += 2 }
            else { i += 1 }
            K::Op
        };
        out.push(Tok { k, t: c[s..i.min(c.len())].iter().collect() });
    }
    out
}
pub fn join(t: &[Tok]) -> String { t.iter().map(|t| t.t.as_str()).collect() }

pub const KEYWORDS: &[&str] = &["fn", "let", "mut", "if", "else", "match", "for", "in", "loop", "break", "continue", "return", "true", "false", "and", "or", "not", "as", "struct", "enum", "trait", "impl", "where", "type", "use", "pub", "mod", "set", "map", "subscript", "ref", "yield", "const", "Self", "self"];
const INTS: &[&str] = &["0", "1", "2", "3", "5", "7", "-1", "(-2)", "10", "64", "63", "255", "100", "4611686018427387904", "9223372036854775807", "(-9223372036854775807)"];

/// Positions where a statement can be put: after `{` or `;` at any depth, plus the very start of the main part.
fn stmt_slots(t: &[Tok]) -> Vec<usize> {
    let mut v = vec![];
    for (i, x) in t.iter().enumerate() {
        if x.k == K::Op && (x.t == ";" || x.t == "{") { v.push(i + 1) }
    }
    v
}
fn ids(t: &[Tok], k: K) -> Vec<usize> { (0..t.len()).filter(|i| t[*i].k == k && !(k == K::Ident && KEYWORDS.contains(&t[*i].t.as_str()))).collect() }

/// Wrap an integer literal into something the optimizer cannot see through, or that is observable.
fn obscure(r: &mut Rng, lit: &str) -> String {
    match r.below(9) {
        0 => format!("host::trip({lit})"),
        1 => format!("host::probe({lit})"),
        2 => format!("{{ host::emit({lit}); {lit} }}"),
        3 => format!("({lit} + host::sense(2))"),
        4 => format!("(host::sense({}))", r.below(4)),
        5 => format!("(host::swap({}, {lit}))", r.below(4)),
        6 => format!("(if host::sense({}) > 0 {{ {lit} }} else {{ {} }})", r.below(4), r.pick(INTS)),
        7 => format!("({lit} {} {})", r.pick(&["+", "-", "*"]), r.pick(INTS)),
        _ => format!("(idiv({lit}, host::sense({})))", r.below(4)),
    }
}
fn stmt(r: &mut Rng, t: &[Tok]) -> String {
    let idv = ids(t, K::Ident);
    let id = if idv.is_empty() { "x".to_string() } else { t[*r.pick(&idv)].t.clone() };
    let n = r.below(100);
    match r.below(8) {
        0 | 1 => format!(" host::emit({n}); "),
        2 => format!(" host::emits(to_string({id})); "),
        3 => format!(" host::poke({}, {n}); ", r.below(4)),
        4 => format!(" if host::sense({}) == {} {{ panic(\"m{n}\") }}; ", r.below(4), r.pick(&["0", "7", "11", "1"])),
        5 => format!(" let tmp_{n} = {id}; "),
        6 => format!(" host::trip(host::sense({})); ", r.below(4)),
        _ => format!(" {id} = {id}; "),
    }
}

/// One mutated program.
pub fn mutate(r: &mut Rng, pool: &[&'static str], rounds: usize) -> String {
    let mut t = lex(*r.pick(pool));
    for _ in 0..rounds {
        if t.len() > 4000 { break }
        match r.below(20) {
            0..=3 => {
                let v = ids(&t, K::Int);
                if !v.is_empty() {
                    let i = *r.pick(&v);
                    if i > 0 && t[i - 1].t == "." { continue }
                    let lit = t[i].t.clone();
                    t[i].t = if r.pct(35) { r.pick(INTS).to_string() } else { obscure(r, &lit) };
                }
            }
            4..=6 => {
                let v = stmt_slots(&t);
                if !v.is_empty() {
                    let i = *r.pick(&v);
                    let s = stmt(r, &t);
                    t.splice(i..i, lex(&s));
                }
            }
            7..=8 => {
                const CL: &[&[&str]] = &[&["+", "-", "*"], &["<", "<=", ">", ">=", "==", "!="], &["and", "or"], &["..", "..="], &["+=", "-=", "*=", "="], &["true", "false"], &["break", "continue"], &["Some", "None"], &["map", "filter", "filter_map"], &["array_append", "array_prepend"], &["all", "any"], &["idiv", "rem", "mod", "idiv_euclid"], &["min", "max"], &["int", "float", "bool", "string"]];
                let v: Vec<usize> = (0..t.len()).filter(|i| CL.iter().any(|c| c.contains(&t[*i].t.as_str()))).collect();
                if !v.is_empty() {
                    let i = *r.pick(&v);
                    let c = CL.iter().find(|c| c.contains(&t[i].t.as_str())).unwrap();
                    t[i].t = r.pick(c).to_string();
                }
            }
            9..=10 => {
                let v = ids(&t, K::Ident);
                if v.len() > 1 {
                    let a = *r.pick(&v);
                    let b = *r.pick(&v);
                    t[a].t = t[b].t.clone();
                }
            }
            11 => {
                // duplicate a statement-like range
                let v = stmt_slots(&t);
                if v.len() > 1 {
                    let k = r.below(v.len() - 1);
                    let (a, b) = (v[k], v[k + 1]);
                    let seg = t[a..b].to_vec();
                    t.splice(b..b, seg);
                }
            }
            12 => {
                // delete a statement-like range
                let v = stmt_slots(&t);
                if v.len() > 1 {
                    let k = r.below(v.len() - 1);
                    t.drain(v[k]..v[k + 1]);
                }
            }
            13 => {
                // swap two statement-like neighbours
                let v = stmt_slots(&t);
                if v.len() > 2 {
                    let k = r.below(v.len() - 2);
                    let seg = t[v[k]..v[k + 1]].to_vec();
                    t.splice(v[k + 2]..v[k + 2], seg);
                    t.drain(v[k]..v[k + 1]);
                }
            }
            14 => {
                // graft a second program in front
                let other = lex(*r.pick(pool));
                if other.len() + t.len() < 3000 {
                    let mut o = other;
                    o.push(Tok { k: K::Op, t: if r.pct(50) { ";\n".into() } else { "\n".into() } });
                    o.extend(t);
                    t = o;
                }
            }
            15 => {
                // drop, double or swap one token
                if t.len() > 2 {
                    let i = r.below(t.len());
                    match r.below(3) { 0 => { t.remove(i); } 1 => { let x = t[i].clone(); t.insert(i, x) } _ => { let j = r.below(t.len()); t.swap(i, j) } }
                }
            }
            16 => {
                // run the expression part twice through a loop
                let v = stmt_slots(&t);
                if !v.is_empty() {
                    let i = *r.pick(&v);
                    let s = format!(" for it_{} in 0..{} {{ host::emit(it_{}); }}; ", i, r.below(4), i);
                    t.splice(i..i, lex(&s));
                }
            }
            17 => {
                let v = ids(&t, K::Str);
                if !v.is_empty() {
                    let i = *r.pick(&v);
                    t[i].t = r.pick(&["\"\"", "\"a\"", "\"é\u{301}x\"", "\"hello world\"", "\"12\"", "\"👩‍👩‍👧\"", "f\"{1}{2}\""]).to_string();
                }
            }
            18 => {
                // wrap a call argument or a parenthesised expression into a closure call or a block
                let v: Vec<usize> = ids(&t, K::Ident);
                if !v.is_empty() {
                    let i = *r.pick(&v);
                    let x = t[i].t.clone();
                    t[i].t = match r.below(5) { 0 => format!("{{ {x} }}"), 1 => format!("({x})"), 2 => format!("(|| {x})()"), 3 => format!("{{ let w = {x}; w }}"), _ => format!("({x}, 1).0") };
                }
            }
            _ => {
                let v = ids(&t, K::Ident);
                if !v.is_empty() {
                    let i = *r.pick(&v);
                    let o = lex(*r.pick(pool));
                    let w = ids(&o, K::Ident);
                    if !w.is_empty() { t[i].t = o[*r.pick(&w)].t.clone() }
                }
            }
        }
    }
    join(&t)
}

/// What `run FILE` would report, in short: used by the reducer.
fn summary(sess: &mut Sess, src: &str) -> String {
    let r = guarded(|| match sess.compile(src) {
        Err(e) => format!("compile error: {e}"),
        Ok(o) => {
            let mut s = String::new();
            if let Some(e) = o.expr {
                for m in MODES {
                    let r = sess.run_discard(o.module_id, e, m, limits(300_000));
                    s.push_str(&format!("{} {} log {:?} faults {:?} live {}\n", m.name(), r.res.show(), r.log.len(), r.faults, r.live));
                }
            }
            s
        }
    });
    match r { Ok(s) => s, Err(p) => { let s = format!("PANIC {p}"); if let Ok(n) = guarded(Sess::new) { std::mem::forget(std::mem::replace(sess, n)); } s } }
}
/// Reduce a program while what it reports still contains `want` (`~differ`: while the modes disagree).
pub fn reduce(p: &str, want: &str) {
    let src = std::fs::read_to_string(p).unwrap();
    install_panic_hook();
    std::thread::scope(|s| { std::thread::Builder::new().stack_size(1<<30).spawn_scoped(s, || {
        let mut sess = Sess::new();
        let mut tries = 0;
        let mut ok = |t: &str| {
            tries += 1;
            if tries > 6000 { return false }
            let s = summary(&mut sess, t);
            if want == "~differ" { let l: Vec<&str> = s.lines().map(|l| l.rsplit_once("HIR ").or(l.rsplit_once("MIR ")).map(|x| x.1).unwrap_or(l)).collect(); l.len() == 3 && (l[0] != l[1] || l[1] != l[2]) } else { s.contains(want) }
        };
        if !ok(&src) { println!("not reproduced"); return }
        // Lines.
        let mut lines: Vec<String> = src.lines().map(|l| l.to_string()).collect();
        let mut n = (lines.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < lines.len() {
                let c: Vec<String> = lines[..i].iter().chain(&lines[(i + n).min(lines.len())..]).cloned().collect();
                if ok(&c.join("\n")) { lines = c } else { i += n }
            }
            if n == 1 { break }
            n /= 2;
        }
        // Balanced token ranges: delete, or replace by something small.
        let mut text = lines.join("\n");
        loop {
            let before = text.len();
            let toks = lex(&text);
            let t: Vec<String> = toks.into_iter().map(|t| t.t).collect();
            let mut cur = t;
            let mut i = 0;
            while i < cur.len() {
                let mut done = false;
                for len in [60usize, 40, 25, 16, 12, 9, 7, 5, 4, 3, 2, 1] {
                    if i + len > cur.len() { continue }
                    let mut d = 0i32;
                    let mut bad = false;
                    for x in &cur[i..i + len] { match x.as_str() { "(" | "[" | "{" => d += 1, ")" | "]" | "}" => { d -= 1; if d < 0 { bad = true } } _ => {} } }
                    if bad || d != 0 || cur[i..i + len].iter().all(|x| x.trim().is_empty()) { continue }
                    for rep in ["", "0", "()", "true", "1", "[1]", "\"\""] {
                        if cur[i..i + len].concat().len() <= rep.len() { continue }
                        let mut c: Vec<String> = cur[..i].to_vec();
                        if !rep.is_empty() { c.push(rep.into()) }
                        c.extend_from_slice(&cur[i + len..]);
                        if ok(&c.concat()) { cur = c; done = true; break }
                    }
                    if done { break }
                }
                if !done { i += 1 }
            }
            text = cur.concat();
            if text.len() >= before { break }
        }
        println!("{text}");
        println!("// {}", summary(&mut sess, &text).replace('\n', "\n// "));
    }).unwrap().join().unwrap(); });
}
pub fn print_mir(p: &str, opt: bool) {
    let src = std::fs::read_to_string(p).unwrap();
    let mut s = Sess::new();
    s.s.set_mir_optimization(if opt { ferlium::MirOptimization::Enabled } else { ferlium::MirOptimization::Disabled });
    match s.compile(&src) { Err(e) => println!("{e}"), Ok(o) => { let id = if std::env::var_os("VH_STD").is_some() { s.s.modules().id_by_path(&ferlium::module::Path::single_str("std")).unwrap() } else { o.module_id }; println!("{}", s.s.emit_mir_module(id)) } }
}
