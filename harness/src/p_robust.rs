//! A08: every text gets an answer, with positions inside it.
use crate::corpus::{self, K};
use crate::run::*;
use crate::sup::*;
use crate::util::*;
use ferlium::ide::{ErrorData, PositionEncoding};
use ferlium::module::Uses;
use ferlium::{Compiler, CompilerSession, DiagnosticSeverity};

pub fn prop() -> Prop {
    Prop {
        id: "A08",
        level: "exploration",
        rule: "a case is a text (a mutated, damaged, truncated or noisy program, or one of a few nested shapes) given twice to a compiler service with a long history, under two position encodings; non-trivial when both gave an answer whose positions were judged; distinct by text",
        secs: (70, 840),
        cases: (22000, 1 << 40),
        crash: true,
        hang: false,
        assumptions: &["programs whose type inference takes exponential time are not answered in time (a recorded limitation) and are not judged"],
        worker,
        floor: 1500,
    }
}
const CHECK: &str = "fn twice(x) { x + x }\nlet a = [1, 2];\ntwice(a[1]) + 38";
fn service() -> Compiler {
    let mut s = CompilerSession::new();
    crate::host::register(&mut s);
    s.set_allow_experimental(true);
    Compiler::new_with_session_and_uses(s, Uses::new_with_std())
}
fn pos(src: &str) -> usize { src.chars().count() }
/// The UTF-16 offset of each scalar offset.
fn units(src: &str) -> Vec<usize> { let mut v = vec![0]; for ch in src.chars() { v.push(v.last().unwrap() + ch.len_utf16()) } v }
fn slice(src: &str, a: usize, b: usize) -> String { src.chars().skip(a).take(b.saturating_sub(a)).collect() }

fn worker(c: &mut Ctx) {
    let ok: Vec<_> = corpus::split(corpus::OK);
    let rej: Vec<_> = corpus::split(corpus::REJECT);
    let all: Vec<_> = ok.iter().chain(&rej).copied().collect();
    let mut ide = service();
    let mut n = 0;
    while let Some(i) = c.take() {
        let mut r = c.rng(i);
        c.eval();
        if r.pct(12) { planted(c, &mut ide, &mut r, &ok); continue }
        let (src, name) = text(&mut r, &ok, &all);
        c.current(&src);
        let fine = judge(c, &mut ide, &src, name.as_deref(), &mut r);
        n += 1;
        if !fine || n > 1500 { n = 0; match guarded(service) { Ok(s) => std::mem::forget(std::mem::replace(&mut ide, s)), Err(_) => return } }
    }
}
const NAME: &str = "zz_nowhere_q";
/// A text, and a name it uses that is declared nowhere.
fn text(r: &mut Rng, ok: &[&'static str], all: &[&'static str]) -> (String, Option<String>) {
    let wide = ["é", "😀", "ﬃ", "\u{301}", "한", "\u{200d}", "日本", "𝒳"];
    let mut src = match r.below(10) {
        0..=2 => { let n = 1 + r.below(5); corpus::mutate(r, all, n) }
        3 => r.pick(all).to_string(),
        4 | 5 => {
            // Damage at character level.
            let mut v: Vec<char> = r.pick(all).chars().collect();
            for _ in 0..1 + r.below(4) {
                if v.is_empty() { break }
                let at = r.below(v.len());
                match r.below(6) {
                    0 => { v.remove(at); }
                    1 => { let k = *r.pick(&['{', '}', '(', ')', '[', ']', '"', '\\', '\'', '<', '>', '|', '!', '&', '.', ',', ';', ':', '@', '#', '=', '-', '0', '\n', '\0', '_', '$', 'é', '😀']); v.insert(at, k) }
                    2 => { let b = r.below(v.len()); v.swap(at, b) }
                    3 => { let n = (at + r.below(12)).min(v.len()); v.drain(at..n); }
                    4 => { v.truncate(at) }
                    _ => { let n = (at + r.below(20)).min(v.len()); let d: Vec<char> = v[at..n].to_vec(); let to = r.below(v.len()); for (k, ch) in d.into_iter().enumerate() { v.insert(to + k, ch) } }
                }
            }
            v.into_iter().collect()
        }
        6 => {
            // Two programs glued.
            let (a, b) = (r.pick(all).to_string(), r.pick(all).to_string());
            let cut = |s: &str, k: usize| -> String { let v: Vec<char> = s.chars().collect(); v[..k.min(v.len())].iter().collect() };
            let k = r.below(a.chars().count() + 1);
            format!("{}{}", cut(&a, k), b)
        }
        7 => {
            // An undeclared name somewhere.
            let mut t = corpus::lex(r.pick(ok));
            let ids: Vec<usize> = t.iter().enumerate().filter(|(_, t)| t.k == K::Ident).map(|(i, _)| i).collect();
            if !ids.is_empty() { let k = *r.pick(&ids); t[k].t = NAME.into() }
            let s = wide_comments(r, &corpus::join(&t), &wide);
            return (s, Some(NAME.into()))
        }
        8 => {
            // Nested shapes.
            let n = *r.pick(&[2usize, 10, 60, 100, 130]);
            let (a, m, b) = *r.pick(&[("(", "1", ")"), ("[", "1", "]"), ("{ ", "1", " }"), ("-", "1", ""), ("not ", "true", ""), ("if true { ", "1", " } else { 2 }"), ("|x| ", "1", ""), ("Some(", "1", ")"), ("(1, ", "1", ")"), ("1 + (", "1", ")"), ("loop { ", "break", " }"), ("match 1 { _ => ", "2", " }"), ("{ let x = 1; ", "x", " }"), ("f(", "1", ")"), ("a.", "b", ""), ("fn f() { ", "1", " }"), ("for i in 0..2 { ", "()", " }"), ("{ a: ", "1", " }"), ("1; ", "1", ""), ("1 + ", "1", ""), ("to_string(", "1", ")"), ("[1][", "0", "]")]);
            let n = if a == "[" { n.min(16) } else { n };
            let (x, y) = if r.pct(85) { (n, n) } else { (n, r.below(n + 3)) };
            format!("{}{m}{}", a.repeat(x), b.repeat(y))
        }
        _ => {
            // Noise.
            let words = ["fn", "let", "mut", "if", "else", "match", "loop", "for", "in", "break", "continue", "return", "struct", "enum", "trait", "impl", "pub", "use", "mod", "where", "=>", "->", "|->", "(", ")", "{", "}", "[", "]", "<", ">", ",", ";", ":", "::", "..", "..=", "=", "==", "!=", "+=", "+", "-", "*", "/", "&", "&mut", "|", "|>", "!", ".", "@", "#[", "x", "y", "f", "T", "int", "string", "1", "2.5", "\"s\"", "f\"{x}\"", "'a", "'l:", "Self", "not", "and", "or", "as", "_", "r\"", "//", "/*", "*/", "\n", "😀", "0x", "1e", "\\", "property", "subscript", "yield", "type", "module", "std::", "???"];
            (0..1 + r.below(24)).map(|_| { let w = *r.pick(&words); format!("{w}{}", if r.pct(70) { " " } else { "" }) }).collect()
        }
    };
    if r.pct(50) { src = wide_comments(r, &src, &wide) }
    (src, None)
}
/// An error of its own at the end of a good program is reported, and where it is.
fn planted(c: &mut Ctx, ide: &mut Compiler, r: &mut Rng, ok: &[&'static str]) {
    let p = r.pick(ok).trim_end().to_string();
    let w = *r.pick(&["", "é", "😀😀", "한e\u{301}"]);
    let p = format!("/* {w} */ {p}\n;\n");
    c.current(&p);
    let e = *r.pick(&[
        "let zz_e: int = \"zz\"; ()", "(1, 2).7", "let zz_q = 1; zz_q = 2; ()", "{ a: 1 }.zz_b", "1 + true", "let zz_r: zz_t = 1; ()", "true and 3", "if 1 { 2 } else { 3 }",
        "if true { 1 } else { \"a\" }", "[1, \"a\"]", "match 1 { 1 => 2 }", "let zz_s: string = 5; zz_s", "let zz_f = |zz_x| zz_x + 1; zz_f(1, 2)", "@zz_p", "host::zz_missing(1)", "host::emit(\"a\")", "break", "f\"{zz_v}\"", "(1)(2)", "let (zz_a, zz_b) = 5; ()", "return 5", "1 zz_2", "let = 5;", "{ let zz_1 = 1;", "[1, 2", "std::zz_none(3)", "'zz", "not 5",
    ]);
    let src = format!("{p}{e}");
    let (x, y) = match guarded(|| { ide.set_position_encoding(PositionEncoding::UnicodeScalar); (ide.compile_report(&p), ide.compile_report(&src)) }) {
        Err(x) => { c.violation_on(&format!("panic:{}", sig_of_panic(&x)), &src, &format!("the compiler panicked: {x}\n{src}")); return }
        Ok(x) => x,
    };
    // What follows an expression that never ends is not typed.
    if ["panic", "loop", "return", "recurse", "exit", "abort"].iter().any(|w| p.contains(w)) { c.count("may not end"); return }
    if !x.succeeded { c.count("the program does not take a statement at its end"); return }
    let at = pos(&p);
    let show = || y.diagnostics.iter().map(|e| format!("{}..{} {}", e.from, e.to, clip(&e.text, 200))).collect::<Vec<_>>().join("; ");
    if y.succeeded { c.violation_on(&format!("planted accepted: {e}"), &src, &format!("accepted\n{src}")); return }
    let errs: Vec<_> = y.diagnostics.iter().filter(|e| e.severity == DiagnosticSeverity::Error).collect();
    if errs.is_empty() || errs.iter().any(|e| (e.from as usize) < at || e.to as usize > pos(&src)) { c.violation_on(&format!("place of a planted error: {e}"), &src, &format!("{}\nexpected within {at}..{}\n{src}", show(), pos(&src))) }
    c.count("planted errors placed");
    c.nontrivial(fnv(src.as_bytes()));
}
/// Comments and texts with characters that are longer than one byte or one unit.
fn wide_comments(r: &mut Rng, src: &str, wide: &[&str]) -> String {
    let mut s = String::new();
    if r.pct(50) { s.push_str(&format!("/* {} */ ", r.pick(wide))) }
    for (k, l) in src.split('\n').enumerate() {
        if k > 0 { s.push('\n') }
        s.push_str(l);
        if r.pct(20) && !l.contains("//") { s.push_str(&format!(" // {}{}", r.pick(wide), r.pick(wide))) }
    }
    s
}
fn judge(c: &mut Ctx, ide: &mut Compiler, src: &str, name: Option<&str>, r: &mut Rng) -> bool {
    let total = pos(src);
    let un = units(src);
    let mut bad: Option<(&'static str, String)> = None;
    let x = guarded(|| {
        ide.set_position_encoding(PositionEncoding::UnicodeScalar);
        let a = ide.compile_report(src);
        let ann: Vec<(usize, String)> = ide.get_annotations().into_iter().map(|a| (a.pos, a.hint)).collect();
        let light: Vec<(usize, String)> = ide.get_light_annotations().into_iter().map(|a| (a.pos, a.hint)).collect();
        let names = if a.succeeded { let v = ide.list_module_fn_names(); ide.list_module_props(); v } else { vec![] };
        for n in names.iter().rev().take(6) { let f = ide.fn_signature(n); let g = ide.fn_signature_without_effects(n); if let (Some(f), Some(g)) = (f, g) { if !f.starts_with(&g) { bad = Some(("signature", format!("`{g}` does not begin `{f}`"))) } } }
        ide.set_position_encoding(PositionEncoding::Utf16CodeUnit);
        let b = ide.compile_report(src);
        let ann2: Vec<(usize, String)> = ide.get_annotations().into_iter().map(|a| (a.pos, a.hint)).collect();
        (a, ann, light, b, ann2)
    });
    let (a, ann, light, b, ann2) = match x {
        Err(p) => { c.violation_on(&format!("panic:{}", sig_of_panic(&p)), src, &format!("the compiler panicked: {p}\n{src}")); return false }
        Ok(x) => x,
    };
    let mut note = |k: &'static str, t: String| if bad.is_none() { bad = Some((k, t)) };
    let show = |v: &[ErrorData]| v.iter().map(|e| format!("{}..{} {}", e.from, e.to, clip(&e.text, 200))).collect::<Vec<_>>().join("; ");
    let errors = |v: &[ErrorData]| v.iter().filter(|e| e.severity == DiagnosticSeverity::Error).count();
    if !a.succeeded && errors(&a.diagnostics) == 0 { note("rejected without an error", String::new()) }
    if a.succeeded && errors(&a.diagnostics) > 0 { note("accepted with an error", show(&a.diagnostics)) }
    for e in &a.diagnostics {
        if e.file != "<ide>" { c.count("errors in another file"); continue }
        let (f, t) = (e.from as usize, e.to as usize);
        if !(f <= t && t <= total) { note("error outside the text", format!("{f}..{t} of {total}: {}", e.text)) }
        if e.text.is_empty() { note("empty message", format!("{f}..{t}")) }
        c.count(if e.severity == DiagnosticSeverity::Error { "errors placed" } else { "warnings placed" });
        c.seen("messages", fnv(sig_of_panic(&e.text.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(24).collect::<String>()).as_bytes()));
    }
    if a.succeeded != b.succeeded || a.diagnostics.len() != b.diagnostics.len() { note("second answer", format!("{} [{}] then {} [{}]", a.succeeded, show(&a.diagnostics), b.succeeded, show(&b.diagnostics))) }
    else { for (x, y) in a.diagnostics.iter().zip(&b.diagnostics) {
        if x.file != "<ide>" { continue }
        let (f, t) = (un.get(x.from as usize), un.get(x.to as usize));
        if f != Some(&(y.from as usize)) || t != Some(&(y.to as usize)) { note("encodings", format!("{}..{} in characters, {}..{} in units, expected {f:?}..{t:?}: {}", x.from, x.to, y.from, y.to, x.text)) }
    } }
    if ann.len() != ann2.len() { note("second hints", format!("{ann:?} then {ann2:?}")) }
    else { for (x, y) in ann.iter().zip(&ann2) { if un.get(x.0) != Some(&y.0) || x.1 != y.1 { note("hints in two encodings", format!("{x:?} and {y:?}")) } } }
    for (p, h) in ann.iter().chain(&light) { if *p > total { note("hint outside the text", format!("{p} of {total}: {h}")) } c.count("hints placed") }
    if let Some(n) = name {
        for e in a.diagnostics.iter().filter(|e| e.severity == DiagnosticSeverity::Error && e.file == "<ide>" && e.text.contains(n) && (e.text.starts_with("Cannot find") || e.text.starts_with("Undefined") || e.text.starts_with(&format!("Variant name `{n}`")))) {
            c.count("errors that name the undeclared name");
            let s = slice(src, e.from as usize, e.to as usize);
            if !s.contains(n) { note("place of an undeclared name", format!("{}..{} is {s:?}, not where {n} is: {}", e.from, e.to, e.text)) }
        }
    }
    c.count(if a.succeeded { "accepted" } else { "rejected" });
    if let Some((k, t)) = bad { c.violation_on(k, src, &format!("{k}: {t}\n{src}")); return true }
    c.nontrivial(fnv(src.as_bytes()));
    c.sample(|| format!("{src}\n=> {} {}", a.succeeded, show(&a.diagnostics)));
    // Whatever came before, a good program is still compiled and run.
    if r.pct(5) {
        let x = guarded(|| { if let Some(e) = ide.compile(CHECK) { return format!("rejected: {}", show(&e)) } ide.run_expr().map(|x| x.html_message()).unwrap_or_default() });
        c.count("recoveries");
        match x {
            Ok(s) if s == "42: int" => {}
            Ok(s) => { c.violation_on("after", src, &format!("after this text, a good program gave {s}\n{src}")); return false }
            Err(p) => { c.violation_on("after", src, &format!("after this text, a good program panicked: {p}\n{src}")); return false }
        }
    }
    true
}
