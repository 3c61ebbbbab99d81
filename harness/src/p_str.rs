//! A15: text. Strings against Rust's Unicode libraries: every string is a value of its own, in
//! canonical composition, measured and cut in user-perceived characters.
use crate::obs::*;
use crate::sup::*;
use crate::tv::quote;
use crate::util::*;
use unicode_normalization::UnicodeNormalization;
use unicode_segmentation::UnicodeSegmentation;

pub fn prop() -> Prop {
    Prop {
        id: "A15",
        level: "exploration",
        rule: "a case is a generated program that builds, appends to, cuts, searches, copies and compares strings over an alphabet of characters that combine, cluster or change case in unusual ways; non-trivial when all execution paths ran it and every result was compared with the Unicode reference",
        secs: (60, 840),
        cases: (4000, 1 << 40),
        crash: true,
        hang: false,
        assumptions: &["normalization, segmentation and case mapping of the Unicode crates and of Rust's standard library, and Rust's number parsing, are the reference"],
        worker: |c| worker_with(c, FIXED, generate),
        floor: 300,
    }
}
const FIXED: &[(&str, &str, &[&str])] = &[
    ("appended Hangul jamo compose", "let mut s = \"\\u{1100}\";\nstring_push_str(s, \"\\u{1161}\");\nhost::emits(to_string((s == \"\\u{ac00}\", len(s), string_byte_len(s))))", &["(true, 1, 3)"]),
    ("appended Hangul jamo compose in a loop", "let mut s = \"\";\nfor i in 0..2 { let p = if i == 0 { \"\\u{1100}\" } else { \"\\u{1161}\" }; s = f\"{s}{p}\" };\nhost::emits(to_string((s == \"\\u{ac00}\", string_byte_len(s))))", &["(true, 3)"]),
];
const ATOMS: &[&str] = &["a", "b", "e", "o", "A", "E", "x", "ab", "aa", "\u{301}", "\u{308}", "\u{323}", "\u{327}", "é", "e\u{301}", "o\u{308}\u{323}", "ß", "ẞ", "İ", "ı", "ﬁ", "Σ", "ς", "σ", "ΑΣ", "\u{1100}", "\u{1161}", "\u{11a8}", "가", "각", "👩", "\u{200d}", "🚀", "👩\u{200d}🚀", "🇨", "🇭", "🇨🇭", "👍🏽", "🏽", "\r", "\n", "\r\n", " ", "  ", "\u{a0}", "\t", "\u{3000}", "\"", "\\", "'", "{", "}", ",", "-", "+", ".", "_", "0", "1", "7", "12", "true", "false", "e5", "\u{344}", "\u{212b}", "\u{958}", "\u{915}", "\u{93c}", "\u{fb1d}", "\u{2126}", "\u{fe0f}", "❤\u{fe0f}", "ǆ", "ǅ", "ŉ", "\u{345}", "ᾳ", "\u{0}", "\u{7f}", "\u{85}", "日本", "한글"];
const NUMS: &[&str] = &["12", "-7", "+3", "007", " 1", "1 ", "", "-", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1_000", "0x1f", "1.5", "1e3", ".5", "5.", "1e400", "-1e400", "inf", "nan", "NaN", "infinity", "1e-400", "0.1", "-0.25", "true", "false", "True", "TRUE", " true", "1", "١", "1e", "e5", "+.5e-2"];
fn nfc(s: &str) -> String { s.nfc().collect() }
fn gs(s: &str) -> Vec<&str> { s.graphemes(true).collect() }
fn slice(s: &str, a: i64, b: i64) -> String {
    let g = gs(s);
    let n = |i: i64| if i < 0 { (g.len() as i64 + i).max(0) as usize } else { i.min(g.len() as i64) as usize };
    let (a, b) = (n(a), n(b));
    if b <= a { String::new() } else { g[a..b].concat() }
}
fn split(s: &str, sep: &str) -> Vec<String> {
    let (g, n) = (gs(s), gs(sep).len());
    let (mut out, mut from, mut i) = (vec![], 0, 0);
    while i + n <= g.len() { if g[i..i + n].concat() == sep { out.push(g[from..i].concat()); i += n; from = i } else { i += 1 } }
    out.push(g[from..].concat());
    out
}
fn opt(x: Option<String>) -> String { match x { Some(x) => format!("Some ({x})"), None => "None".into() } }
#[derive(Clone)]
struct Var { name: String, s: String, m: bool }
struct G<'a> { r: &'a mut Rng, k: Case, vars: Vec<Var>, n: usize, ind: usize }
impl G<'_> {
    fn text(&mut self) -> String {
        let n = match self.r.below(10) { 0 => 0, 1..=4 => 1, 5..=8 => 1 + self.r.below(4), _ => 3 + self.r.below(6) };
        let atoms: Vec<&str> = if self.r.pct(30) { let few: Vec<&str> = (0..3).map(|_| *self.r.pick(ATOMS)).collect(); (0..n).map(|_| *self.r.pick(&few)).collect() } else { (0..n).map(|_| *self.r.pick(ATOMS)).collect() };
        atoms.concat()
    }
    fn fresh(&mut self) -> String { self.n += 1; format!("s{}", self.n) }
    fn line(&mut self, s: &str) { let i = "  ".repeat(self.ind); self.k.src.push_str(&format!("{i}{s};\n")) }
    /// A source of text: a literal or an input.
    fn lit(&mut self) -> (String, String) {
        let t = if self.r.pct(12) { self.r.pick(NUMS).to_string() } else { self.text() };
        let v = nfc(&t);
        if self.r.pct(35) { self.k.feed.2.push(t); (format!("host::feeds({})", self.k.feed.2.len() - 1), v) } else { (quote(&t), v) }
    }
    fn var(&mut self) -> Option<Var> { if self.vars.is_empty() { None } else { let i = if self.r.pct(50) { self.vars.len() - 1 } else { self.r.below(self.vars.len()) }; Some(self.vars[i].clone()) } }
    fn leaf(&mut self) -> (String, String) { match self.var() { Some(v) if self.r.pct(65) => (v.name, v.s), _ => self.lit() } }
    fn ix(&mut self, s: &str) -> i64 { let n = gs(s).len() as i64; match self.r.below(12) { 0 => i64::MAX, 1 => -i64::MAX, 2 => n, 3 => n + 1, 4 => -n, 5 => -n - 1, _ => self.r.range(-3, n.min(6) + 1) } }
    fn interp(&mut self) -> (String, String) {
        let (mut t, mut v) = (String::from("f\""), String::new());
        for _ in 0..1 + self.r.below(4) {
            match self.var() {
                Some(x) if self.r.pct(60) => { t.push_str(&format!("{{{}}}", x.name)); v.push_str(&x.s) }
                _ => { let p = self.text().replace(['{', '}'], "\u{301}"); let q = quote(&p); t.push_str(&q[1..q.len() - 1]); v.push_str(&p) }
            }
        }
        t.push('"');
        (t, nfc(&v))
    }
    /// Text-valued expression.
    fn ex(&mut self, d: u32) -> (String, String) {
        if d == 0 { return self.leaf() }
        match self.r.below(15) {
            0 | 1 => { let (a, x) = self.ex(d - 1); let (b, y) = self.ex(d - 1); let f = if self.r.pct(50) { "concat" } else { "string_concat" }; (format!("{f}({a}, {b})"), nfc(&(x + &y))) }
            2 | 3 => { let (a, x) = self.ex(d - 1); let (i, j) = (self.ix(&x), self.ix(&x)); (format!("{}({a}, {i}, {j})", if self.r.pct(50) { "slice" } else { "string_slice" }), slice(&x, i, j)) }
            4 => { let (a, x) = self.ex(d - 1); (format!("uppercase({a})"), nfc(&x.to_uppercase())) }
            5 => { let (a, x) = self.ex(d - 1); (format!("lowercase({a})"), nfc(&x.to_lowercase())) }
            6 => { let (a, x) = self.ex(d - 1); (format!("string_trim({a})"), x.trim().to_string()) }
            7 => { let (a, x) = self.ex(d - 1); let (b, y) = self.part(&x); let (c, z) = self.leaf(); (format!("string_replace({a}, {b}, {c})"), nfc(&x.replace(&y, &z))) }
            8 => { let (a, x) = self.leaf(); let n = self.r.range(0, 4); (format!("again({a}, {n})"), nfc(&x.repeat(n as usize))) }
            9 => { let (a, x) = self.leaf(); let (b, y) = self.leaf(); (format!("twice({a}, {b})"), nfc(&format!("{x}{y}{x}"))) }
            10 => { let (a, x) = self.leaf(); (format!("rev({a})"), nfc(&gs(&x).into_iter().rev().fold(String::new(), |o, g| nfc(&(o + g))))) }
            11 => { let (a, x) = self.leaf(); let (b, y) = self.leaf(); let n = self.r.range(0, 4); (format!("echo({a}, {b}, {n})"), { let mut o = x.clone(); let mut snap = String::new(); for i in 0..n { if i == 1 { snap = o.clone() } o = nfc(&(o + &y)); if o.len() > 30 { o = nfc(&(o + "!")) } } nfc(&format!("{o}|{snap}")) }) }
            _ => self.interp(),
        }
    }
    /// Something that often occurs in the text.
    fn part(&mut self, x: &str) -> (String, String) {
        if self.r.pct(60) {
            let g = gs(x);
            if !g.is_empty() { let i = self.r.below(g.len()); let n = 1 + self.r.below(2); let p = g[i..(i + n).min(g.len())].concat(); if !p.contains('\0') || true { return (quote(&p), nfc(&p)) } }
        }
        self.leaf()
    }
    /// Any observation, with its rendering.
    fn probe(&mut self) -> (String, String) {
        let (a, x) = if self.r.pct(60) { self.leaf() } else { self.ex(1) };
        match self.r.below(15) {
            0 => (format!("len({a})"), gs(&x).len().to_string()),
            1 => (format!("(string_len({a}), string_byte_len({a}), string_is_empty({a}))"), format!("({}, {}, {})", gs(&x).len(), x.len(), x.is_empty())),
            2 => { let (b, y) = self.part(&x); (format!("contains_substring({a}, {b})"), x.contains(&y).to_string()) }
            3 => { let (b, y) = self.part(&x); (format!("(string_starts_with({a}, {b}), string_ends_with({a}, {b}))"), format!("({}, {})", x.starts_with(&y), x.ends_with(&y))) }
            4 => { let (b, y) = self.leaf(); (format!("({a} == {b}, {a} != {b}, {a} < {b}, {a} >= {b})"), format!("({}, {}, {}, {})", x == y, x != y, x < y, x >= y)) }
            5 => { let (b, y) = self.leaf(); (format!("cmp({a}, {b})"), format!("{:?}", x.cmp(&y))) }
            6 => { let (b, y) = self.part(&x); if y.is_empty() { return self.probe() } (format!("split({a}, {b})"), format!("[{}]", split(&x, &y).join(", "))) }
            7 => (format!("parse_int({a})"), opt(x.parse::<i64>().ok().map(|x| x.to_string()))),
            8 => (format!("parse_float({a})"), opt(x.parse::<f64>().ok().filter(|x| x.is_finite()).map(|x| x.to_string()))),
            9 => (format!("parse_bool({a})"), opt(x.parse::<bool>().ok().map(|x| x.to_string()))),
            10 => (format!("chars({a})"), format!("[{}]", gs(&x).join(", "))),
            11 => { let (b, y) = self.leaf(); let k = format!("{x}{y}"); (format!("set_contains(set {{ {a}, concat({a}, {b}) }}, {})", quote(&k)), { let k = nfc(&k); (k == x || k == nfc(&format!("{x}{y}"))).to_string() }) }
            12 => { let (b, y) = self.part(&x); if y.is_empty() { return self.probe() } (format!("join(split({a}, {b}), {b}) == {a}"), (nfc(&split(&x, &y).iter().enumerate().fold(String::new(), |o, (i, p)| { let o = if i > 0 { nfc(&(o + &y)) } else { o }; nfc(&(o + p)) })) == x).to_string()) }
            13 => { let e = NUMS[self.r.below(NUMS.len())]; (format!("(parse_int({}), parse_float({}))", quote(e), quote(e)), format!("({}, {})", opt(e.parse::<i64>().ok().map(|x| x.to_string())), opt(e.parse::<f64>().ok().filter(|x| x.is_finite()).map(|x| x.to_string())))) }
            _ => (a, x),
        }
    }
    fn emit(&mut self, e: &str, want: String) { self.line(&format!("host::emits(to_string({e}))")); self.k.want.push(nfc(&want)) }
    fn set(&mut self, name: &str, s: String) { for v in &mut self.vars { if v.name == name { v.s = s.clone() } } }
    fn stmt(&mut self) {
        match self.r.below(14) {
            0..=2 => { let (e, s) = self.ex(2); let name = self.fresh(); let m = self.r.pct(65); self.line(&format!("let {}{name} = {e}", if m { "mut " } else { "" })); self.vars.push(Var { name, s, m }); }
            // Copies that have to stay what they are.
            3 => if let Some(v) = self.var() { let name = self.fresh(); let m = self.r.pct(50); self.line(&format!("let {}{name} = {}", if m { "mut " } else { "" }, v.name)); self.vars.push(Var { name, s: v.s, m }) },
            4..=7 => if let Some(v) = self.mutable() {
                let (e, s) = self.ex(1);
                let self_ = if self.r.pct(15) { Some(v.clone()) } else { None };
                let (e, s) = match self_ { Some(v) => (v.name, v.s), None => (e, s) };
                let new = match self.r.below(6) {
                    0 | 1 if e != v.name => { self.line(&format!("string_push_str({}, {e})", v.name)); nfc(&(v.s.clone() + &s)) }
                    2 if e != v.name => { self.line(&format!("add({}, {e})", v.name)); nfc(&format!("{}{s}.", v.s)) }
                    3 => { let t = self.text().replace(['{', '}', '"', '\\'], "\u{308}"); let t2 = quote(&t); let t2 = &t2[1..t2.len() - 1]; self.line(&format!("{0} = f\"{{{0}}}{t2}\"", v.name)); nfc(&format!("{}{t}", v.s)) }
                    4 => if let Some(w) = self.var() { self.line(&format!("{0} = f\"{{{0}}}{{{1}}}\"", v.name, w.name)); nfc(&format!("{}{}", v.s, w.s)) } else { return },
                    _ => { self.line(&format!("{} = {e}", v.name)); s }
                };
                self.set(&v.name, new);
            },
            8 => if let Some(v) = self.mutable() {
                let n = self.r.range(0, 4);
                let (e, s) = self.leaf();
                if e == v.name { return }
                self.line(&format!("for i in 0..{n} {{ {0} = f\"{{{0}}}{{i}}\"; string_push_str({0}, {e}) }}", v.name));
                let mut x = v.s; for i in 0..n { x = nfc(&format!("{x}{i}")); x = nfc(&(x + &s)) }
                if x.len() < 400 || true { self.set(&v.name, x) }
            },
            9 => {
                // Strings inside other values.
                let ((a, x), (b, y), (c, z)) = (self.leaf(), self.leaf(), self.ex(1));
                let i = self.r.below(2);
                let name = self.fresh();
                match self.r.below(3) {
                    0 => { self.line(&format!("let mut {name} = [{a}, {b}]")); self.line(&format!("let {name}c = {name}")); self.line(&format!("string_push_str({name}[{i}], {c})")); let (mut p, mut q) = (x.clone(), y.clone()); if i == 0 { p = nfc(&(p + &z)) } else { q = nfc(&(q + &z)) } self.emit(&format!("({name}, {name}c)"), format!("([{p}, {q}], [{x}, {y}])")) }
                    1 => { self.line(&format!("let mut {name} = ({a}, {b})")); self.line(&format!("let {name}c = {name}.{i}")); self.line(&format!("add({name}.{i}, {c})")); let (mut p, mut q) = (x.clone(), y.clone()); if i == 0 { p = nfc(&(p + &z + ".")) } else { q = nfc(&(q + &z + ".")) } self.emit(&format!("({name}, {name}c)"), format!("(({p}, {q}), {})", if i == 0 { x } else { y })) }
                    _ => { self.line(&format!("let {name}c = {a}")); self.line(&format!("let {name} = || concat({name}c, {b})")); self.emit(&format!("{name}()"), x + &y) }
                }
            }
            _ => { let (e, w) = self.probe(); self.emit(&e, w) }
        }
        let total: usize = self.vars.iter().map(|v| v.s.len()).max().unwrap_or(0);
        if total > 300 { self.vars.retain(|v| v.s.len() <= 300) }
    }
    fn mutable(&mut self) -> Option<Var> { let v: Vec<Var> = self.vars.iter().filter(|v| v.m).cloned().collect(); if v.is_empty() { None } else { Some(self.r.pick(&v).clone()) } }
}
pub fn generate(r: &mut Rng) -> Case {
    let mut g = G { r, k: Case::default(), vars: vec![], n: 0, ind: 0 };
    g.k.src.push_str("fn again(t: string, n: int) -> string { let mut out = \"\"; for i in 0..n { out = f\"{out}{t}\" }; out }
fn twice(a: string, b: string) -> string { f\"{a}{b}{a}\" }
fn add(s: &mut string, t: string) { string_push_str(s, t); s = f\"{s}.\" }
fn chars(s: string) -> [string] { let mut out: [string] = []; for c in iter(s) { array_append(out, c) }; out }
fn rev(s: string) -> string { let mut out = \"\"; for c in iter(s) { out = concat(c, out) }; out }
fn echo(a: string, b: string, n: int) -> string { let mut out = a; let mut snap = \"\"; for i in 0..n { if i == 1 { snap = out }; out = f\"{out}{b}\"; if string_byte_len(out) > 30 { out = f\"{out}!\" } }; f\"{out}|{snap}\" }
");
    let body = g.r.pct(50);
    if body { g.k.src.push_str("fn go() {\n"); g.ind = 1 }
    for _ in 0..2 { let (e, s) = g.lit(); let name = g.fresh(); g.line(&format!("let mut {name} = {e}")); g.vars.push(Var { name, s, m: true }) }
    for _ in 0..8 + g.r.below(10) { g.stmt() }
    for v in g.vars.clone() { g.emit(&v.name, v.s) }
    if g.r.pct(8) { let (a, _) = g.leaf(); g.line(&format!("host::emits(to_string(split({a}, \"\")))")); g.k.failure = Some("InvalidArgument(*".into()) }
    if body { g.k.src.push_str("  ()\n}\ngo()\n") } else { g.k.src.push_str("()\n") }
    g.k
}
