//! A05: a program is accepted only if every use fits its type; each ill-typed program has an accepted twin.
use crate::obs::*;
use crate::run::*;
use crate::sup::*;
use crate::util::*;

pub fn prop() -> Prop {
    Prop {
        id: "A05",
        level: "exploration",
        rule: "a case is a program in which a value of a known type, wrapped in random constructs, is put at a place that requires a type, and its twin in which the value has another type (or a use has another shape); non-trivial when the first was accepted and reported the value on every execution path and the second was rejected; distinct by program text",
        secs: (50, 840),
        cases: (6000, 1 << 40),
        crash: true,
        hang: false,
        assumptions: &["number literals take the number type their place requires, so wrong values are results of annotated functions"],
        worker,
        floor: 400,
    }
}
#[derive(Clone, PartialEq)]
enum T { Int, Float, Bool, Str, Unit, Tup(Vec<T>), Arr(Box<T>), Opt(Box<T>), S, E, Fun(Box<T>, Box<T>), Rec(Vec<(&'static str, T)>) }
struct G<'a> { r: &'a mut Rng, n: usize, tag: &'static str }
impl G<'_> {
    fn scalar(&mut self) -> T { [T::Int, T::Float, T::Bool, T::Str][self.r.below(4)].clone() }
    fn ty(&mut self, d: usize) -> T {
        if d == 0 || self.r.pct(45) { return match self.r.below(8) { 0 => T::S, 1 => T::E, 2 => T::Unit, _ => self.scalar() } }
        match self.r.below(6) {
            0 => T::Tup((0..2 + self.r.below(2)).map(|_| self.ty(d - 1)).collect()),
            1 => { let t = self.ty(d - 1); if has_fun(&t) { T::Opt(Box::new(t)) } else { T::Arr(Box::new(t)) } }
            2 => T::Opt(Box::new(self.ty(d - 1))),
            3 => {
                let mut f: Vec<_> = ["a", "k", "m", "z"].iter().filter(|_| self.r.pct(45)).copied().collect();
                if f.is_empty() { f.push("k") }
                T::Rec(f.into_iter().map(|n| (n, self.ty(d - 1))).collect())
            }
            4 => T::Fun(Box::new(self.scalar()), Box::new(self.scalar())),
            _ => self.scalar(),
        }
    }
    fn fresh(&mut self) -> usize { self.n += 1; self.n }
}
fn name(t: &T) -> String {
    match t {
        T::Int => "int".into(), T::Float => "float".into(), T::Bool => "bool".into(), T::Str => "string".into(), T::Unit => "()".into(), T::S => "St".into(), T::E => "En".into(),
        T::Tup(x) => format!("({})", x.iter().map(name).collect::<Vec<_>>().join(", ")),
        T::Arr(x) => format!("[{}]", name(x)), T::Opt(x) => format!("Option<{}>", name(x)), T::Rec(x) => format!("{{ {} }}", x.iter().map(|(n, t)| format!("{n}: {}", name(t))).collect::<Vec<_>>().join(", ")),
        T::Fun(a, b) => format!("({}) -> {}", name(a), name(b)),
    }
}
/// A value of the type, made of annotated functions, and how the language shows it (functions are shown by a call).
fn make(t: &T) -> (String, String) {
    let p = |a: &str, b: &str| (a.to_string(), b.to_string());
    match t {
        T::Int => p("mk_i()", "7"), T::Float => p("mk_f()", "2.5"), T::Bool => p("mk_b()", "true"), T::Str => p("mk_s()", "s"), T::Unit => p("mk_u()", "()"), T::S => p("mk_st()", "St { a: 7, b: s }"), T::E => p("mk_e()", "En::B (7)"),
        T::Tup(x) => { let v: Vec<_> = x.iter().map(make).collect(); (format!("({})", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), format!("({})", v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(", "))) }
        T::Arr(x) => { let v = make(x); (format!("[{0}, {0}]", v.0), format!("[{0}, {0}]", v.1)) }
        T::Opt(x) => { let v = make(x); (format!("Some({})", v.0), format!("Some ({})", v.1)) }
        T::Rec(x) => { let v: Vec<_> = x.iter().map(|(n, t)| (n, make(t))).collect(); (format!("{{ {} }}", v.iter().rev().map(|(n, x)| format!("{n}: {}", x.0)).collect::<Vec<_>>().join(", ")), format!("{{ {} }}", v.iter().map(|(n, x)| format!("{n}: {}", x.1)).collect::<Vec<_>>().join(", "))) }
        T::Fun(a, b) => (format!("fn_{}_{}", short(a), short(b)), make(b).1),
    }
}
fn short(t: &T) -> &'static str { match t { T::Int => "i", T::Float => "f", T::Bool => "b", _ => "s" } }
/// Whether two of our types can be the same type.
fn wrap(g: &mut G, e: String, t: &T, d: usize) -> String {
    if d == 0 { return e }
    let n = g.fresh();
    let u = make(&g.scalar()).0;
    let s = match g.r.below(16) {
        0 => format!("{{ let w{n} = {e}; w{n} }}"),
        1 => format!("(if mk_b() {{ {e} }} else {{ {} }})", make(t).0),
        2 => format!("same({e})"),
        3 => format!("({e}, {u}).0"),
        4 if !has_fun(t) => format!("[{e}][0]"),
        5 => format!("{{ q: {e}, z: {u} }}.q"),
        6 => format!("(|| {e})()"),
        7 => format!("(|y{n}| {e})({u})"),
        8 => format!("(match mk_i() {{ 1 => {}, _ => {e} }})", make(t).0),
        9 => format!("unwrap_(Some({e}), {})", make(t).0),
        10 => format!("first({e}, {u})"),
        11 => format!("call(|| {e})"),
        12 => format!("Bx({e}).0"),
        13 => format!("{{ let (w{n}, v{n}) = ({e}, {u}); w{n} }}"),
        14 => format!("(|x{n}| x{n})({e})"),
        _ => format!("{{ let mut w{n} = {e}; w{n} = {}; w{n} }}", make(t).0),
    };
    wrap(g, s, t, d - 1)
}
const PRE: &str = "struct St { a: int, b: string }
enum En { A, B(int) }
struct Bx<T>(T)
fn mk_i() -> int { 7 }
fn mk_f() -> float { 2.5 }
fn mk_b() -> bool { true }
fn mk_s() -> string { \"s\" }
fn mk_u() -> () { () }
fn mk_st() -> St { St { a: 7, b: \"s\" } }
fn mk_e() -> En { En::B(7) }
fn same(x) { x }
fn first(x, y) { x }
fn call(f) { f() }
fn unwrap_(o, d) { match o { Some(x) => x, None => d } }
trait Tr<Self> { fn tr(x: Self) -> int; }
impl Tr for int { fn tr(x) { 7 } }
impl Tr for St { fn tr(x) { 7 } }
fn needs<T>(x: T) -> int where T: Tr { tr(x) }
fn both<T>(a: T, b: T) -> T { a }
";
fn funs() -> String {
    let mut s = String::new();
    for a in [T::Int, T::Float, T::Bool, T::Str] { for b in [T::Int, T::Float, T::Bool, T::Str] { s.push_str(&format!("fn fn_{}_{}(x: {}) -> {} {{ {} }}\n", short(&a), short(&b), name(&a), name(&b), make(&b).0)) } }
    s
}
/// Shows the value of a local `z` of the type.
fn show(t: &T) -> String { match t { T::Fun(a, _) => format!("let zz = z({}); host::emits(f\"{{zz}}\")", make(a).0), T::Unit => "host::emits(\"()\")".into(), _ if has_fun(t) => "host::emits(\"-\")".into(), _ => "host::emits(f\"{z}\")".into() } }
fn want(t: &T) -> String { if has_fun(t) && !matches!(t, T::Fun(..)) { "-".into() } else { make(t).1 } }
fn has_fun(t: &T) -> bool { match t { T::Fun(..) => true, T::Tup(x) => x.iter().any(has_fun), T::Rec(x) => x.iter().any(|x| has_fun(&x.1)), T::Arr(x) | T::Opt(x) => has_fun(x), _ => false } }

/// The program with the right and with the wrong piece.
fn pair(g: &mut G) -> (String, String, Vec<String>) {
    let t = loop { let t = g.ty(2); if !has_fun(&t) || matches!(t, T::Fun(..)) { break t } };
    let u = loop { let u = if g.r.pct(60) { near(g, &t) } else { g.ty(2) }; if u != t { break u } };
    let d = if has_fun(&t) && !matches!(t, T::Fun(..)) { 0 } else { g.r.below(4) };
    let (e, w) = { let w = wrap(g, "\u{1}".into(), &t, d); (w.replace('\u{1}', &make(&t).0), w.clone()) };
    // The wrong value in the same wrapping, its own alternatives adapted when that is needed to stay locally consistent.
    let wrong = if g.r.pct(50) { w.replace('\u{1}', &make(&u).0) } else { let x = make(&u).0; wrap(g, x, &u, d) };
    let tn = name(&t);
    let z = show(&t);
    let (items, body): (String, String) = match g.r.below(22) {
        0 => { g.tag = "annotated binding"; (String::new(), format!("let z: {tn} = \u{2}; {z}")) }
        1 => { g.tag = "parameter"; (format!("fn p(z: {tn}) {{ {z} }}\n"), "p(\u{2})".into()) }
        2 => { g.tag = "result"; (format!("fn p() -> {tn} {{ \u{2} }}\n"), format!("let z = p(); {z}")) }
        3 => { g.tag = "early return"; (format!("fn p(b: bool) -> {tn} {{ if b {{ return \u{2} }}; {} }}\n", make(&t).0), format!("let z = p(true); {z}")) }
        4 => { g.tag = "branches"; (String::new(), format!("let z = if mk_b() {{ \u{2} }} else {{ {} }}; {z}", make(&t).0)) }
        5 => { g.tag = "match arms"; (String::new(), format!("let z = match mk_i() {{ 3 => {}, _ => \u{2} }}; {z}", make(&t).0)) }
        6 => { g.tag = "elements"; (String::new(), format!("let zs = [{}, \u{2}]; let z = zs[1]; {z}", make(&t).0)) }
        7 => { g.tag = "same type variable"; (String::new(), format!("let z = both(\u{2}, {}); {z}", make(&t).0)) }
        8 => { g.tag = "assignment"; (String::new(), format!("let mut z = {}; z = \u{2}; {z}", make(&t).0)) }
        9 => { g.tag = "generic struct"; (String::new(), format!("let b: Bx<{tn}> = Bx(\u{2}); let z = b.0; {z}")) }
        10 => { g.tag = "callback result"; (format!("fn p(f: () -> {tn}) -> {tn} {{ f() }}\n"), format!("let z = p(|| \u{2}); {z}")) }
        11 => { g.tag = "callback argument"; (format!("fn p(f: ({tn}) -> {tn}) -> {tn} {{ f({}) }}\n", make(&t).0), format!("let z = p(|x| {{ let mut y = \u{2}; y = x; y }}); {z}")) }
        12 => { g.tag = "struct field"; (format!("struct Fl {{ v: {tn}, o: int }}\n"), format!("let s = Fl {{ o: 1, v: \u{2} }}; let z = s.v; {z}")) }
        13 => { g.tag = "enum payload"; (format!("enum Pl {{ N, V({tn}) }}\n"), format!("let z = match Pl::V(\u{2}) {{ Pl::V(x) => x, Pl::N => {} }}; {z}", make(&t).0)) }
        14 => { g.tag = "in-out argument"; (format!("fn p(x: &mut {tn}) {{ x = {} }}\n", make(&t).0), format!("let mut z = \u{2}; p(z); {z}")) }
        15 => { g.tag = "trait method result"; (format!("trait Pr<Self> {{ fn pr(x: Self) -> {tn} ! fallible; }}\nimpl Pr for int {{ fn pr(x) {{ \u{2} }} }}\n"), format!("let z = pr(mk_i()); {z}")) }
        16 => { g.tag = "inferred parameter"; (format!("fn p(x) {{ let mut y = x; y = {}; y }}\n", make(&t).0), format!("let z = p(\u{2}); {z}")) }
        17 => { g.tag = "map and fold"; (String::new(), format!("let mut z = {}; for x in [1, 2] |> map(|i| \u{2}) {{ z = x }}; {z}", make(&t).0)) }
        18 => { g.tag = "record field"; (format!("fn p(r: {{ v: {tn}, o: int }}) -> {tn} {{ r.v }}\n"), format!("let z = p({{ o: 1, v: \u{2} }}); {z}")) }
        19 => { g.tag = "break value or nested function"; (format!("fn p(x: int) -> {tn} {{ if x > 0 {{ p(x - 1) }} else {{ \u{2} }} }}\n"), format!("let z = p(3); {z}")) }
        20 => { g.tag = "captured"; (String::new(), format!("let c = \u{2}; let f = |x| {{ let mut y = x; y = c; y }}; let z = f({}); {z}", make(&t).0)) }
        _ => { g.tag = "optional"; (String::new(), format!("let o: Option<{tn}> = Some(\u{2}); let z = match o {{ Some(x) => x, None => {} }}; {z}", make(&t).0)) }
    };
    let full = format!("{PRE}{}{items}fn go() {{ {body} }}\ngo()\n", funs());
    (full.replace('\u{2}', &e), full.replace('\u{2}', &wrong), vec![want(&t)])
}
/// A type that differs in one place.
fn near(g: &mut G, t: &T) -> T {
    match t {
        T::Tup(x) => { let mut x = x.clone(); match g.r.below(4) { 0 => { x.push(T::Int) } 1 if x.len() > 2 => { x.pop(); } _ => { let i = g.r.below(x.len()); x[i] = near(g, &x[i].clone()) } } T::Tup(x) }
        T::Arr(x) => if g.r.pct(70) { T::Arr(Box::new(near(g, x))) } else { T::Opt(x.clone()) },
        T::Opt(x) => if g.r.pct(70) { T::Opt(Box::new(near(g, x))) } else { (**x).clone() },
        T::Rec(x) => {
            let mut x = x.clone();
            let i = g.r.below(x.len());
            match g.r.below(6) {
                0 => { let n = ["b", "l", "zz"][g.r.below(3)]; x.push((n, T::Int)); x.sort_by_key(|x| x.0) }
                1 if x.len() > 1 => { x.remove(i); }
                2 => x[i].0 = ["b", "l", "zz"][g.r.below(3)],
                3 => return x[i].1.clone(),
                _ => x[i].1 = near(g, &x[i].1.clone()),
            }
            x.sort_by_key(|x| x.0);
            T::Rec(x)
        }
        T::Fun(a, b) => if g.r.pct(50) { T::Fun(Box::new(near(g, a)), b.clone()) } else { T::Fun(a.clone(), Box::new(near(g, b))) },
        T::S => T::Rec(vec![("a", T::Int), ("b", T::Str)]), T::E => T::S,
        _ => g.scalar(),
    }
}
/// Uses of a wrong shape: the right piece, the wrong pieces.
const SHAPES: &[(&str, &str, &[&str])] = &[
    ("condition", "if @ { host::emits(\"7\") }", &["mk_b()", "mk_i()", "mk_s()", "mk_u()", "Some(mk_b())"]),
    ("negation", "let z = not @; host::emits(\"7\")", &["mk_b()", "mk_i()", "mk_s()"]),
    ("conjunction", "let z = mk_b() and @; host::emits(\"7\")", &["mk_b()", "mk_i()", "mk_s()"]),
    ("disjunction", "let z = @ or mk_b(); host::emits(\"7\")", &["mk_b()", "mk_i()", "mk_u()"]),
    ("index", "let zs = [7, 7, 7, 7, 7, 7, 7, 7]; let z = zs[@]; host::emits(f\"{z}\")", &["mk_i()", "mk_f()", "mk_s()", "mk_b()"]),
    ("indexed value", "let z = @[0]; host::emits(\"7\")", &["[mk_i()]", "mk_i()", "(mk_i(), mk_i())", "mk_st()"]),
    ("sum", "let z = mk_i() + @; host::emits(\"7\")", &["mk_i()", "mk_f()", "mk_s()", "mk_b()"]),
    ("product", "let z = @ * mk_f(); host::emits(\"7\")", &["mk_f()", "mk_i()", "mk_s()", "mk_b()"]),
    ("division", "let z = @ / mk_f(); host::emits(\"7\")", &["mk_f()", "mk_i()", "mk_s()"]),
    ("integer quotient", "let z = idiv(mk_i(), @); host::emits(\"7\")", &["mk_i()", "mk_f()", "mk_b()"]),
    ("order", "let z = mk_i() < @; host::emits(\"7\")", &["mk_i()", "mk_f()", "mk_s()", "mk_b()"]),
    ("equality", "let z = mk_s() == @; host::emits(\"7\")", &["mk_s()", "mk_i()", "Some(mk_s())", "[mk_s()]"]),
    ("order of unordered", "let z = @ < @; host::emits(\"7\")", &["mk_i()", "mk_st()", "mk_e()", "fn_i_i"]),
    ("sum of the unsummable", "let z = @ + @; host::emits(\"7\")", &["mk_i()", "mk_b()", "mk_st()", "mk_u()", "[mk_i()]"]),
    ("sign", "let z = -@; host::emits(\"7\")", &["mk_i()", "mk_s()", "mk_b()", "mk_st()"]),
    ("bits", "let z = bit_and(mk_i(), @); host::emits(\"7\")", &["mk_i()", "mk_f()", "mk_b()"]),
    ("called value", "let z = @(mk_i()); host::emits(\"7\")", &["fn_i_i", "(|x| x)", "fn_s_i", "mk_i()", "mk_s()", "mk_i"]),
    ("number of arguments", "let z = both@; host::emits(\"7\")", &["(mk_i(), mk_i())", "(mk_i())", "()", "(mk_i(), mk_i(), mk_i())"]),
    ("number of closure arguments", "let f = |x, y| x; let z = f@; host::emits(\"7\")", &["(mk_i(), mk_s())", "(mk_i())", "()", "(mk_i(), mk_i(), mk_i())"]),
    ("callback of other arity", "let z = call(@); host::emits(\"7\")", &["mk_i", "|| mk_s()", "|x| x", "fn_i_i", "mk_i()"]),
    ("field", "let z = mk_st().@; host::emits(\"7\")", &["a", "b", "c", "0"]),
    ("record field", "let r = { x: mk_i(), y: mk_s() }; let z = r.@; host::emits(\"7\")", &["x", "y", "z", "0"]),
    ("tuple position", "let t = (mk_i(), mk_s()); let z = t.@; host::emits(\"7\")", &["0", "1", "2", "x", "7"]),
    ("field of inferred record", "let f = |r| r.x; let z = f(@); host::emits(\"7\")", &["{ x: mk_i() }", "{ x: mk_s(), y: mk_i() }", "{ y: mk_i() }", "mk_i()", "(mk_i(), mk_i())", "mk_st()"]),
    ("struct literal", "let z = St { @ }; host::emits(\"7\")", &["a: mk_i(), b: mk_s()", "b: mk_s(), a: mk_i()", "a: mk_i()", "a: mk_s(), b: mk_i()", "a: mk_i(), b: mk_s(), c: mk_i()", "a: mk_i(), a: mk_i(), b: mk_s()", ""]),
    ("constructor", "let z = En::@; host::emits(\"7\")", &["A", "B(mk_i())", "B(mk_s())", "B(mk_i(), mk_i())", "C", "A(mk_i())"]),
    ("constrained parameter", "let z = needs(@); host::emits(f\"{z}\")", &["mk_i()", "mk_st()", "mk_s()", "mk_f()", "mk_e()", "Some(mk_i())", "[mk_i()]"]),
    ("trait method", "let z = tr(@); host::emits(f\"{z}\")", &["mk_i()", "mk_st()", "mk_s()", "mk_b()", "(mk_i(), mk_i())", "fn_i_i"]),
    ("constraint through a closure", "let f = |x| needs(x); let z = f(@); host::emits(f\"{z}\")", &["mk_i()", "mk_st()", "mk_s()", "mk_e()"]),
    ("constraint through generic code", "let z = deep(@); host::emits(f\"{z}\")", &["[mk_i()]", "[mk_st()]", "[mk_s()]", "[[mk_i()]]", "mk_i()"]),
    ("length", "let z = len(@); host::emits(\"7\")", &["[mk_i()]", "mk_s()", "mk_i()", "mk_st()", "(mk_i(), mk_i())"]),
    ("iteration", "for x in @ { host::emits(\"7\") }", &["[mk_i()]", "0..1", "mk_i()", "mk_st()", "mk_b()"]),
    ("range", "for x in 0..@ { let y = x; }; host::emits(\"7\")", &["mk_i()", "mk_f()", "mk_s()", "mk_b()"]),
    ("literal pattern", "match mk_i() { @ => (), _ => () }; host::emits(\"7\")", &["1", "\"s\"", "true", "Some(x)"]),
    ("variant pattern", "let o: Option<int> = Some(7); match o { @ => host::emits(\"7\"), _ => () }", &["Some(x)", "Some(x, y)", "1", "\"s\""]),
    ("enum pattern", "match mk_e() { @ => host::emits(\"7\"), _ => () }", &["En::B(x)", "En::B(x, y)", "En::C", "1"]),
    ("cast", "let z = @ as int; host::emits(\"7\")", &["mk_f()", "mk_s()", "mk_st()", "mk_u()"]),
    ("unknown name", "let z = @; host::emits(\"7\")", &["mk_i()", "same(mk_i())", "mk_q::go()", "std::no_such(1)", "Tr::no(1)"]),
    ("type name", "let z: @ = mk_i(); host::emits(\"7\")", &["int", "_", "Int", "Bx", "Bx<int>", "St<int>", "string"]),
    ("type arguments", "let z: @ = Bx(mk_i()); host::emits(\"7\")", &["Bx<int>", "Bx<_>", "Bx<string>", "Bx<int, int>", "Bx<Bx<int>>"]),
    ("compound assignment", "let mut z = mk_i(); z += @; host::emits(\"7\")", &["mk_i()", "mk_f()", "mk_s()"]),
    ("map callback", "let z = [mk_i()] |> map(@); host::emits(\"7\")", &["|x| x", "fn_i_s", "fn_s_i", "|x, y| x", "mk_i"]),
    ("filter callback", "let z = [mk_i()] |> filter(@); host::emits(\"7\")", &["|x| x > 0", "fn_i_b", "fn_i_s", "|x| mk_s()", "fn_s_b"]),
    ("fold callback", "let z = [mk_i()] |> iter() |> fold(mk_s(), @); host::emits(\"7\")", &["|a, x| a", "|a, x| x", "|a, x| mk_i()", "|a| a"]),
    ("argument of a set", "let mut z = hash_set_new(); set_insert(z, mk_i()); set_insert(z, @); host::emits(\"7\")", &["mk_i()", "mk_s()", "mk_f()"]),
    ("array append", "let mut z = [mk_i()]; array_append(z, @); host::emits(\"7\")", &["mk_i()", "mk_s()", "[mk_i()]"]),
    ("destructured tuple", "let (a, b) = @; host::emits(\"7\")", &["(mk_i(), mk_s())", "(mk_i(), mk_i(), mk_i())", "mk_i()", "mk_st()"]),
    ("destructured struct", "let St { a, b } = @; host::emits(\"7\")", &["mk_st()", "mk_e()", "{ a: mk_i(), b: mk_s() }", "mk_i()"]),
    ("implementation", "@ host::emits(\"7\")", &["", "let z = tr(mk_f());", "let z = Tr::tr(mk_s());"]),
];
const ITEMS: &[(&str, &[&str])] = &[
    ("implementation items", &["trait Q<Self> { fn q(x: Self) -> int; }\nimpl Q for int { fn q(x) { 7 } }", "trait Q<Self> { fn q(x: Self) -> int; }\nimpl Q for int { }", "trait Q<Self> { fn q(x: Self) -> int; }\nimpl Q for int { fn q(x) { 7 } fn r(x) { 7 } }", "trait Q<Self> { fn q(x: Self) -> int; }\nimpl Q for int { fn q(x, y) { 7 } }", "trait Q<Self> { fn q(x: Self) -> int; }\nimpl Q for int { fn q(x) { mk_s() } }", "trait Q<Self> { fn q(x: Self) -> int; }\nimpl Q for int { fn q(x: string) { 7 } }", "trait Q<Self> { fn q(x: Self) -> int; }\nimpl Q for int { fn q(x) { 7 } }\nimpl Q for int { fn q(x) { 8 } }"]),
    ("bounded implementation", &["trait Q<Self> { fn q(x: Self) -> int; }\nimpl<V> Q for Bx<V> where V: Tr { fn q(x) { tr(x.0) } }\nlet u7 = q(Bx(mk_i()));", "trait Q<Self> { fn q(x: Self) -> int; }\nimpl<V> Q for Bx<V> where V: Tr { fn q(x) { tr(x.0) } }\nlet u7 = q(Bx(mk_s()));", "trait Q<Self> { fn q(x: Self) -> int; }\nimpl<V> Q for Bx<V> where V: Tr { fn q(x) { tr(x.0) } }\nlet u7 = q(mk_i());"]),
    ("names declared once", &["fn h(a, b) { a }", "fn h(a) { a }\nfn h(b) { b }", "struct Dd { a: int, a: int }", "enum Dd { A, A }", "struct Dd(int)\nstruct Dd(int)", "fn h<A, A>(a: A) -> A { a }"]),
    ("types used", &["fn h(a: St) -> En { mk_e() }", "fn h(a: Bx) { a }", "fn h(a: St<int>) { a }"]),
    ("associated constant", &["trait K<Self> { const C: Self; }\nimpl K for int { const C = 7; }\nfn h() -> int { K::C }", "trait K<Self> { const C: Self; }\nimpl K for int { const C = \"s\"; }", "trait K<Self> { const C: Self; }\nimpl K for int { }", "trait K<Self> { const C: Self; }\nimpl K for int { const C = 7; }\nfn h() -> string { K::C }"]),
    ("iterator implementation", &["struct It(int)\nimpl Iterator for <Self = It |-> Item = int> { fn next(it: &mut It) { it.0 += 1; if it.0 > 3 { None } else { Some(it.0) } } }", "struct It(int)\nimpl Iterator for <Self = It |-> Item = string> { fn next(it: &mut It) { it.0 += 1; if it.0 > 3 { None } else { Some(it.0) } } }", "struct It(int)\nimpl Iterator for <Self = It |-> Item = int> { fn next(it: &mut It) { 3 } }"]),
];
fn one(c: &mut Ctx, sess: &mut Sess, src: String, want: Vec<String>, wrong: Option<&str>, tag: &'static str) -> bool {
    let mut k = Case { src, want, tags: vec![tag], ..Case::default() };
    if let Some(w) = wrong { k.reject = Some(w.into()) }
    check(c, sess, &k)
}
const FIXED: &[(&str, &str, &[&str])] = &[
    ("a closure of other arity where another is called", "fn call(f) { f() }\ncall(|x| x)\n", &["*"]),
    ("an index taken from a temporary in a literal array", "fn go() { let z = [7, 8][(1, 2).0]; host::emits(f\"{z}\") }\ngo()\n", &["8"]),
    ("an array of functions taken from a temporary in a closure", "fn fb(x: float) -> bool { x > 0.0 }\nfn p(f: () -> [(float) -> bool]) -> [(float) -> bool] { f() }\nfn go() { let z = p(|| (|x| x)(([fb, fb], 1).0)); host::emits(\"7\") }\ngo()\n", &["7"]),
    ("an identity closure on an option of a function", "fn b(x: bool) -> bool { x }\nfn same(x) { x }\nfn go() { let z: Option<(bool) -> bool> = (|x| x)({ let mut w = same(Some(b)); w = Some(b); w }); host::emits(\"7\") }\ngo()\n", &["7"]),
    ("assigning an option of a function to a mutable parameter", "fn b(x: bool) -> bool { x }\nfn p(x: &mut Option<(bool) -> bool>) { x = Some(b) }\nfn go() { let mut z = Some(b); p(z); host::emits(\"7\") }\ngo()\n", &["7"]),
];
fn worker(c: &mut Ctx) {
    let mut sess = Sess::new();
    while let Some(i) = c.take() {
        if (i as usize) < FIXED.len() { let f = FIXED[i as usize]; crate::obs::fixture(c, &mut sess, f.0, f.1, f.2); continue }
        let mut r = c.rng(i);
        let mut g = G { r: &mut r, n: 0, tag: "" };
        match g.r.below(10) {
            0..=5 => {
                let (good, bad, want) = pair(&mut g);
                let tag = g.tag;
                if one(c, &mut sess, good, want, None, tag) { one(c, &mut sess, bad, vec![], Some("a value of another type stands there"), tag); }
            }
            6..=8 => {
                let (tag, t, e) = SHAPES[g.r.below(SHAPES.len())];
                let good = GOOD.iter().find(|x| x.0 == tag).map_or(1, |x| x.1);
                let j = g.r.below(e.len());
                let d = if tag.contains("pattern") || e[j].is_empty() || !e[j].ends_with(')') || t.contains(".@") || t.contains("{ @ }") || t.contains("::@") || t.contains("both@") || t.contains("f@") || t.starts_with('@') { 0 } else { g.r.below(3) };
                let x = wrap_any(&mut g, e[j].to_string(), d);
                let body = t.replace('@', &x);
                let body = match g.r.below(4) { 0 => format!("if mk_b() {{ {body} }}"), 1 => format!("(|| {{ {body} }})()"), 2 => format!("for i_ in [1] {{ {body} }}"), _ => body };
                let src = format!("{PRE}fn deep<V>(xs: [V]) -> int where V: Tr {{ tr(xs[0]) }}\n{}fn go() {{ {body} }}\ngo()\n", funs());
                one(c, &mut sess, src, if j < good { vec!["7".into()] } else { vec![] }, (j >= good).then_some("the use does not fit"), tag);
            }
            _ => {
                let (tag, e) = ITEMS[g.r.below(ITEMS.len())];
                let j = g.r.below(e.len());
                let src = format!("{PRE}{}\nhost::emits(\"7\")\n", e[j]);
                one(c, &mut sess, src, if j < 1 { vec!["7".into()] } else { vec![] }, (j >= 1).then_some("the declaration does not fit"), tag);
            }
        }
        if sess.cases > 3000 { sess = Sess::new() }
    }
}
/// How many of the pieces of a shape are right (otherwise the first only).
const GOOD: &[(&str, usize)] = &[("field", 2), ("record field", 2), ("tuple position", 2), ("called value", 2), ("callback of other arity", 2), ("field of inferred record", 2), ("struct literal", 2), ("constructor", 2), ("constrained parameter", 2), ("trait method", 2), ("constraint through a closure", 2), ("constraint through generic code", 2), ("length", 2), ("iteration", 2), ("unknown name", 2), ("type name", 2), ("type arguments", 2), ("map callback", 2), ("filter callback", 2)];
fn wrap_any(g: &mut G, e: String, d: usize) -> String {
    if d == 0 { return e }
    let n = g.fresh();
    let s = match g.r.below(8) {
        0 => format!("{{ let w{n} = {e}; w{n} }}"), 1 => format!("same({e})"), 2 => format!("({e}, mk_i()).0"), 3 => format!("[{e}][0]"), 4 => format!("(|| {e})()"), 5 => format!("first({e}, mk_b())"), 6 => format!("call(|| {e})"), _ => format!("Bx({e}).0"),
    };
    wrap_any(g, s, d - 1)
}
