//! A17: pattern matching selects the right arm, binds the right parts, and rejects what is not exhaustive.
use crate::obs::*;
use crate::sup::*;
use crate::tv::*;
use crate::util::*;

pub fn prop() -> Prop {
    Prop {
        id: "A17",
        level: "exploration",
        rule: "a case is a generated program with its own type declarations whose functions match on or destructure values of generated types, with some programs made wrong in one place; non-trivial when all execution paths reported the arms, the bound parts and the effects the reference computed, or the wrong program was rejected; distinct by program text",
        secs: (60, 840),
        cases: (6000, 1 << 40),
        crash: true,
        hang: false,
        assumptions: &["a pattern names every field of a struct or uses `..`; the record case of an enum is not required to"],
        worker: |c| worker_with(c, FIXED, generate),
        floor: 200,
    }
}
const FIXED: &[(&str, &str, &[&str])] = &[
    ("scrutinee overwritten through a reference", "struct S { v: Option<[int]> } fn g(s: &mut S) { s.v = None } fn h(s: &mut S) -> [int] { match s.v { Some(x) => { g(s); x }, None => [] } } fn go() { let mut s = S { v: Some([4]) }; let r = h(s); host::emits(to_string((r, s))); let mut a = [Some([1]), Some([2])]; let q = match a[0] { Some(x) => { a = []; x }, None => [] }; host::emits(to_string((q, a))) } go()", &["([4], S { v: None })", "([1], [])"]),
    ("only a default arm", "enum E { A, B(int) } fn e(n: int) -> E { host::emits(f\"e{n}\"); E::B(n) } fn go() { let mut n = 1; let r = match e(n) { _ => { n = n + 1; n } }; match { n = n * 10; n } { _ => () }; host::emits(to_string((r, n))); match e(7) { _ => host::emits(\"arm\") } } go()", &["e1", "(2, 20)", "e7", "arm"]),
];

struct G<'a> { r: &'a mut Rng, w: &'a World, src: String, want: Vec<String>, feed: (Vec<i64>, Vec<f64>, Vec<String>), inputs: u32, tags: Vec<&'static str>, why: Option<String> }
fn fields(w: &World, t: &T, c: usize) -> Vec<(String, T)> {
    match w.shape(t, c) { Shape::Unit => vec![], Shape::Tup(x) => x.into_iter().enumerate().map(|(i, t)| (i.to_string(), t)).collect(), Shape::Rec(x) => x }
}
impl G<'_> {
    fn leaf(v: &V, f: &mut (Vec<i64>, Vec<f64>, Vec<String>), input: bool) -> String {
        match v { V::Bool(b) if input => { f.0.push(*b as i64); format!("(host::feed({}) > 0)", f.0.len() - 1) } v => crate::p_serde::leaf(v, f, input) }
    }
    fn lit(&mut self, t: &T, v: &V) -> String {
        let (w, f, r, n) = (self.w, &mut self.feed, &mut *self.r, self.inputs);
        w.lit(t, v, &mut |v| Self::leaf(v, f, r.pct(n)))
    }

}

pub fn generate(r: &mut Rng) -> Case {
    let o = Opts { floats: r.pct(30), colls: false, unit: true, mk: false, keys: false };
    let w = loop { let w = World::generate(r, &o); if w.decls.iter().any(|d| d.is_enum) || r.pct(25) { break w } };
    let bad = r.pct(35);
    let inputs = if r.pct(60) { 60 } else { 0 };
    let mut g = G { r, w: &w, src: String::new(), want: vec![], feed: Default::default(), inputs, tags: vec![], why: None };
    let n = 1 + g.r.below(3);
    let at = if bad { g.r.below(n) } else { 9 };
    for j in 0..n {
        match g.r.below(5) { 0 | 1 => variant(&mut g, &o, j, j == at), 2 | 3 => literal(&mut g, j, j == at), _ => let_(&mut g, &o, j, j == at) }
    }
    let mut k = Case::default();
    k.src = format!("{}{}{}()\n", w.decls_text(), g.src, (0..n).map(|j| format!("go{j}();\n")).collect::<String>());
    k.want = g.want;
    k.feed = g.feed;
    k.tags = g.tags;
    if bad { if let Some(w) = g.why { k.reject = Some(w) } }
    k
}

fn variant(g: &mut G, o: &Opts, j: usize, bad: bool) {
    let w = g.w;
    let enums: Vec<usize> = (0..w.decls.len()).filter(|k| w.decls[*k].is_enum).collect();
    let t = if enums.is_empty() || g.r.pct(25) { let t = w.ty(g.r, o, 2); T::Opt(Box::new(t)) } else { let k = *g.r.pick(&enums); T::Named(k, (0..w.decls[k].params).map(|_| w.ty(g.r, o, 1)).collect()) };
    // cases with the fields of their payload, and whether it is a record
    let cases: Vec<(String, Vec<(String, T)>, bool)> = match &t {
        T::Opt(e) => vec![("None".into(), vec![], false), ("Some".into(), vec![("0".into(), (**e).clone())], false)],
        T::Named(k, _) => w.decls[*k].cases.iter().enumerate().map(|(c, x)| (x.0.clone(), fields(w, &t, c), matches!(x.1, Shape::Rec(_)))).collect(),
        _ => unreachable!(),
    };
    let name = match &t { T::Named(k, _) => Some(w.decls[*k].name.clone()), _ => None };
    let tt = w.ty_text(&t);
    let mut order: Vec<usize> = (0..cases.len()).collect();
    g.r.shuffle(&mut order);
    let mut default = g.r.pct(35);
    let mut kept = order.len();
    if default && g.r.pct(80) && kept > 1 { kept = 1 + g.r.below(kept); }
    let mut mistake = if bad { Some(g.r.below(7)) } else { None };
    if bad {
        // a missing case and no default
        if mistake == Some(0) { if order.len() > 1 { kept = order.len() - 1; default = false; g.why = Some(format!("`m{j}` leaves out a case")); } mistake = None }
        else { g.why = None }
    }
    order.truncate(kept);
    // write to the scrutinee inside the arms
    let write = g.r.pct(30);
    let scrut_fx = g.r.pct(40);
    let place = g.r.below(4); // 0 local, 1 field of a record, 2 element, 3 parameter by reference
    let (decl, path) = match place { 0 => ("let mut u = v;".to_string(), "u"), 1 => ("let mut u = { q: v, z: 1 };".into(), "u.q"), 2 => ("let mut u = [v, v];".into(), "u[1]"), _ => (String::new(), "v") };
    let by_ref = write && place == 3;
    let scrut = if write { path.to_string() } else if scrut_fx { format!("pass{j}(v)") } else { match g.r.below(5) { 0 => "(if true { v } else { v })".to_string(), 1 => "(v, 1).0".into(), _ => "v".into() } };
    let mut src = String::new();
    if scrut_fx && !write { src.push_str(&format!("fn pass{j}(x: {tt}) -> {tt} {{ host::emits(\"pass{j}\"); x }}\n")); }
    src.push_str(&format!("fn m{j}(v: {}{tt}) -> string {{\n", if by_ref { "&mut " } else { "" }));
    if write { src.push_str(&format!("  {decl}\n")); g.tags.push("scrutinee written in the arm"); }
    let early = g.r.pct(15);
    let tail = g.r.below(3);
    src.push_str(&format!("  {}match {scrut} {{\n", if tail == 1 { "let s = " } else { "" }));
    // per arm: printed field indices, and the value written
    let mut arms: Vec<(usize, Vec<usize>, Option<V>)> = vec![];
    let mut lines: Vec<String> = vec![];
    for &c in &order {
        let (cn, fs, rec) = &cases[c];
        let qual = match &name { Some(n) if g.r.pct(60) => format!("{n}::{cn}"), _ => cn.clone() };
        let mut shown: Vec<usize> = vec![];
        let mut names: Vec<String> = vec![];
        let mut pat = qual.clone();
        if *rec {
            let mut ix: Vec<usize> = (0..fs.len()).collect();
            g.r.shuffle(&mut ix);
            let all = g.r.pct(50);
            if !all { let m = g.r.below(fs.len() + 1); ix.truncate(m) }
            shown = ix.clone();
            let mut parts: Vec<String> = ix.iter().map(|i| fs[*i].0.clone()).collect();
            names = parts.clone();
            if !all || g.r.pct(20) { parts.push("..".into()) }
            if mistake == Some(1) && !parts.is_empty() && parts[0] != ".." { let p = parts[0].clone(); parts.insert(0, p); g.why = Some("a name bound twice".into()); mistake = None }
            else if mistake == Some(2) { let at = parts.len() - (parts.last().map(|s| s == "..").unwrap_or(false)) as usize; parts.insert(at, "nosuchfield".into()); g.why = Some("an unknown field".into()); mistake = None }
            pat.push_str(&format!(" {{ {} }}", parts.join(", ")));
        } else if !fs.is_empty() {
            let mut parts: Vec<String> = (0..fs.len()).map(|i| format!("b{i}")).collect();
            shown = (0..fs.len()).collect();
            names = parts.clone();
            if mistake == Some(1) && parts.len() > 1 { parts[1] = parts[0].clone(); g.why = Some("a name bound twice".into()); mistake = None }
            else if mistake == Some(2) { if g.r.pct(50) && parts.len() > 1 { parts.pop(); } else { parts.push("extra".into()) } g.why = Some("payload of another size".into()); mistake = None }
            pat.push_str(&format!("({})", parts.join(", ")));
            g.tags.push("payload bound");
        } else if mistake == Some(2) { pat.push_str("(extra)"); g.why = Some("payload of a case without one".into()); mistake = None }
        let mut written = None;
        let mut act = String::new();
        if write && (g.r.pct(80)) { let v = w.value(g.r, &t); act = format!("{path} = {}; ", g.lit(&t, &v)); written = Some(v) }
        let mut show: Vec<String> = names.iter().filter(|_| true).cloned().collect();
        show.insert(0, format!("{c}"));
        if write { show.push(path.into()) }
        let value = format!("to_string(({}))", show.join(", "));
        let value = if mistake == Some(3) { g.why = Some("an arm of another type".into()); mistake = None; "1".to_string() } else { value };
        lines.push(format!("    {pat} => {},\n", if early && g.r.pct(50) { format!("{{ host::emits(\"m{j}:{c}\"); {act}return {value} }}") } else { format!("{{ host::emits(\"m{j}:{c}\"); {act}{value} }}") }));
        if mistake == Some(4) && g.r.pct(60) { let l = lines.last().unwrap().clone(); lines.push(l); g.why = Some("a case twice".into()); mistake = None }
        arms.push((c, shown, written));
    }
    if mistake == Some(5) { lines.insert(0, "    NoSuchCase => \"none\",\n".into()); g.why = Some("an unknown case".into()); mistake = None }
    if mistake == Some(6) { let at = g.r.below(lines.len() + 1); lines.insert(at, "    17 => \"none\",\n".into()); g.why = Some("a literal among cases".into()); }
    for l in &lines { src.push_str(l) }
    if default { src.push_str(&format!("    _ => {{ host::emits(\"m{j}:_\"); \"default\" }},\n")); g.tags.push("default arm"); }
    src.push_str(if tail == 1 { "  };\n  s\n}\n" } else { "  }\n}\n" });
    src.push_str(&format!("fn go{j}() {{\n"));
    for q in 0..2 + g.r.below(3) {
        let v = w.value(g.r, &t);
        let c = match &v { V::Opt(None) => 0, V::Opt(Some(_)) => 1, V::Named(c, _) => *c, _ => unreachable!() };
        let payload: Vec<V> = match &v { V::Opt(Some(x)) => vec![(**x).clone()], V::Named(_, x) => x.clone(), _ => vec![] };
        let text = g.lit(&t, &v);
        src.push_str(&format!("  let {}x{q}: {tt} = {text};\n  host::emits(m{j}(x{q}));\n  host::emits(to_string(x{q}));\n", if by_ref { "mut " } else { "" }));
        if scrut_fx && !write { g.want.push(format!("pass{j}")) }
        let mut after = v.clone();
        match arms.iter().find(|a| a.0 == c) {
            Some((_, shown, written)) => {
                g.want.push(format!("m{j}:{c}"));
                let mut out = vec![c.to_string()];
                for i in shown { out.push(w.show(&cases[c].1[*i].1, &payload[*i]).unwrap()) }
                if write { let now = written.clone().unwrap_or(v.clone()); out.push(w.show(&t, &now).unwrap()); if by_ref { after = now } }
                // a single item is not a tuple
                g.want.push(if out.len() == 1 { out[0].clone() } else { format!("({})", out.join(", ")) });
            }
            None => { g.want.push(format!("m{j}:_")); g.want.push("default".into()) }
        }
        g.want.push(w.show(&t, &after).unwrap());
    }
    src.push_str("}\n");
    g.src.push_str(&src);
    g.tags.push("variant match");
}

/// A type whose values can be written as literal patterns.
fn lit_ty(g: &mut G, d: u32) -> T {
    if d == 0 || g.r.pct(30) { return match g.r.below(8) { 0 => T::Unit, 1..=3 => T::Bool, 4 | 5 => T::Int, _ => T::Str } }
    match g.r.below(3) {
        0 => { let n = 2 + g.r.below(2); T::Tup((0..n).map(|_| lit_ty(g, d - 1)).collect()) }
        1 => { let n = 1 + g.r.below(3); let mut p = ["a", "b", "zed", "x1", "name"].map(String::from).to_vec(); g.r.shuffle(&mut p); T::Rec(p.into_iter().take(n).map(|f| (f, lit_ty(g, d - 1))).collect()) }
        _ => lit_ty(g, d - 1),
    }
}
const TEXTS: &[&str] = &["", "a", "b", "ab", "é", "日本", "a\nb", "\"", "\\", "{x}"];
fn small(g: &mut G, t: &T) -> V {
    match t {
        T::Unit => V::Unit, T::Bool => V::Bool(g.r.pct(50)),
        T::Int => V::Int(*g.r.pick(&[0, 1, -1, 2, 255, i64::MAX, -i64::MAX, 1 << 53, 1 << 32])),
        T::Str => V::Str(g.r.pick(TEXTS).to_string()),
        T::Tup(x) => V::Tup(x.iter().map(|t| small(g, t)).collect()),
        T::Rec(x) => V::Rec(x.iter().map(|t| small(g, &t.1)).collect()),
        _ => unreachable!(),
    }
}
/// All values, unless there are too many.
fn all(t: &T) -> Option<Vec<V>> {
    fn product(ts: Vec<&T>) -> Option<Vec<Vec<V>>> {
        let mut out: Vec<Vec<V>> = vec![vec![]];
        for t in ts { let x = all(t)?; out = out.iter().flat_map(|p| x.iter().map(move |v| { let mut q = p.clone(); q.push(v.clone()); q })).collect(); if out.len() > 64 { return None } }
        Some(out)
    }
    Some(match t {
        T::Unit => vec![V::Unit], T::Bool => vec![V::Bool(false), V::Bool(true)],
        T::Tup(x) => product(x.iter().collect())?.into_iter().map(V::Tup).collect(),
        T::Rec(x) => product(x.iter().map(|f| &f.1).collect())?.into_iter().map(V::Rec).collect(),
        _ => return None,
    })
}
fn pattern(g: &mut G, t: &T, v: &V) -> String {
    match (t, v) {
        (_, V::Unit) => "()".into(), (_, V::Bool(b)) => b.to_string(), (_, V::Int(i)) => i.to_string(),
        (_, V::Str(s)) => { let q = quote(s); if g.r.pct(50) { q.replace('é', "e\u{301}") } else { q } }
        (T::Tup(ts), V::Tup(vs)) => { let x: Vec<String> = ts.iter().zip(vs).map(|(t, v)| pattern(g, t, v)).collect(); format!("({})", x.join(", ")) }
        (T::Rec(ts), V::Rec(vs)) => { let mut x: Vec<String> = ts.iter().zip(vs).map(|(t, v)| format!("{}: {}", t.0, pattern(g, &t.1, v))).collect(); g.r.shuffle(&mut x); format!("{{ {} }}", x.join(", ")) }
        _ => unreachable!(),
    }
}
fn literal(g: &mut G, j: usize, bad: bool) {
    let t = { let d = g.r.below(4) as u32; lit_ty(g, d) };
    // the same shape as a struct
    let as_struct = matches!(t, T::Tup(_) | T::Rec(_)) && g.r.pct(30);
    let tt = if as_struct { format!("Ls{j}") } else { g.w.ty_text(&t) };
    let whole = all(&t);
    let mut arms: Vec<V> = vec![];
    let complete = whole.is_some() && g.r.pct(60);
    if complete { arms = whole.clone().unwrap(); g.r.shuffle(&mut arms); g.tags.push("exhaustive without default"); }
    else { for _ in 0..1 + g.r.below(5) { let v = match g.r.below(4) { 0 if !arms.is_empty() => { let b = arms[g.r.below(arms.len())].clone(); near(g, &t, &b) } _ => small(g, &t) }; if !arms.contains(&v) { arms.push(v) } } }
    let mut default = !complete || g.r.pct(20);
    let mut values: Vec<V> = vec![];
    for _ in 0..3 + g.r.below(4) { let v = match g.r.below(4) { 0 => small(g, &t), 1 => { let b = g.r.pick(&arms).clone(); near(g, &t, &b) } _ => g.r.pick(&arms).clone() }; values.push(v) }
    if !bad && !complete && g.r.pct(12) { arms.clear(); default = true; g.tags.push("only a default arm"); }
    let mut src = String::new();
    if as_struct {
        let body = match &t { T::Tup(x) => format!("({})", x.iter().map(|t| g.w.ty_text(t)).collect::<Vec<_>>().join(", ")), T::Rec(x) => format!(" {{ {} }}", x.iter().map(|f| format!("{}: {}", f.0, g.w.ty_text(&f.1))).collect::<Vec<_>>().join(", ")), _ => unreachable!() };
        src.push_str(&format!("struct Ls{j}{body}\n"));
        g.tags.push("literal match on a struct");
    }
    let mut lines: Vec<String> = arms.iter().enumerate().map(|(i, v)| format!("    {} => {{ host::emits(\"m{j}:{i}\"); {i} }},\n", pattern(g, &t, v))).collect();
    if bad {
        match g.r.below(5) {
            0 => { // not exhaustive
                default = false;
                if complete { if lines.len() > 1 { let i = g.r.below(lines.len()); lines.remove(i); g.why = Some("a value without an arm".into()) } }
                else if whole.as_ref().is_none_or(|w| w.len() > arms.len()) { g.why = Some("values without an arm".into()) }
            }
            1 => { let i = g.r.below(arms.len()); let v = arms[i].clone(); let p = pattern(g, &t, &v); lines.push(format!("    {p} => 99,\n")); g.why = Some("a value twice".into()) }
            2 => { let i = g.r.below(lines.len()); let other = if t == T::Str { "7" } else { "\"str\"" }; lines.insert(i, format!("    {other} => 99,\n")); g.why = Some("a pattern of another type".into()) }
            3 => { let i = g.r.below(lines.len()); let v = arms[i].clone(); let p = pattern(g, &t, &v); lines[i] = format!("    {p} => \"text\",\n"); if lines.len() > 1 || default { g.why = Some("an arm of another type".into()) } else { g.why = Some("a result of another type".into()) } }
            _ => { let i = g.r.below(lines.len() + 1); lines.insert(i, "    Some(x) => 99,\n".into()); g.why = Some("a case among literals".into()) }
        }
    }
    let fx = g.r.pct(40);
    if fx { src.push_str(&format!("fn pass{j}(x: {tt}) -> {tt} {{ host::emits(\"pass{j}\"); x }}\n")) }
    src.push_str(&format!("fn m{j}(v: {tt}) -> int {{\n  match {} {{\n{}", if fx { format!("pass{j}(v)") } else { "v".into() }, lines.concat()));
    if default { src.push_str(&format!("    _ => {{ host::emits(\"m{j}:_\"); -1 }}\n")); g.tags.push("default arm"); }
    src.push_str("  }\n}\n");
    src.push_str(&format!("fn go{j}() {{\n"));
    for v in &values {
        let text = g.lit(&t, v);
        let text = if as_struct { format!("Ls{j}{text}") } else { text };
        src.push_str(&format!("  host::emits(to_string(m{j}({text})));\n"));
        if fx { g.want.push(format!("pass{j}")) }
        match arms.iter().position(|a| a == v) { Some(i) => { g.want.push(format!("m{j}:{i}")); g.want.push(i.to_string()) } None => { g.want.push(format!("m{j}:_")); g.want.push("-1".into()) } }
    }
    src.push_str("}\n");
    g.src.push_str(&src);
    g.tags.push("literal match");
}
fn near(g: &mut G, t: &T, v: &V) -> V {
    match (t, v) {
        (T::Tup(ts), V::Tup(vs)) => { let i = g.r.below(vs.len()); let mut x = vs.clone(); x[i] = near(g, &ts[i], &vs[i]); V::Tup(x) }
        (T::Rec(ts), V::Rec(vs)) => { let i = g.r.below(vs.len()); let mut x = vs.clone(); x[i] = near(g, &ts[i].1, &vs[i]); V::Rec(x) }
        (t, _) => small(g, t),
    }
}

/// Destructuring in `let`: returns the pattern text; `out` gets (name, type, value, mutable).
fn destruct(g: &mut G, t: &T, v: &V, d: u32, no: &mut usize, mistake: &mut Option<usize>, out: &mut Vec<(String, T, V, bool)>) -> String {
    let mut bind = |g: &mut G, name: String, out: &mut Vec<(String, T, V, bool)>| { let m = g.r.pct(30); out.push((name.clone(), t.clone(), v.clone(), m)); format!("{}{name}", if m { "mut " } else { "" }) };
    let fresh = |no: &mut usize| { *no += 1; format!("k_{no}") };
    if d == 0 || g.r.pct(10) { return if g.r.pct(20) { "_".into() } else { let n = fresh(no); bind(g, n, out) } }
    let (fs, vs, rec, head, is_struct): (Vec<(String, T)>, Vec<V>, bool, String, bool) = match (t, v) {
        (T::Tup(x), V::Tup(vs)) if x.len() > 0 => (x.iter().map(|t| (String::new(), t.clone())).collect(), vs.clone(), false, String::new(), false),
        (T::Rec(x), V::Rec(vs)) => (x.clone(), vs.clone(), true, String::new(), false),
        (T::Named(k, _), V::Named(_, vs)) if !g.w.decls[*k].is_enum => (fields(g.w, t, 0), vs.clone(), matches!(g.w.decls[*k].cases[0].1, Shape::Rec(_)), g.w.decls[*k].name.clone(), true),
        _ => { let n = fresh(no); return bind(g, n, out) }
    };
    let mut parts: Vec<String> = vec![];
    if rec {
        let mut ix: Vec<usize> = (0..fs.len()).collect();
        g.r.shuffle(&mut ix);
        let all = g.r.pct(60);
        if !all && ix.len() > 1 { let m = 1 + g.r.below(ix.len()); ix.truncate(m) }
        let missing = ix.len() < fs.len();
        for i in ix {
            let (n, ft) = &fs[i];
            // the short form binds the name of the field
            if g.r.pct(30) && !out.iter().any(|o| &o.0 == n) { let m = g.r.pct(30); out.push((n.clone(), ft.clone(), vs[i].clone(), m)); parts.push(format!("{}{n}", if m { "mut " } else { "" })) }
            else { let p = destruct(g, ft, &vs[i], d - 1, no, mistake, out); parts.push(format!("{n}: {p}")) }
        }
        if *mistake == Some(1) { parts.push("nosuchfield: extra".into()); g.why = Some("an unknown field".into()); *mistake = None }
        if is_struct && missing { if *mistake == Some(2) { g.why = Some("a field of a struct missing".into()); *mistake = None } else { parts.push("..".into()) } }
        format!("{head}{}{{ {} }}", if is_struct { " " } else { "" }, parts.join(", "))
    } else {
        let cut = if is_struct && g.r.pct(25) { g.r.below(fs.len() + 1) } else { fs.len() };
        for i in 0..cut { let p = destruct(g, &fs[i].1, &vs[i], d - 1, no, mistake, out); parts.push(p) }
        if *mistake == Some(1) { parts.push("_".into()); for _ in cut..fs.len() { parts.push("_".into()) } g.why = Some("too many parts".into()); *mistake = None; }
        else if *mistake == Some(2) && parts.len() == fs.len() && parts.len() > 2 { parts.pop(); out.retain(|_| true); g.why = Some("a part missing".into()); *mistake = None }
        else if cut < fs.len() { parts.push("..".into()) }
        if !is_struct && parts.len() == 1 { format!("({},)", parts[0]) } else { format!("{head}({})", parts.join(", ")) }
    }
}
fn let_(g: &mut G, o: &Opts, j: usize, bad: bool) {
    let w = g.w;
    let t = loop {
        let t = w.ty(g.r, o, 3);
        match &t { T::Tup(_) | T::Rec(_) => break t, T::Named(k, _) if !w.decls[*k].is_enum => break t, _ => {} }
    };
    let v = w.value(g.r, &t);
    let mut mistake = if bad { Some(g.r.below(5)) } else { None };
    let (mut no, mut out) = (0, vec![]);
    let d = 1 + g.r.below(3) as u32;
    let mut pat = loop {
        let (a, b) = (g.why.clone(), mistake);
        let p = destruct(g, &t, &v, d, &mut no, &mut mistake, &mut out);
        if p.starts_with(|c| "({ES".contains(c)) { break p }
        g.why = a; mistake = b; no = 0; out.clear();
    };
    if mistake == Some(3) && out.len() > 1 { let (a, b) = (out[0].0.clone(), out[1].0.clone()); if b.starts_with("k_") && !pat.contains(&format!("{b}:")) && pat.matches(&b).count() == 1 { pat = pat.replace(&b, &a); g.why = Some("a name bound twice".into()); } mistake = None }
    let tt = w.ty_text(&t);
    let text = g.lit(&t, &v);
    let mut src = format!("fn src{j}() -> {tt} {{ host::emits(\"src{j}\"); {text} }}\n");
    let form = g.r.below(3);
    let param = form == 2;
    src.push_str(&format!("fn go{j}() {{\n"));
    g.want.push(format!("src{j}"));
    match form {
        0 => src.push_str(&format!("  let mut whole = src{j}();\n  let {pat} = whole;\n")),
        1 => src.push_str(&format!("  let {pat} = src{j}();\n")),
        _ => src.push_str(&format!("  for {pat} in [src{j}()] {{\n")),
    }
    let _ = param;
    let names: Vec<String> = out.iter().map(|b| b.0.clone()).collect();
    let shown = |w: &World, out: &[(String, T, V, bool)]| { let x: Vec<String> = out.iter().map(|b| w.show(&b.1, &b.2).unwrap()).collect(); format!("({})", x.join(", ")) };
    let tuple = |n: &[String]| if n.len() == 1 { format!("({},)", n[0]) } else { format!("({})", n.join(", ")) };
    if mistake == Some(4) { if let Some(b) = out.iter().find(|b| !b.3) { let l = { let v = b.2.clone(); let t = b.1.clone(); (b.0.clone(), t, v) }; let e = g.lit(&l.1, &l.2); src.push_str(&format!("  {} = {e};\n", l.0)); g.why = Some("assignment to a binding that is not mutable".into()) } }
    if !names.is_empty() { src.push_str(&format!("  host::emits(to_string({}));\n", tuple(&names))); g.want.push(shown(w, &out)); }
    if form == 0 {
        let nv = w.value(g.r, &t);
        let text = g.lit(&t, &nv);
        src.push_str(&format!("  whole = {text};\n"));
        if !names.is_empty() { src.push_str(&format!("  host::emits(to_string({}));\n", tuple(&names))); g.want.push(shown(w, &out)); }
        for b in out.iter_mut().filter(|b| b.3) { b.2 = w.value(g.r, &b.1.clone()); }
        let sets: Vec<(String, T, V)> = out.iter().filter(|b| b.3).map(|b| (b.0.clone(), b.1.clone(), b.2.clone())).collect();
        for (n, bt, bv) in sets { let e = g.lit(&bt, &bv); src.push_str(&format!("  {n} = {e};\n")); }
        if !names.is_empty() { src.push_str(&format!("  host::emits(to_string(({}, whole)));\n", names.join(", "))); let s = shown(w, &out); g.want.push(format!("({}, {})", &s[1..s.len() - 1], w.show(&t, &nv).unwrap())); }
        else { src.push_str("  host::emits(to_string(whole));\n"); g.want.push(w.show(&t, &nv).unwrap()) }
    }
    src.push_str(if form == 2 { "  }\n}\n" } else { "}\n" });
    g.src.push_str(&src);
    g.tags.push(if form == 2 { "destructured in for" } else { "destructured in let" });
}
