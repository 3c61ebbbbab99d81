//! A12: equality, hashing and text of values of generated types.
use crate::obs::*;
use crate::p_serde::leaf;
use crate::sup::*;
use crate::tv::*;
use crate::util::*;

pub fn prop() -> Prop {
    Prop {
        id: "A12",
        level: "exploration",
        rule: "a case is a generated program with its own type declarations that compares, hashes, prints, searches and stores pairs of values of generated types that are equal, nearly equal or different; non-trivial when all execution paths ran it and every observation was compared with the reference; distinct by program text",
        secs: (90, 840),
        cases: (600, 1 << 40),
        crash: true,
        hang: false,
        assumptions: &["the order in which a set or a map prints its elements is unspecified"],
        worker: |c| { crate::tv::NEG_ZERO.store(true, std::sync::atomic::Ordering::Relaxed); crate::obs::worker_with(c, FIXED, generate) },
        floor: 100,
    }
}
const FUNS: &str = "fn same(x, y) { x == y }\nfn differ(x, y) { x != y }\nfn words(x) { to_string(x) }\nfn digest(x) { value_hash(x) }\nfn copied(x) { let mut y = x; let z = y; y = x; z == y }\n";
pub fn generate(r: &mut Rng) -> Case {
    let mut k = Case::default();
    let o = Opts { floats: r.pct(70), colls: r.pct(60), unit: true, mk: r.pct(40), keys: r.pct(30) };
    let w = World::generate(r, &Opts { colls: false, ..o });
    let mut body = String::new();
    let inputs = if r.pct(50) { 50 } else { 0 };
    let n = 1 + r.below(3);
    for j in 0..n {
        body.push_str(&format!("fn go{j}() {{\n"));
        let t = { let d = 2 + r.below(2) as u32; w.ty(r, &o, d) };
        let tt = w.ty_text(&t);
        let a = w.value(r, &t);
        let mut vs = vec![a.clone()];
        for _ in 0..1 + r.below(2) {
            let b = r.pick(&vs).clone();
            let v = match r.below(10) { 0..=2 => b, 3 => w.value(r, &t), _ => w.tweak(r, &t, &b) };
            vs.push(v);
        }
        for (i, v) in vs.iter().enumerate() {
            let f = &mut k.feed;
            let lit = w.lit(&t, v, &mut |v| leaf(v, f, r.pct(inputs)));
            body.push_str(&format!("let v{j}x{i}: {tt} = {lit};\n"));
        }
        let (mut maps, mut sets, scalar) = (r.below(4), r.below(3), matches!(t, T::Unit | T::Bool | T::Int | T::Float | T::Str | T::Mk));
        let mut ob = |x: String, want: String| { body.push_str(&format!("host::emits({x});\n")); k.want.push(want) };
        for i in 0..vs.len() {
            if r.pct(60) { if let Some(s) = w.show(&t, &vs[i]) {
                match r.below(3) { 0 => ob(format!("to_string(v{j}x{i})"), s), 1 => ob(format!("words(v{j}x{i})"), s), _ => ob(format!("f\"<{{v{j}x{i}}}>\""), format!("<{s}>")) }
            } }
            if r.pct(25) && !uses_mk(&w, &t) { if let Some(s) = w.show_as(&t, &vs[i], true) { if s.chars().all(|c| !c.is_control()) { ob(format!("inspect(v{j}x{i})"), s) } } }
            if r.pct(15) { ob(format!("to_string(copied(v{j}x{i}))"), "true".into()) }
            for q in 0..vs.len() {
                let e = w.eq(&vs[i], &vs[q]);
                let (x, y) = (format!("v{j}x{i}"), format!("v{j}x{q}"));
                match r.below(9) {
                    0 | 1 => ob(format!("to_string({x} == {y})"), e.to_string()),
                    2 => ob(format!("to_string({x} != {y})"), (!e).to_string()),
                    3 => ob(format!("to_string(same({x}, {y}))"), e.to_string()),
                    4 => ob(format!("to_string(differ({x}, {y}))"), (!e).to_string()),
                    5 | 6 if e => ob(format!("to_string(value_hash({x}) == digest({y}))"), "true".into()),
                    5 => ob(format!("to_string(contains([{x}], {y}))"), e.to_string()),
                    6 if sets == 0 || scalar => { sets += 1; ob(format!("to_string(set_contains(set {{ {x} }}, {y}))"), e.to_string()) }
                    7 if maps == 0 || scalar => { maps += 1; let other = r.below(vs.len()); let (f1, f2) = (e, w.eq(&vs[other], &vs[q])); ob(format!("to_string(map_get(map {{ {x} => 1, v{j}x{other} => 2 }}, {y}))"), if f2 { "Some (2)".into() } else if f1 { "Some (1)".into() } else { "None".into() }) }
                    _ => ob(format!("to_string(([{x}], Some({y})) == ([{y}], Some({x})))"), e.to_string()),
                }
            }
        }
        if scalar || sets == 0 {
            let mut distinct: Vec<&V> = vec![];
            for v in &vs { if !distinct.iter().any(|d| w.eq(d, v)) { distinct.push(v) } }
            ob(format!("to_string(len(set {{ {} }}))", (0..vs.len()).map(|i| format!("v{j}x{i}")).collect::<Vec<_>>().join(", ")), distinct.len().to_string());
        }
        body.push_str("}\n");
    }
    let mk = if o.mk { MK } else { "" };
    k.src = format!("{mk}{}{FUNS}{body}{}()\n", w.decls_text(), (0..n).map(|j| format!("go{j}();\n")).collect::<String>());
    k
}

const FIXED: &[(&str, &str, &[&str])] = &[
    ("equal zeros", "fn go() { let z = host::feedf(0) * 0.0; let n = z * -1.0; let mut s = set { z }; let fresh = set_insert(s, n); host::emits(to_string((n == z, fresh, set_contains(s, n), set_contains(set { n }, z)))); let k = 0.0; let l = k * -1.0; host::emits(to_string(([k, l], set { k } == set { l }))) } go()", &["(true, false, true, true)", "([0, -0], true)"]),
];
