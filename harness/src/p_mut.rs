//! A16: what is not declared mutable never changes, and mutable arguments of one call never overlap.
use crate::obs::*;
use crate::sup::*;
use crate::util::*;

pub fn prop() -> Prop {
    Prop {
        id: "A16",
        level: "exploration",
        rule: "a case is a generated program that updates places inside nested values (assignment, compound assignment, mutable arguments through functions, closures, traits and recursion) or passes several places of one value to a call; some programs update what is not mutable or pass overlapping mutable places; non-trivial when a legal program showed exactly the updates the reference computed on every execution path, or the illegal one was rejected; distinct by program text",
        secs: (50, 840),
        cases: (6000, 1 << 40),
        crash: true,
        hang: false,
        assumptions: &["two array elements whose indices are not both literals may be reported as overlapping", "several record fields of one value may be refused as mutable arguments of one call (a documented limitation)"],
        worker: |c| worker_with(c, FIXED, generate),
        floor: 400,
    }
}
const FIXED: &[(&str, &str, &[&str])] = &[
    ("mutable argument inside another mutable argument", "fn f(x: &mut int, y: &mut { a: { b: int } }) { x = 70; y = { a: { b: 80 } } } fn go() { let mut v = { c: { a: { b: 1 } } }; f(v.c.a.b, v.c); host::emits(f\"{v}\") } go()", &["*"]),
    ("value argument around a mutable argument", "fn f(x: &mut int, y: { a: { b: int } }) { x = 70; host::emits(f\"{y}\") } fn go() { let mut v = { c: { a: { b: 1 } } }; f(v.c.a.b, v.c) } go()", &["{ a: { b: 1 } }"]),
];
#[derive(Clone, PartialEq)]
enum T { Int, Tup(Vec<T>), Rec(Vec<(String, T)>), Arr(Box<T>), Named(usize) }
#[derive(Clone)]
enum V { Int(i64), Node(Vec<V>) }
#[derive(Clone, PartialEq, Debug)]
enum Step { Pos(usize), Field(usize, String), At(usize, At) }
#[derive(Clone, PartialEq, Debug)]
enum At { Lit, Neg(usize), Dyn(usize) }

struct G<'a> { r: &'a mut Rng, decls: Vec<(String, bool, Vec<(String, T)>)>, k: i64, items: String, body: String, want: Vec<String>, n: usize, dyns: Vec<usize>, tags: Vec<&'static str>, traited: bool }
impl G<'_> {
    fn parts(&self, t: &T) -> Vec<(String, T)> {
        match t { T::Tup(x) => x.iter().map(|t| (String::new(), t.clone())).collect(), T::Rec(x) => x.clone(), T::Named(i) => self.decls[*i].2.clone(), _ => vec![] }
    }
    fn ty(&mut self, d: usize) -> T {
        if d == 0 || self.r.pct(12) { return T::Int }
        match self.r.below(5) {
            0 => T::Arr(Box::new(self.ty(d - 1))),
            1 => { let n = 2 + self.r.below(2); T::Tup((0..n).map(|_| self.ty(d - 1)).collect()) }
            2 => { let n = 1 + self.r.below(3); T::Rec(["a", "b", "c"][..n].iter().map(|f| (f.to_string(), self.ty(d - 1))).collect()) }
            k => {
                let n = 1 + self.r.below(3);
                let parts = (0..n).map(|i| (if k == 3 { String::new() } else { ["p", "q", "r"][i].to_string() }, self.ty(d - 1))).collect();
                self.decls.push((format!("S{}", self.decls.len()), k == 4, parts));
                T::Named(self.decls.len() - 1)
            }
        }
    }
    fn val(&mut self, t: &T) -> V {
        match t {
            T::Int => { self.k += 1; V::Int(self.k * 10) }
            T::Arr(e) => { let n = 2 + self.r.below(2); V::Node((0..n).map(|_| self.val(e)).collect()) }
            t => { let p = self.parts(t); V::Node(p.iter().map(|x| self.val(&x.1)).collect()) }
        }
    }
    fn tname(&self, t: &T) -> String {
        match t {
            T::Int => "int".into(),
            T::Arr(e) => format!("[{}]", self.tname(e)),
            T::Tup(x) => format!("({})", x.iter().map(|t| self.tname(t)).collect::<Vec<_>>().join(", ")),
            T::Rec(x) => format!("{{ {} }}", x.iter().map(|(f, t)| format!("{f}: {}", self.tname(t))).collect::<Vec<_>>().join(", ")),
            T::Named(i) => self.decls[*i].0.clone(),
        }
    }
    /// As source (`src`) or as rendered by the language.
    fn show(&self, t: &T, v: &V, src: bool) -> String {
        let (V::Node(vs), t) = (v, t) else { let V::Int(i) = v else { unreachable!() }; return i.to_string() };
        if let T::Arr(e) = t { return format!("[{}]", vs.iter().map(|v| self.show(e, v, src)).collect::<Vec<_>>().join(", ")) }
        let p = self.parts(t);
        let list = |names: bool| p.iter().zip(vs).map(|((f, t), v)| if names { format!("{f}: {}", self.show(t, v, src)) } else { self.show(t, v, src) }).collect::<Vec<_>>().join(", ");
        match t {
            T::Rec(_) => format!("{{ {} }}", list(true)),
            T::Named(i) => { let (n, rec, _) = &self.decls[*i]; if *rec { format!("{n} {{ {} }}", list(true)) } else { format!("{n}{}({})", if src { "" } else { " " }, list(false)) } }
            _ => format!("({})", list(false)),
        }
    }
    /// A path to an integer.
    fn path(&mut self, t: &T, v: &V) -> Vec<Step> {
        let V::Node(vs) = v else { return vec![] };
        let i = self.r.below(vs.len());
        let (s, sub) = match t {
            T::Arr(e) => { let at = match self.r.below(6) { 0 => At::Neg(vs.len() - i), 1 => { self.dyns.push(i); At::Dyn(self.dyns.len() - 1) } _ => At::Lit }; (Step::At(i, at), (**e).clone()) }
            t => { let p = self.parts(t); let (f, t) = p[i].clone(); (if f.is_empty() { Step::Pos(i) } else { Step::Field(i, f) }, t) }
        };
        let mut out = vec![s];
        out.extend(self.path(&sub, &vs[i]));
        out
    }
    fn at(&self, t: &T, p: &[Step]) -> T {
        let Some(s) = p.first() else { return t.clone() };
        let sub = match (t, s) { (T::Arr(e), _) => (**e).clone(), (t, Step::Pos(i) | Step::Field(i, _)) => self.parts(t)[*i].1.clone(), _ => unreachable!() };
        self.at(&sub, &p[1..])
    }
}
fn text(p: &[Step]) -> String {
    p.iter().map(|s| match s { Step::Pos(i) => format!(".{i}"), Step::Field(_, f) => format!(".{f}"), Step::At(i, At::Lit) => format!("[{i}]"), Step::At(_, At::Neg(k)) => format!("[-{k}]"), Step::At(_, At::Dyn(d)) => format!("[d{d}]") }).collect()
}
fn index(s: &Step) -> usize { match s { Step::Pos(i) | Step::Field(i, _) | Step::At(i, _) => *i } }
fn get<'a>(v: &'a V, p: &[Step]) -> &'a V { match (p.first(), v) { (None, v) => v, (Some(s), V::Node(x)) => get(&x[index(s)], &p[1..]), _ => unreachable!() } }
fn get_mut<'a>(v: &'a mut V, p: &[Step]) -> &'a mut V { match (p.first(), v) { (None, v) => v, (Some(s), V::Node(x)) => get_mut(&mut x[index(s)], &p[1..]), _ => unreachable!() } }
/// Whether the two places share storage.
fn meet(a: &[Step], b: &[Step]) -> bool { a.iter().zip(b).all(|(x, y)| index(x) == index(y)) }
/// Whether the places are plainly apart: they first part at a position of a tuple, or at two different literal indices of the same sign.
fn plain_apart(a: &[Step], b: &[Step]) -> bool {
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (Step::Pos(i), Step::Pos(j)) => if i != j { return true },
            (Step::Field(..), _) | (_, Step::Field(..)) => return false,
            (Step::At(i, At::Lit), Step::At(j, At::Lit)) => if i != j { return true },
            _ => return false,
        }
    }
    false
}

pub fn generate(r: &mut Rng) -> Case {
    let bad = r.pct(45);
    let overlap = r.pct(35);
    let mut g = G { r, decls: vec![], k: 0, items: String::new(), body: String::new(), want: vec![], n: 0, dyns: vec![], tags: vec![], traited: false };
    let why = if overlap { several(&mut g, bad) } else { single(&mut g, bad) };
    let mut k = Case::default();
    let decls: String = g.decls.iter().map(|(n, rec, p)| if *rec { format!("struct {n} {{ {} }}\n", p.iter().map(|(f, t)| format!("{f}: {}", g.tname(t))).collect::<Vec<_>>().join(", ")) } else { format!("struct {n}({})\n", p.iter().map(|(_, t)| g.tname(t)).collect::<Vec<_>>().join(", ")) }).collect();
    k.src = format!("{decls}{}fn go() {{\n{}{}}}\ngo()\n", g.items, g.dyns.iter().enumerate().map(|(i, d)| format!("    let d{i} = {d};\n")).collect::<String>(), g.body);
    k.want = g.want;
    k.tags = g.tags;
    k.reject = why;
    if overlap { k.may_refuse = Some("more than one named subscript") }
    k
}
/// One write to one place; returns the statement.
fn write(g: &mut G, t: &T, v: &mut V, name: &str, p: &[Step]) -> String {
    g.n += 1;
    let j = g.n;
    let k = 1 + g.r.below(9) as i64;
    let full = format!("{name}{}", text(p));
    let cut = g.r.below(p.len() + 1);
    let (pre, suf) = (&p[..cut], &p[cut..]);
    // An index variable is not visible in a helper.
    let suf_ok = !suf.iter().any(|s| matches!(s, Step::At(_, At::Dyn(_))));
    let node = g.at(t, pre);
    let V::Int(old) = get(v, p).clone() else { unreachable!() };
    let (op, new) = match g.r.below(3) { 0 => (format!("= {k}"), k), 1 => (format!("+= {k}"), old + k), _ => (format!("-= {k}"), old - k) };
    let place = format!("{name}{}", text(pre));
    let (s, new) = match g.r.below(11) {
        1 | 2 if suf_ok => {
            g.tags.push("through a function");
            let tn = g.tname(&node);
            let plain = suf.iter().all(|s| matches!(s, Step::At(..)));
            let ann = if plain && g.r.pct(60) { String::new() } else { format!(": &mut {tn}") };
            g.items.push_str(&format!("fn w{j}(x{ann}) {{ x{} {op} }}\n", text(suf)));
            let mut f = format!("w{j}");
            for d in 0..g.r.below(3) {
                let ann = if g.r.pct(50) { String::new() } else { format!(": &mut {tn}") };
                let call = match g.r.below(3) { 0 => format!("{f}(y)"), 1 => format!("if true {{ {f}(y) }}"), _ => format!("let z = [1]; for q in z {{ {f}(y) }}") };
                g.items.push_str(&format!("fn w{j}_{d}(y{ann}) {{ {call} }}\n"));
                f = format!("w{j}_{d}");
            }
            (format!("{f}({place})"), new)
        }
        3 if p.is_empty() => { g.tags.push("through a closure"); (format!("let c{j} = |x| {{ x {op} }}; c{j}({full})"), new) }
        4 => {
            g.tags.push("through a function value");
            g.items.push_str(&format!("fn ap{j}(f: (&mut int) -> (), x: &mut int) {{ f(x) }}\n"));
            (format!("ap{j}(|x| {{ x {op} }}, {full})"), new)
        }
        5 => {
            g.tags.push("through a trait");
            if !g.traited { g.items.push_str("trait Bump<Self> { fn bump(x: &mut Self, by: int); }\nimpl Bump for int { fn bump(x: &mut int, by: int) { x += by } }\n"); g.traited = true }
            if g.r.pct(40) { g.items.push_str(&format!("fn tb{j}(x) {{ bump(x, {k}) }}\n")); (format!("tb{j}({full})"), old + k) } else { (format!("bump({full}, {k})"), old + k) }
        }
        6 => {
            g.tags.push("through recursion");
            g.items.push_str(&format!("fn rec{j}(x: &mut int, n: int) {{ if n > 0 {{ x += {k}; rec{j}(x, n - 1) }} }}\n"));
            (format!("rec{j}({full}, 3)"), old + 3 * k)
        }
        7 => {
            g.tags.push("swap with a local");
            g.items.push_str(&format!("fn sw{j}(x, y) {{ let t = x; x = y; y = t }}\n"));
            (format!("let mut o{j} = {k}; sw{j}({full}, o{j})"), k)
        }
        _ => { g.tags.push("direct"); (format!("{full} {op}"), new) }
    };
    *get_mut(v, p) = V::Int(new);
    match g.r.below(8) { 0 => format!("if d_true() {{ {s} }};"), 1 => format!("for i_ in [1] {{ {s} }};"), 2 => format!("{{ {s} }};"), 3 => format!("match 1 {{ 1 => {{ {s} }}, _ => () }};"), _ => format!("{s};") }
}
fn single(g: &mut G, bad: bool) -> Option<String> {
    g.items.push_str("fn d_true() { true }\n");
    let d = 1 + g.r.below(3);
    let t = g.ty(d);
    let mut v = g.val(&t);
    let (tn, lit) = (g.tname(&t), g.show(&t, &v, true));
    let p = g.path(&t, &v);
    let old = g.show(&t, &v, false);
    let m = if bad { "" } else { "mut " };
    // Ways to be illegal although the binding is mutable.
    if bad && g.r.pct(35) {
        let full = text(&p);
        let (s, why) = match g.r.below(7) {
            0 => { g.items.push_str(&format!("fn w(x: {tn}) {{ x{} = 1 }}\n", text(&p).replace("[d", "[0 + d"))); if p.iter().any(|s| matches!(s, Step::At(_, At::Dyn(_)))) { return None_(g, &t, &v, &p) } ("w(v)".to_string(), "a parameter taken by value is written") }
            1 => { g.items.push_str("fn w(x: &mut int) { x = 1 }\nfn w2(y: int) { w(y) }\n"); (format!("w2(v{full})"), "a parameter taken by value is passed as mutable") }
            2 => (format!("{{ v }}{full} = 1"), "the value of a block is written"),
            3 => { g.items.push_str(&format!("fn f_() -> {tn} {{ {lit} }}\nfn w(x: &mut int) {{ x = 1 }}\n")); (format!("w(f_(){full})"), "the result of a call is passed as mutable") }
            4 => { g.items.push_str("fn ap(f: (int) -> (), x: int) { f(x) }\n"); (format!("ap(|x| {{ x = 1 }}, v{full})"), "a writing closure where a function taking a value is wanted") }
            5 => { g.items.push_str("trait By<Self> { fn by(x: Self); }\nimpl By for int { fn by(x) { x = 1 } }\n"); (format!("by(v{full})"), "a method taking its argument by value writes it") }
            _ => { g.items.push_str("fn w(x: &mut int) { x = 1 }\n"); (format!("w(v{full} + 0)"), "a computed value is passed as mutable") }
        };
        if p.is_empty() && why.starts_with("the value of a block") { g.body.push_str("    let mut v = 1;\n    { v } = 2;\n"); return Some(why.into()) }
        g.body.push_str(&format!("    let mut v = {lit};\n    {s};\n    host::emits(f\"{{v}}\")\n"));
        return Some(why.into());
    }
    let snap = g.r.pct(40);
    let pre = if snap { "let snap = v; " } else { "" };
    let bind = g.r.below(9);
    let n = if bad { 1 } else { 1 + g.r.below(3) };
    let mut ws = String::new();
    for i in 0..n { let p = if i == 0 { p.clone() } else { g.path(&t, &v) }; ws.push_str(&write(g, &t, &mut v, "v", &p)); ws.push(' ') }
    let new = g.show(&t, &v, false);
    let end = format!("host::emits(f\"{{v}}\");{}", if snap { " host::emits(f\"{snap}\");" } else { "" });
    g.want.push(new);
    if snap { g.want.push(old.clone()) }
    let uses_dyn = !g.dyns.is_empty();
    let (txt, why) = match bind {
        1 => (format!("let (q, {m}v) = (0, {lit}); {pre}{ws}{end}"), "destructured binding"),
        2 if !uses_dyn => { g.items.push_str(&format!("fn run(v: {}{tn}) {{ {pre}{ws}{end} }}\n", "")); if !bad { let i = g.items.rfind("fn run(v").unwrap(); g.items.replace_range(i..i + 8, "fn run(mut v") } (format!("let a = {lit}; run(a); host::emits(f\"{{a}}\");"), "parameter") }
        3 => (format!("for {m}v in [{lit}] {{ {pre}{ws}{end} }};"), "loop variable"),
        4 => if bad { (format!("match Some({lit}) {{ Some(v) => {{ {pre}{ws}{end} }}, None => () }};"), "match binding") } else { (format!("match Some({lit}) {{ Some(w) => {{ let mut v = w; {pre}{ws}{end} host::emits(f\"{{w}}\"); }}, None => () }};"), "copy of a match binding") },
        5 => (format!("let {m}v = {lit}; let f = || {{ {pre}{ws}{end} }}; f(); host::emits(f\"{{v}}\");"), "captured binding"),
        6 => { g.items.push_str(&format!("struct Wrap({tn}, int)\n")); (format!("let Wrap({m}v, ..) = Wrap({lit}, 5); {pre}{ws}{end}"), "destructured struct") }
        7 => (format!("let a = {lit}; let {m}v = a; {pre}{ws}{end} host::emits(f\"{{a}}\");"), "copy of an immutable binding"),
        _ => (format!("let {m}v = {lit}; {pre}{ws}{end}"), "binding"),
    };
    if matches!(bind, 5 | 7) || (bind == 2 && !uses_dyn) || (bind == 4 && !bad) { g.want.push(old) }
    g.body.push_str(&format!("    {txt}\n"));
    if bad { Some(format!("{why} not declared mutable is updated")) } else { None }
}
#[allow(non_snake_case)]
fn None_(g: &mut G, t: &T, v: &V, p: &[Step]) -> Option<String> {
    // The plain illegal assignment.
    g.items.clear();
    g.items.push_str("fn d_true() { true }\n");
    g.body.push_str(&format!("    let v = {};\n    v{} = 1;\n", g.show(t, v, true), text(p)));
    Some("an immutable binding is assigned".into())
}
/// Several places of one value as arguments of one call.
fn several(g: &mut G, bad: bool) -> Option<String> {
    g.tags.push("several places in one call");
    loop {
        let t = g.ty(3);
        if t == T::Int { continue }
        let mut v = g.val(&t);
        let lit = g.show(&t, &v, true);
        for _ in 0..60 {
            let dyns = g.dyns.len();
            let n = 2 + (g.r.below(3) == 0) as usize;
            let mut ps: Vec<(Vec<Step>, bool)> = vec![];
            for i in 0..n {
                let full = if i > 0 && g.r.pct(50) {
                    // Near another one: the same place under another spelling, or a neighbour.
                    let mut q = ps[g.r.below(i)].0.clone();
                    for s in q.iter_mut() { if let Step::At(j, at) = s { match g.r.below(5) { 0 => { g.dyns.push(*j); *at = At::Dyn(g.dyns.len() - 1) } 1 => *at = At::Lit, _ => {} } } }
                    let sub = g.at(&t, &q);
                    let more = g.path(&sub, get(&v, &q).clone().as_ref_());
                    q.extend(more);
                    q
                } else { g.path(&t, &v) };
                let cut = if g.r.pct(70) { full.len() } else { 1 + g.r.below(full.len()) };
                ps.push((full[..cut].to_vec(), g.r.pct(75)));
            }
            ps[0].1 = true;
            // Every spelling of an index from the end is fixed by the array it applies to.
            let clash = (0..n).any(|i| (0..i).any(|j| ps[i].1 && ps[j].1 && meet(&ps[i].0, &ps[j].0)));
            let apart = (0..n).all(|i| (0..i).all(|j| !ps[i].1 || !ps[j].1 || plain_apart(&ps[i].0, &ps[j].0)));
            // Overlaps through a field reached by another step are not noticed (recorded findings).
            let deep = |p: &[Step]| p.iter().skip(1).any(|s| matches!(s, Step::Field(..)));
            if (0..n).any(|i| (0..n).any(|j| i != j && ps[i].1 && (deep(&ps[i].0) || ps[j].1 && deep(&ps[j].0)) && meet(&ps[i].0, &ps[j].0))) { g.dyns.truncate(dyns); continue }
            let fields = ps.iter().filter(|p| p.0.iter().any(|s| matches!(s, Step::Field(..)))).count() > 1;
            if (bad && !clash) || (!bad && (!apart || fields)) { g.dyns.truncate(dyns); continue }
            g.n += 1;
            let via = g.r.below(4);
            let mut sig = vec![];
            let mut act = String::new();
            let before: Vec<V> = ps.iter().map(|p| get(&v, &p.0).clone()).collect();
            for (i, (p, w)) in ps.iter().enumerate() {
                let tn = g.tname(&g.at(&t, p));
                sig.push(format!("x{i}: {}{tn}", if *w { "&mut " } else { "" }));
            }
            let mut reads = String::new();
            for i in 0..n {
                let ti = g.at(&t, &ps[i].0);
                if ps[i].1 {
                    let nv = g.val(&ti);
                    act.push_str(&format!("x{i} = {}; ", g.show(&ti, &nv, true)));
                    if !clash { *get_mut(&mut v, &ps[i].0) = nv }
                } else {
                    reads.push_str(&format!("host::emits(f\"{{x{i}}}\"); "));
                    g.want.push(g.show(&ti, &before[i], false));
                }
            }
            let args: Vec<String> = ps.iter().map(|p| format!("v{}", text(&p.0))).collect();
            let call = match via {
                1 => { g.items.push_str(&format!("fn f({}) {{ {act}{reads} }}\nfn h({}) {{ f({}) }}\n", sig.join(", "), sig.join(", "), (0..n).map(|i| format!("x{i}")).collect::<Vec<_>>().join(", "))); format!("h({})", args.join(", ")) }
                _ => { g.items.push_str(&format!("fn f({}) {{ {act}{reads} }}\n", sig.join(", "))); format!("f({})", args.join(", ")) }
            };
            g.body.push_str(&format!("    let mut v = {lit};\n    {call};\n    host::emits(f\"{{v}}\");\n"));
            g.want.push(g.show(&t, &v, false));
            return if bad { Some("mutable arguments of one call share storage".into()) } else { None };
        }
        g.decls.clear();
        g.dyns.clear();
    }
}
impl V { fn as_ref_(&self) -> &V { self } }
