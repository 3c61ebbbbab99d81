//! Abstract syntax of the generated programs, and its printer.
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum T {
    Int, Float, Bool, Str, Unit,
    Tup(Vec<T>),
    /// Fields sorted by name.
    Rec(Vec<(String, T)>),
    Arr(Box<T>),
    Opt(Box<T>),
    Adt(usize, Vec<T>),
    Fun(Vec<T>, Box<T>),
    /// A value whose lifetime is tracked by the token monitor.
    Tok,
    /// Type parameter of a generic function or type.
    Param(usize),
}
impl T {
    pub fn arr(t: T) -> T { T::Arr(Box::new(t)) }
    pub fn opt(t: T) -> T { T::Opt(Box::new(t)) }
    pub fn subst(&self, a: &[T]) -> T {
        match self {
            T::Param(i) => a[*i].clone(),
            T::Tup(v) => T::Tup(v.iter().map(|t| t.subst(a)).collect()),
            T::Rec(v) => T::Rec(v.iter().map(|(n, t)| (n.clone(), t.subst(a))).collect()),
            T::Arr(t) => T::arr(t.subst(a)),
            T::Opt(t) => T::opt(t.subst(a)),
            T::Adt(i, v) => T::Adt(*i, v.iter().map(|t| t.subst(a)).collect()),
            T::Fun(v, r) => T::Fun(v.iter().map(|t| t.subst(a)).collect(), Box::new(r.subst(a))),
            t => t.clone(),
        }
    }
    pub fn any(&self, adts: &[Adt], f: &dyn Fn(&T) -> bool) -> bool {
        if f(self) { return true }
        match self {
            T::Tup(v) => v.iter().any(|t| t.any(adts, f)),
            T::Rec(v) => v.iter().any(|(_, t)| t.any(adts, f)),
            T::Arr(t) | T::Opt(t) => t.any(adts, f),
            T::Adt(i, a) => a.iter().any(|t| t.any(adts, f)) || adts[*i].variants.iter().any(|v| v.fields.iter().any(|(_, t)| !matches!(t, T::Adt(j, _) if j == i) && t.any(adts, f))),
            T::Fun(v, r) => v.iter().any(|t| t.any(adts, f)) || r.any(adts, f),
            _ => false,
        }
    }
    pub fn has_fun(&self, adts: &[Adt]) -> bool { self.any(adts, &|t| matches!(t, T::Fun(..))) }
    pub fn has_tok(&self, adts: &[Adt]) -> bool { self.any(adts, &|t| matches!(t, T::Tok)) }
}
#[derive(Clone, Debug)]
pub struct Variant { pub name: String, pub rec: bool, pub fields: Vec<(String, T)> }
#[derive(Clone, Debug)]
pub struct Adt { pub name: String, pub params: usize, pub is_enum: bool, pub recursive: bool, pub variants: Vec<Variant> }

#[derive(Clone, Debug)]
pub enum E {
    Unit, Int(i64), Flt(f64), Bool(bool), Str(String),
    Var(u32),
    Ann(Box<E>, T),
    Bin(&'static str, Box<E>, Box<E>),
    Neg(Box<E>), Not(Box<E>),
    If(Box<E>, Box<E>, Box<E>),
    Blk(Vec<S>, Box<E>),
    Tup(Vec<E>), Rec(Vec<(String, E)>), Arr(Vec<E>),
    Ctor(usize, usize, Vec<E>),
    Some(Box<E>), None,
    Fld(Box<E>, String),
    Idx(Box<E>, Box<E>),
    Call(u32, Vec<E>),
    CallV(Box<E>, Vec<E>),
    Lam(Vec<u32>, Rc<E>),
    FnRef(u32),
    Method(usize, usize, bool, Vec<E>),
    Prim(&'static str, Vec<E>),
    Pipe(Box<Pipe>),
    Match(Box<E>, Vec<(Pat, E)>),
    Loop(Option<u32>, Vec<S>),
    FStr(Vec<Result<String, u32>>),
    Cast(Box<E>, T),
    Ret(Box<E>), Brk(Option<u32>, Option<Box<E>>), Cont(Option<u32>),
    /// An iterator held in a variable and advanced explicitly.
    Next(u32),
}
#[derive(Clone, Debug)]
pub enum S {
    Let { m: bool, v: u32, ann: Option<T>, e: E },
    LetTup(Vec<(bool, u32)>, E),
    LetRec(Vec<(String, u32)>, E),
    LetIter(u32, Pipe),
    Assign(E, E),
    Op(&'static str, E, E),
    Ex(E),
    For(u32, Box<Pipe>, Vec<S>),
    If(E, Vec<S>, Option<Vec<S>>),
}
#[derive(Clone, Debug)]
pub enum Pat { Wild, Lit(E), Ctor(usize, usize, Vec<Option<u32>>), Some(u32), None, Tup(Vec<E>) }
#[derive(Clone, Debug)]
pub enum Src { Range(E, E, bool), Arr(E), Zip(Box<Src>, Box<Src>), Chain(Box<Src>, Box<Src>) }
#[derive(Clone, Debug)]
pub enum Stage { Map(E), Filter(E), FilterMap(E), Take(E), Skip(E), Enumerate }
#[derive(Clone, Debug)]
pub enum Sink { Iter, Collect(T), Fold(E, E), Sum, Count, Any(E), All(E), Find(E), Position(E), Min, Max }
#[derive(Clone, Debug)]
pub struct Pipe { pub src: Src, pub stages: Vec<Stage>, pub sink: Sink }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PM { Val, MutVal, Inout }
#[derive(Clone, Debug)]
pub struct Fun { pub id: u32, pub generics: usize, pub bounds: Vec<Option<String>>, pub params: Vec<(u32, T, PM)>, pub ann: Vec<bool>, pub ret: T, pub ret_ann: bool, pub body: E }
#[derive(Clone, Debug)]
pub struct Meth { pub params: Vec<(T, PM)>, pub ret: T, pub name: String }
#[derive(Clone, Debug)]
pub struct Trait { pub name: String, pub methods: Vec<Meth>, pub impls: Vec<Impl>, pub fallible: bool }
#[derive(Clone, Debug)]
pub struct Impl { pub t: T, pub bodies: Vec<(Vec<u32>, E)> }
#[derive(Clone, Debug, Default)]
pub struct Prog { pub adts: Vec<Adt>, pub traits: Vec<Trait>, pub funs: Vec<Fun>, pub main: Vec<S>, pub fin: Option<E>, pub ret: Option<T>, pub toks: bool, pub nvars: u32, pub nlabels: u32 }

pub const TOK_DECL: &str = "struct Probe { id: int }
impl Value for Probe { fn eq(left: Probe, right: Probe) -> bool { left.id == right.id } fn to_string(value: Probe) -> string { \"P\" } fn hash(value: Probe, state: &mut hasher) { } fn clone(source: Probe) -> Probe { Probe { id: host::tok_clone(source.id) } } fn drop(target: &mut Probe) { host::tok_drop(target.id) } }
fn mk(n: int) -> Probe { Probe { id: host::tok_new(n) } }
fn us(p: Probe) -> int { host::tok_use(p.id) }
";

pub struct P<'a> { pub p: &'a Prog, pub o: String, pub vname: &'a dyn Fn(u32) -> String, pub ind: usize }
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c => o.push(c) }
    }
    o.push('"');
    o
}
pub fn flt(f: f64) -> String {
    let mut s = format!("{f}");
    if !s.contains('.') { s.push_str(".0") }
    s
}
pub fn ty(adts: &[Adt], t: &T) -> String {
    let list = |v: &[T]| v.iter().map(|t| ty(adts, t)).collect::<Vec<_>>().join(", ");
    match t {
        T::Int => "int".into(), T::Float => "float".into(), T::Bool => "bool".into(), T::Str => "string".into(), T::Unit => "()".into(),
        T::Tup(v) => format!("({})", list(v)),
        T::Rec(v) => format!("{{ {} }}", v.iter().map(|(n, t)| format!("{n}: {}", ty(adts, t))).collect::<Vec<_>>().join(", ")),
        T::Arr(t) => format!("[{}]", ty(adts, t)),
        T::Opt(t) => format!("Option<{}>", ty(adts, t)),
        T::Adt(i, a) => if a.is_empty() { adts[*i].name.clone() } else { format!("{}<{}>", adts[*i].name, list(a)) },
        T::Fun(v, r) => format!("({}) -> {}", list(v), ty(adts, r)),
        T::Tok => "Probe".into(),
        T::Param(i) => format!("T{i}"),
    }
}
impl<'a> P<'a> {
    fn w(&mut self, s: &str) { self.o.push_str(s) }
    fn nl(&mut self) { self.o.push('\n'); for _ in 0..self.ind { self.o.push_str("  ") } }
    pub fn t(&self, t: &T) -> String { ty(&self.p.adts, t) }
    fn list(&mut self, v: &[E]) { for (i, e) in v.iter().enumerate() { if i > 0 { self.w(", ") } self.e(e) } }
    fn v(&mut self, v: u32) { let s = (self.vname)(v); self.w(&s) }
    fn blk(&mut self, ss: &[S], e: Option<&E>) {
        self.w("{");
        self.ind += 1;
        for s in ss { self.nl(); self.s(s); self.w(";"); }
        if let Some(e) = e { self.nl(); self.e(e); }
        self.ind -= 1;
        self.nl();
        self.w("}");
    }
    /// Printed so that it can stand as an operand.
    fn op(&mut self, e: &E) {
        match e {
            E::Bin(..) | E::Neg(_) | E::Not(_) | E::If(..) | E::Blk(..) | E::Lam(..) | E::Match(..) | E::Loop(..) | E::Cast(..) | E::Pipe(_) | E::Ret(_) | E::Brk(..) | E::Cont(_) => { self.w("("); self.e(e); self.w(")") }
            E::Int(i) if *i < 0 => { self.w("("); self.e(e); self.w(")") }
            E::Flt(i) if *i < 0.0 => { self.w("("); self.e(e); self.w(")") }
            _ => self.e(e),
        }
    }
    fn src(&mut self, s: &Src, head: bool) {
        match s {
            Src::Range(a, b, inc) => { if !head { self.w("(") } self.op(a); self.w(if *inc { "..=" } else { ".." }); self.op(b); if !head { self.w(")") } }
            Src::Arr(a) => self.op(a),
            Src::Zip(a, b) => { self.w("zip("); self.src(a, false); self.w(", "); self.src(b, false); self.w(")") }
            Src::Chain(a, b) => { self.w("chain("); self.src(a, false); self.w(", "); self.src(b, false); self.w(")") }
        }
    }
    pub fn pipe(&mut self, p: &Pipe) {
        let ann = if let Sink::Collect(t) = &p.sink { Some(t.clone()) } else { None };
        if ann.is_some() { self.w("(") }
        if p.stages.is_empty() && matches!(p.sink, Sink::Iter) { self.src(&p.src, true); return }
        self.src(&p.src, false);
        let plain = matches!(p.src, Src::Arr(_) | Src::Range(..));
        if plain && !p.stages.is_empty() { self.w(" |> iter()") }
        for s in &p.stages {
            self.w(" |> ");
            match s {
                Stage::Map(f) => { self.w("map("); self.e(f); self.w(")") }
                Stage::Filter(f) => { self.w("filter("); self.e(f); self.w(")") }
                Stage::FilterMap(f) => { self.w("filter_map("); self.e(f); self.w(")") }
                Stage::Take(f) => { self.w("take("); self.e(f); self.w(")") }
                Stage::Skip(f) => { self.w("skip("); self.e(f); self.w(")") }
                Stage::Enumerate => self.w("enumerate()"),
            }
        }
        match &p.sink {
            Sink::Iter => {}
            Sink::Collect(_) => self.w(" |> collect()"),
            Sink::Fold(i, f) => { self.w(" |> fold("); self.e(i); self.w(", "); self.e(f); self.w(")") }
            Sink::Sum => self.w(" |> sum()"),
            Sink::Count => self.w(" |> count()"),
            Sink::Min => self.w(" |> minimum()"),
            Sink::Max => self.w(" |> maximum()"),
            Sink::Any(f) => { self.w(" |> any("); self.e(f); self.w(")") }
            Sink::All(f) => { self.w(" |> all("); self.e(f); self.w(")") }
            Sink::Find(f) => { self.w(" |> find("); self.e(f); self.w(")") }
            Sink::Position(f) => { self.w(" |> position("); self.e(f); self.w(")") }
        }
        if let Some(t) = ann { let t = self.t(&t); self.w(&format!(": {t})")) }
    }
    pub fn e(&mut self, e: &E) {
        match e {
            E::Unit => self.w("()"),
            E::Int(i) => if *i == i64::MIN { self.w("(-9223372036854775807 - 1)") } else { let s = i.to_string(); self.w(&s) },
            E::Flt(f) => { let s = flt(*f); self.w(&s) }
            E::Bool(b) => self.w(if *b { "true" } else { "false" }),
            E::Str(s) => { let s = esc(s); self.w(&s) }
            E::Var(v) => self.v(*v),
            E::Ann(x, t) => { self.w("("); self.op(x); let t = self.t(t); self.w(&format!(": {t})")) }
            E::Bin(o, a, b) => { self.op(a); self.w(&format!(" {o} ")); self.op(b) }
            E::Neg(a) => { self.w("-"); if matches!(**a, E::Var(_) | E::Call(..)) { self.e(a) } else { self.w("("); self.e(a); self.w(")") } }
            E::Not(a) => { self.w("not "); self.op(a) }
            E::If(c, a, b) => {
                self.w("if "); self.op(c); self.w(" ");
                if let E::Blk(s, x) = &**a { self.blk(s, Some(x)) } else { self.w("{ "); self.e(a); self.w(" }") }
                self.w(" else ");
                if let E::Blk(s, x) = &**b { self.blk(s, Some(x)) } else { self.w("{ "); self.e(b); self.w(" }") }
            }
            E::Blk(s, x) => self.blk(s, Some(x)),
            E::Tup(v) => { self.w("("); self.list(v); self.w(")") }
            E::Arr(v) => { self.w("["); self.list(v); self.w("]") }
            E::Rec(v) => {
                self.w("{ ");
                for (i, (n, e)) in v.iter().enumerate() { if i > 0 { self.w(", ") } self.w(&format!("{n}: ")); self.e(e) }
                self.w(" }")
            }
            E::Ctor(a, k, v) => {
                let d = &self.p.adts[*a];
                let var = d.variants[*k].clone();
                let name = if d.is_enum { format!("{}::{}", d.name, var.name) } else { d.name.clone() };
                self.w(&name);
                if var.rec {
                    self.w(" { ");
                    for (i, ((n, _), e)) in var.fields.iter().zip(v).enumerate() { if i > 0 { self.w(", ") } self.w(&format!("{n}: ")); self.e(e) }
                    self.w(" }")
                } else if !v.is_empty() { self.w("("); self.list(v); self.w(")") }
            }
            E::Some(x) => { self.w("Some("); self.e(x); self.w(")") }
            E::None => self.w("None"),
            E::Fld(x, n) => { self.op(x); self.w(&format!(".{n}")) }
            E::Idx(a, i) => { self.op(a); self.w("["); self.e(i); self.w("]") }
            E::Call(f, a) => { self.w(&format!("f{f}(")); self.list(a); self.w(")") }
            E::CallV(f, a) => {
                if matches!(**f, E::Var(_) | E::Call(..)) { self.e(f) } else { self.w("("); self.e(f); self.w(")") }
                self.w("("); self.list(a); self.w(")")
            }
            E::Lam(ps, b) => {
                self.w("|");
                for (i, p) in ps.iter().enumerate() { if i > 0 { self.w(", ") } self.v(*p) }
                self.w("| ");
                if let E::Blk(s, x) = &**b { self.blk(s, Some(x)) } else { self.e(b) }
            }
            E::FnRef(f) => self.w(&format!("f{f}")),
            E::Method(t, m, q, a) => {
                let tr = &self.p.traits[*t];
                let s = if *q { format!("{}::{}(", tr.name, tr.methods[*m].name) } else { format!("{}(", tr.methods[*m].name) };
                self.w(&s); self.list(a); self.w(")")
            }
            E::Prim(n, a) => { self.w(n); self.w("("); self.list(a); self.w(")") }
            E::Pipe(p) => self.pipe(p),
            E::Match(x, arms) => {
                self.w("match "); self.op(x); self.w(" {");
                self.ind += 1;
                for (p, e) in arms {
                    self.nl();
                    self.pat(p);
                    self.w(" => ");
                    let names = self.rec_names(p);
                    if !names.is_empty() {
                        // Record patterns bind by field name.
                        self.w("{ ");
                        for (n, v) in names { self.w("let "); self.v(v); self.w(&format!(" = {n}; ")) }
                        self.e(e);
                        self.w(" }");
                    } else if matches!(e, E::Blk(..)) { self.e(e) } else { self.op(e) }
                    self.w(",");
                }
                self.ind -= 1;
                self.nl();
                self.w("}");
            }
            E::Loop(l, b) => {
                if let Some(l) = l { self.w(&format!("'l{l}: ")) }
                self.w("loop "); self.blk(b, None)
            }
            E::FStr(ps) => {
                self.w("f\"");
                for p in ps {
                    match p {
                        Ok(s) => { let t = esc(s); self.w(&t[1..t.len() - 1]) }
                        Err(v) => { self.w("{"); self.v(*v); self.w("}") }
                    }
                }
                self.w("\"")
            }
            E::Cast(x, t) => { self.op(x); let t = self.t(t); self.w(&format!(" as {t}")) }
            E::Ret(x) => { self.w("return "); self.e(x) }
            E::Brk(l, x) => {
                self.w("break");
                if let Some(l) = l { self.w(&format!(" 'l{l}")) }
                if let Some(x) = x { self.w(" "); self.e(x) }
            }
            E::Cont(l) => { self.w("continue"); if let Some(l) = l { self.w(&format!(" 'l{l}")) } }
            E::Next(v) => { self.w("next("); self.v(*v); self.w(")") }
        }
    }
    fn rec_names(&self, p: &Pat) -> Vec<(String, u32)> {
        if let Pat::Ctor(a, k, vs) = p {
            let var = &self.p.adts[*a].variants[*k];
            if var.rec { return var.fields.iter().zip(vs).filter_map(|((n, _), v)| v.map(|v| (n.clone(), v))).collect() }
        }
        vec![]
    }
    fn pat(&mut self, p: &Pat) {
        match p {
            Pat::Wild => self.w("_"),
            Pat::Lit(e) => self.e(e),
            Pat::Tup(v) => { self.w("("); self.list(v); self.w(")") }
            Pat::Some(v) => { self.w("Some("); self.v(*v); self.w(")") }
            Pat::None => self.w("None"),
            Pat::Ctor(a, k, vs) => {
                let d = &self.p.adts[*a];
                let var = d.variants[*k].clone();
                self.w(&format!("{}::{}", d.name, var.name));
                if var.rec {
                    self.w(" { ");
                    let mut skip = false;
                    let mut first = true;
                    for ((n, _), v) in var.fields.iter().zip(vs) {
                        match v { Some(_) => { if !first { self.w(", ") } first = false; self.w(n) } None => skip = true }
                    }
                    if skip { if !first { self.w(", ") } self.w("..") }
                    self.w(" }")
                } else if !vs.is_empty() {
                    self.w("(");
                    for (i, v) in vs.iter().enumerate() { if i > 0 { self.w(", ") } match v { Some(v) => self.v(*v), None => self.w("_") } }
                    self.w(")")
                }
            }
        }
    }
    pub fn s(&mut self, s: &S) {
        match s {
            S::Let { m, v, ann, e } => {
                self.w(if *m { "let mut " } else { "let " });
                self.v(*v);
                if let Some(t) = ann { let t = self.t(t); self.w(&format!(": {t}")) }
                self.w(" = ");
                self.e(e)
            }
            S::LetTup(vs, e) => {
                self.w("let (");
                for (i, (m, v)) in vs.iter().enumerate() { if i > 0 { self.w(", ") } if *m { self.w("mut ") } self.v(*v) }
                self.w(") = ");
                self.e(e)
            }
            S::LetRec(vs, e) => {
                self.w("let { ");
                for (i, (n, v)) in vs.iter().enumerate() { if i > 0 { self.w(", ") } self.w(&format!("{n}: ")); self.v(*v) }
                self.w(" } = ");
                self.e(e)
            }
            S::LetIter(v, p) => { self.w("let mut "); self.v(*v); self.w(" = "); if p.stages.is_empty() && !matches!(p.src, Src::Zip(..) | Src::Chain(..)) { self.w("iter("); self.src(&p.src, false); self.w(")") } else { self.pipe(p) } }
            S::Assign(a, b) => { self.e(a); self.w(" = "); self.e(b) }
            S::Op(o, a, b) => { self.e(a); self.w(&format!(" {o}= ")); self.e(b) }
            S::Ex(e) => self.e(e),
            S::For(v, p, b) => { self.w("for "); self.v(*v); self.w(" in "); self.pipe(p); self.w(" "); self.blk(b, None) }
            S::If(c, a, b) => {
                self.w("if "); self.op(c); self.w(" "); self.blk(a, None);
                if let Some(b) = b { self.w(" else "); self.blk(b, None) }
            }
        }
    }
    pub fn adt(&mut self, i: usize) {
        let d = self.p.adts[i].clone();
        let ps = if d.params == 0 { String::new() } else { format!("<{}>", (0..d.params).map(|i| format!("T{i}")).collect::<Vec<_>>().join(", ")) };
        let fields = |p: &Self, v: &Variant| if v.fields.is_empty() { String::new() } else if v.rec {
            format!(" {{ {} }}", v.fields.iter().map(|(n, t)| format!("{n}: {}", p.t(t))).collect::<Vec<_>>().join(", "))
        } else { format!("({})", v.fields.iter().map(|(_, t)| p.t(t)).collect::<Vec<_>>().join(", ")) };
        if d.is_enum {
            let s = format!("enum {}{ps} {{ {} }}\n", d.name, d.variants.iter().map(|v| format!("{}{}", v.name, fields(self, v))).collect::<Vec<_>>().join(", "));
            self.w(&s);
        } else {
            let s = format!("struct {}{ps}{}\n", d.name, fields(self, &d.variants[0]));
            self.w(&s);
        }
    }
    pub fn params(&mut self, ps: &[(u32, T, PM)], ann: &[bool]) {
        for (i, (v, t, m)) in ps.iter().enumerate() {
            if i > 0 { self.w(", ") }
            if *m == PM::MutVal { self.w("mut ") }
            self.v(*v);
            if ann.get(i).copied().unwrap_or(true) { let t = self.t(t); self.w(&format!(": {}{t}", if *m == PM::Inout { "&mut " } else { "" })) }
        }
    }
    pub fn body(&mut self, e: &E) {
        if let E::Blk(s, x) = e { self.blk(s, Some(x)) } else { self.w("{ "); self.e(e); self.w(" }") }
        self.w("\n");
    }
    pub fn fun(&mut self, f: &Fun) {
        let g = if f.generics == 0 { String::new() } else { format!("<{}>", (0..f.generics).map(|i| format!("T{i}")).collect::<Vec<_>>().join(", ")) };
        self.w(&format!("fn f{}{g}(", f.id));
        self.params(&f.params, &f.ann);
        self.w(")");
        if f.ret_ann { let t = self.t(&f.ret); self.w(&format!(" -> {t}")) }
        let b: Vec<String> = f.bounds.iter().enumerate().filter_map(|(i, b)| b.as_ref().map(|b| format!("T{i}: {b}"))).collect();
        if !b.is_empty() { self.w(&format!(" where {}", b.join(", "))) }
        self.w(" ");
        self.body(&f.body);
    }
    pub fn traits(&mut self) {
        for tr in &self.p.traits {
            self.w(&format!("trait {}<Self> {{", tr.name));
            for m in &tr.methods {
                self.w(&format!(" fn {}(self: {}Self", m.name, if m.params[0].1 == PM::Inout { "&mut " } else { "" }));
                for (i, (t, _)) in m.params.iter().enumerate().skip(1) { let t = self.t(t); self.w(&format!(", p{i}: {t}")) }
                let t = self.t(&m.ret);
                self.w(&format!(") -> {t}{};", if tr.fallible { " ! (read, write, fallible)" } else { "" }));
            }
            self.w(" }\n");
            for im in &tr.impls {
                let t = self.t(&im.t);
                self.w(&format!("impl {} for {t} {{\n", tr.name));
                for (m, (vs, b)) in tr.methods.iter().zip(&im.bodies) {
                    self.w(&format!(" fn {}(", m.name));
                    let ps: Vec<(u32, T, PM)> = vs.iter().zip(&m.params).enumerate().map(|(i, (v, (t, pm)))| (*v, if i == 0 { im.t.clone() } else { t.clone() }, *pm)).collect();
                    self.params(&ps, &[]);
                    let t = self.t(&m.ret);
                    self.w(&format!(") -> {t} "));
                    self.body(b);
                }
                self.w("}\n");
            }
        }
    }
}
pub fn default_name(v: u32) -> String { format!("v{v}") }
pub fn print_prog(p: &Prog) -> String { print_with(p, &default_name, &(0..p.funs.len()).collect::<Vec<_>>()) }
/// Functions are printed in the given order.
pub fn print_with(p: &Prog, vname: &dyn Fn(u32) -> String, order: &[usize]) -> String {
    let mut w = P { p, o: String::new(), vname, ind: 0 };
    if p.toks { w.o.push_str(TOK_DECL) }
    for i in 0..p.adts.len() { w.adt(i) }
    w.traits();
    for i in order { w.fun(&p.funs[*i]) }
    for s in &p.main { w.s(s); w.o.push_str(";\n") }
    if let Some(e) = &p.fin { w.e(e); w.o.push('\n') }
    w.o
}
