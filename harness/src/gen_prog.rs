//! Type-directed generation of whole programs.
use crate::lang::*;
use crate::model::{root, vars_e};
use crate::util::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Cfg {
    /// Use lifetime-tracked values.
    pub toks: bool,
    /// Percentage of generated sub-expressions that may touch the host.
    pub eff: u32,
    /// Percentage for operations that may fail.
    pub fail: u32,
    pub stmts: usize,
    pub depth: u32,
    pub funs: usize,
    /// Percentage of functions whose signature is left to inference.
    pub infer: u32,
    pub closures: bool,
    pub generics: bool,
    pub traits: bool,
    pub floats: bool,
    /// More places, in-out calls and nested containers.
    pub places: bool,
    pub loops: u32,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { toks: false, eff: 12, fail: 8, stmts: 8, depth: 4, funs: 3, infer: 15, closures: true, generics: true, traits: true, floats: true, places: true, loops: 25 }
    }
}
#[derive(Clone, Debug)]
struct Var { id: u32, t: T, m: bool }
pub struct G<'a> {
    pub r: &'a mut Rng,
    pub c: Cfg,
    p: Prog,
    scope: Vec<Var>,
    iters: Vec<(u32, T)>,
    budget: i32,
    /// Return type of the enclosing function, when `return` may be used.
    ret: Option<T>,
    /// Enclosing loops: label, type of the break value, may a plain break be used.
    loops: Vec<Loop>,
    pure_: bool,
    nofail: bool,
    generics: usize,
    lam: u32,
    /// Being generated inside a function body: only earlier functions can be called.
    infun: bool,
    /// Nesting of loops: iteration counts multiply.
    nest: u32,
    /// Iterator pipelines still allowed: the compiler's inference time explodes with their number and nesting.
    pipes: i32,
    in_pipe: bool,
    /// The pipeline is a single stage whose closure may have effects.
    eff_stage: bool,
    let_iter: bool,
}
#[derive(Clone)]
struct Loop { label: Option<u32>, t: Option<T> }

fn e_int(i: i64) -> E { E::Int(i) }
fn bx(e: E) -> Box<E> { Box::new(e) }
fn bin(o: &'static str, a: E, b: E) -> E { E::Bin(o, bx(a), bx(b)) }
pub fn generate(r: &mut Rng, c: Cfg) -> Prog {
    let toks = c.toks;
    let mut g = G { r, c, p: Prog { toks, ..Default::default() }, scope: vec![], iters: vec![], budget: 0, ret: None, loops: vec![], pure_: false, nofail: false, generics: 0, lam: 0, infun: false, nest: 0, pipes: 0, in_pipe: false, eff_stage: false, let_iter: false };
    g.pipes = if g.r.pct(60) { 1 + g.r.below(3) as i32 } else { 0 };
    g.decls();
    for _ in 0..g.c.funs { g.fun(); }
    g.main();
    g.p
}
impl<'a> G<'a> {
    fn nv(&mut self) -> u32 { self.p.nvars += 1; self.p.nvars - 1 }
    fn bind(&mut self, t: T, m: bool) -> u32 { let id = self.nv(); self.scope.push(Var { id, t, m }); id }
    fn decls(&mut self) {
        let n = self.r.below(4);
        for k in 0..n {
            let params = if self.c.generics && self.r.pct(35) { 1 } else { 0 };
            let is_enum = self.r.pct(55);
            let recursive = is_enum && self.r.pct(35);
            let nv = if is_enum { 2 + self.r.below(2) } else { 1 };
            let mut variants = vec![];
            for v in 0..nv {
                let nf = if is_enum { if v == 0 { 0 } else { 1 + self.r.below(2) } } else { 1 + self.r.below(3) };
                let rec = nf > 0 && self.r.pct(50);
                let mut fields = vec![];
                for i in 0..nf {
                    let t = if params == 1 && self.r.pct(50) { T::Param(0) } else { self.simple_t(1) };
                    fields.push((if rec { ((b'a' + i as u8) as char).to_string() } else { i.to_string() }, t));
                }
                if recursive && v > 0 {
                    let i = fields.len();
                    let t = T::Adt(k, (0..params).map(T::Param).collect());
                    fields.push((if rec { ((b'a' + i as u8) as char).to_string() } else { i.to_string() }, t));
                    if self.r.pct(25) { let i = fields.len(); let t = fields[i - 1].1.clone(); fields.push((if rec { ((b'a' + i as u8) as char).to_string() } else { i.to_string() }, t)); }
                }
                variants.push(Variant { name: format!("{}{v}", (b'K' + k as u8) as char), rec, fields });
            }
            // Every parameter is used somewhere.
            if params == 1 && !variants.iter().any(|v| v.fields.iter().any(|f| f.1 == T::Param(0))) {
                let last = variants.last_mut().unwrap();
                if last.fields.is_empty() { last.fields.push(("0".into(), T::Param(0))); last.rec = false } else { last.fields[0].1 = T::Param(0) }
            }
            self.p.adts.push(Adt { name: format!("{}{k}", if is_enum { "En" } else { "St" }), params, is_enum, recursive, variants });
        }
        if self.c.traits && self.r.pct(50) {
            let mut methods = vec![];
            let fallible = self.r.pct(50);
            for m in 0..1 + self.r.below(2) {
                let inout = self.r.pct(35);
                let mut params = vec![(T::Unit, if inout { PM::Inout } else { PM::Val })];
                for _ in 0..self.r.below(3) { params.push((self.simple_t(0), PM::Val)); }
                let ret = self.simple_t(1);
                methods.push(Meth { params, ret, name: format!("m{m}") });
            }
            let mut ts = vec![T::Int, T::Str, T::Bool, T::arr(T::Int)];
            for (i, a) in self.p.adts.iter().enumerate() { if a.params == 0 { ts.push(T::Adt(i, vec![])); ts.push(T::Adt(i, vec![])); } }
            self.r.shuffle(&mut ts);
            let mut impls: Vec<Impl> = vec![];
            for t in ts.into_iter().take(2 + self.r.below(2)) {
                if impls.iter().any(|i| i.t == t) { continue }
                let mut bodies = vec![];
                for m in &methods {
                    self.scope.clear();
                    self.budget = 25;
                    let mut vs = vec![];
                    for (i, (pt, pm)) in m.params.iter().enumerate() { vs.push(self.bind(if i == 0 { t.clone() } else { pt.clone() }, *pm == PM::Inout)); }
                    (self.pure_, self.nofail) = (!fallible, !fallible);
                    self.infun = true;
                    self.ret = Some(m.ret.clone());
                    let b = self.body(&m.ret, 2);
                    (self.pure_, self.nofail, self.infun, self.ret) = (false, false, false, None);
                    bodies.push((vs, b));
                }
                impls.push(Impl { t, bodies });
            }
            self.p.traits.push(Trait { name: "Tr0".into(), methods, impls, fallible });
        }
    }
    fn simple_t(&mut self, d: u32) -> T {
        loop {
            let t = match self.r.below(if d == 0 { 9 } else { 15 }) {
                0..=3 => T::Int,
                4 => T::Bool,
                5 => if self.c.floats { T::Float } else { T::Int },
                6 => T::Str,
                7 | 8 => if self.c.toks { T::Tok } else { T::Int },
                9 | 10 => T::arr(self.simple_t(d - 1)),
                11 => T::Tup((0..2 + self.r.below(2)).map(|_| self.simple_t(d - 1)).collect()),
                12 => T::opt(self.simple_t(d - 1)),
                13 => T::Rec((0..1 + self.r.below(2)).map(|i| (((b'a' + i as u8) as char).to_string(), self.simple_t(d - 1))).collect()),
                _ => { if self.p.adts.is_empty() { T::Int } else { let i = self.r.below(self.p.adts.len()); let n = self.p.adts[i].params; T::Adt(i, (0..n).map(|_| self.simple_t(0)).collect()) } }
            };
            return t
        }
    }
    fn any_t(&mut self, d: u32) -> T {
        if self.generics > 0 && self.r.pct(35) { return T::Param(self.r.below(self.generics)) }
        if self.c.closures && d > 0 && self.r.pct(8) {
            let n = self.r.below(3);
            return T::Fun((0..n).map(|_| self.simple_t(0)).collect(), Box::new(self.simple_t(0)))
        }
        self.simple_t(d)
    }
    fn adt_fields(&self, i: usize, k: usize, args: &[T]) -> Vec<(String, T)> { self.p.adts[i].variants[k].fields.iter().map(|(n, t)| (n.clone(), t.subst(args))).collect() }

    // ---- functions
    fn fun(&mut self) {
        let id = self.p.funs.len() as u32;
        self.scope.clear();
        self.infun = true;
        self.generics = if self.c.generics && self.r.pct(25) { 1 + self.r.below(2) } else { 0 };
        let bounds = (0..self.generics).map(|_| None).collect();
        if self.generics == 0 && self.r.pct(22) { self.rec_fun(id); self.infun = false; return }
        if self.generics == 0 && self.r.pct(15) { if self.fold_adt(id) { self.infun = false; return } }
        let n = 1 + self.r.below(3);
        let mut params = vec![];
        let inferred = self.generics == 0 && self.r.pct(self.c.infer);
        for i in 0..n {
            let t = if i < self.generics { let b = T::Param(i); if self.r.pct(25) { T::arr(b) } else { b } } else if inferred { *[T::Int, T::Int, T::Bool, T::Str].get(self.r.below(4)).unwrap_or(&T::Int).clone_box() } else { self.any_t(2) };
            let m = match self.r.below(10) { 0..=2 if !inferred && !matches!(t, T::Fun(..)) => PM::Inout, 3 if !matches!(t, T::Fun(..)) => PM::MutVal, _ => PM::Val };
            let v = self.bind(t.clone(), m != PM::Val);
            params.push((v, t, m));
        }
        let ret = if self.r.pct(if params.iter().any(|p| p.2 == PM::Inout) { 35 } else { 6 }) { T::Unit } else { self.any_t(1) };
        self.budget = 18 + self.r.below(30) as i32;
        self.ret = Some(ret.clone());
        let d = self.c.depth - 1;
        let mut body = self.body(&ret, d);
        // Make sure that the in-out parameters are written.
        for (v, t, m) in params.clone() {
            if m == PM::Inout && self.r.pct(60) {
                self.scope.retain(|x| params.iter().any(|p| p.0 == x.id));
                if let Some(s) = self.mutate(v, &t) {
                    body = match body { E::Blk(mut ss, x) => { let at = self.r.below(ss.len() + 1); if at == 0 { ss.insert(0, s) } else { ss.insert(0, s) } E::Blk(ss, x) } x => E::Blk(vec![s], bx(x)) };
                }
            }
        }
        self.ret = None;
        self.generics = 0;
        self.infun = false;
        let ann = params.iter().map(|_| !inferred).collect();
        self.p.funs.push(Fun { id, generics: if bounds_len(&bounds) > 0 { bounds_len(&bounds) } else { 0 }, bounds, params, ann, ret, ret_ann: !inferred || self.r.pct(50), body });
    }
    /// Structural recursion on an integer.
    fn rec_fun(&mut self, id: u32) {
        let t = self.any_t(1);
        let n = self.bind(T::Int, false);
        let at = self.simple_t(1);
        let io = self.r.pct(35) && !at.has_tok(&[]);
        let a = self.bind(at.clone(), io);
        self.budget = 16;
        self.ret = Some(t.clone());
        let base = self.expr(&t, 2);
        let rv = self.nv();
        let arg = if io { E::Var(a) } else { self.expr(&at, 1) };
        let call = E::Call(id, vec![bin("-", E::Var(n), e_int(1 + self.r.below(2) as i64)), arg]);
        let mut pre = vec![];
        if io { if let Some(s) = self.mutate(a, &at) { pre.push(s) } }
        let mut ss = vec![];
        if self.r.pct(50) { ss.append(&mut pre) }
        ss.push(S::Let { m: false, v: rv, ann: None, e: call });
        ss.append(&mut pre);
        self.scope.push(Var { id: rv, t: t.clone(), m: false });
        let step = self.expr(&t, 2);
        let body = E::If(bx(bin("<=", E::Var(n), e_int(0))), bx(base), bx(E::Blk(ss, bx(step))));
        self.ret = None;
        self.p.funs.push(Fun { id, generics: 0, bounds: vec![], params: vec![(n, T::Int, PM::Val), (a, at, if io { PM::Inout } else { PM::Val })], ann: vec![true, true], ret: t, ret_ann: true, body });
    }
    /// Fold over a recursive enum.
    fn fold_adt(&mut self, id: u32) -> bool {
        let c: Vec<usize> = (0..self.p.adts.len()).filter(|i| self.p.adts[*i].is_enum && self.p.adts[*i].recursive).collect();
        if c.is_empty() { return false }
        let a = *self.r.pick(&c);
        let t = T::Adt(a, (0..self.p.adts[a].params).map(|_| T::Int).collect());
        let v = self.bind(t.clone(), false);
        let ret = self.simple_t(0);
        self.budget = 20;
        let mut arms = vec![];
        for k in 0..self.p.adts[a].variants.len() {
            let targs = if let T::Adt(_, x) = &t { x.clone() } else { vec![] };
            let fs = self.adt_fields(a, k, &targs);
            let mark = self.scope.len();
            let mut bs = vec![];
            let mut ss = vec![];
            for (_, ft) in fs {
                let b = self.nv();
                bs.push(Some(b));
                if ft == t {
                    let rv = self.nv();
                    ss.push(S::Let { m: false, v: rv, ann: None, e: E::Call(id, vec![E::Var(b)]) });
                    self.scope.push(Var { id: rv, t: ret.clone(), m: false });
                } else { self.scope.push(Var { id: b, t: ft, m: false }) }
            }
            let x = self.expr(&ret, 2);
            self.scope.truncate(mark);
            arms.push((Pat::Ctor(a, k, bs), E::Blk(ss, bx(x))));
        }
        self.p.funs.push(Fun { id, generics: 0, bounds: vec![], params: vec![(v, t, PM::Val)], ann: vec![true], ret, ret_ann: true, body: E::Match(bx(E::Var(v)), arms) });
        true
    }
    fn body(&mut self, t: &T, d: u32) -> E {
        let n = 1 + self.r.below(3);
        self.block(t, d, n)
    }
    fn block(&mut self, t: &T, d: u32, n: usize) -> E {
        let mark = self.scope.len();
        let mut ss = vec![];
        for _ in 0..n { self.stmt(d, &mut ss) }
        let e = self.expr(t, d);
        self.scope.truncate(mark);
        if ss.is_empty() { e } else { E::Blk(ss, bx(e)) }
    }
    fn sblock(&mut self, d: u32, n: usize) -> Vec<S> {
        let mark = self.scope.len();
        let mut ss = vec![];
        for _ in 0..n { self.stmt(d, &mut ss) }
        self.scope.truncate(mark);
        ss
    }
    fn main(&mut self) {
        self.scope.clear();
        self.budget = 60 + self.r.below(80) as i32;
        let mut ss = vec![];
        let n = 2 + self.r.below(self.c.stmts);
        let d = self.c.depth;
        // A few mutable variables to work with.
        for _ in 0..2 + self.r.below(3) {
            let t = self.any_t(2);
            let e = self.expr(&t, 2);
            let m = !matches!(t, T::Fun(..)) && self.r.pct(75);
            let v = self.bind(t.clone(), m);
            ss.push(S::Let { m, v, ann: self.ann(&t), e });
        }
        for _ in 0..n { self.stmt(d, &mut ss) }
        let mut fin = vec![];
        let vars: Vec<Var> = self.scope.clone();
        let adts = self.p.adts.clone();
        for v in vars.iter() {
            if v.t.has_fun(&adts) { continue }
            if v.t.has_tok(&adts) { if let Some(e) = self.observe(E::Var(v.id), &v.t) { fin.push(e) } }
            else if self.r.pct(80) { fin.push(E::Var(v.id)) }
        }
        self.budget = 20;
        for _ in 0..1 + self.r.below(2) { let mut t = self.simple_t(1); if t.has_tok(&adts) { t = T::Int } fin.push(self.expr(&t, d)) }
        fin.truncate(12);
        if fin.len() == 1 { fin.push(e_int(0)) }
        self.p.main = ss;
        self.p.fin = Some(E::Tup(fin));
    }
    /// An integer that depends on the tracked values inside.
    fn observe(&mut self, e: E, t: &T) -> Option<E> {
        match t {
            T::Tok => Some(E::Prim("us", vec![e])),
            T::Arr(i) if **i == T::Tok => { let x = self.nv(); Some(E::Pipe(Box::new(Pipe { src: Src::Arr(e), stages: vec![Stage::Map(E::Lam(vec![x], Rc::new(E::Prim("us", vec![E::Var(x)]))))], sink: Sink::Sum }))) }
            T::Arr(_) => Some(E::Prim("len", vec![e])),
            T::Tup(v) => { for (i, t) in v.iter().enumerate() { if let Some(x) = self.observe(E::Fld(bx(e.clone()), i.to_string()), t) { return Some(x) } } None }
            T::Opt(i) if **i == T::Tok => { let x = self.nv(); Some(E::Match(bx(e), vec![(Pat::Some(x), E::Prim("us", vec![E::Var(x)])), (Pat::None, e_int(-1))])) }
            _ => None,
        }
    }
    fn ann(&mut self, t: &T) -> Option<T> {
        let need = matches!(t, T::Fun(..) | T::Opt(_)) || matches!(t, T::Arr(_)) || self.r.pct(30);
        if need { Some(t.clone()) } else { None }
    }

    // ---- places
    /// Places of the given type reachable from the variables in scope.
    fn places(&mut self, t: &T, mutable: bool) -> Vec<E> {
        let mut out = vec![];
        let vars: Vec<Var> = self.scope.iter().filter(|v| !mutable || v.m).cloned().collect();
        for v in vars { self.paths(E::Var(v.id), &v.t.clone(), t, 0, &mut out); }
        out
    }
    fn paths(&mut self, e: E, have: &T, want: &T, d: u32, out: &mut Vec<E>) {
        if have == want { out.push(e.clone()); }
        if d >= 3 || out.len() > 24 { return }
        match have {
            T::Tup(v) => for (i, t) in v.iter().enumerate() { self.paths(E::Fld(bx(e.clone()), i.to_string()), t, want, d + 1, out) },
            T::Rec(v) => for (n, t) in v { self.paths(E::Fld(bx(e.clone()), n.clone()), t, want, d + 1, out) },
            T::Adt(i, a) if !self.p.adts[*i].is_enum => for (n, t) in self.adt_fields(*i, 0, a) { self.paths(E::Fld(bx(e.clone()), n), &t, want, d + 1, out) },
            T::Arr(t) if !self.nofail && self.r.pct(35) => { let i = self.index(&e); self.paths(E::Idx(bx(e.clone()), bx(i)), t, want, d + 1, out) }
            _ => {}
        }
    }
    /// An index expression without effects.
    fn index(&mut self, a: &E) -> E {
        match self.r.below(10) {
            0..=4 => e_int(self.r.range(0, 1)),
            5 => e_int(self.r.range(-2, 3)),
            6 => bin("-", E::Prim("len", vec![a.clone()]), e_int(1)),
            _ => {
                let vs: Vec<u32> = self.scope.iter().filter(|v| v.t == T::Int).map(|v| v.id).collect();
                if vs.is_empty() { return e_int(0) }
                let v = *self.r.pick(&vs);
                if self.r.pct(60) { E::Prim("mod", vec![E::Var(v), e_int(self.r.range(1, 3))]) } else { E::Var(v) }
            }
        }
    }
    /// A statement that changes the variable.
    fn mutate(&mut self, v: u32, t: &T) -> Option<S> {
        let old = (self.pure_, self.budget);
        self.budget = self.budget.max(6);
        let e = E::Var(v);
        let s = self.mutate_place(e, t);
        self.budget = old.1;
        s
    }
    fn mutate_place(&mut self, e: E, t: &T) -> Option<S> {
        let rhs = |g: &mut Self, t: &T| -> E { let v = root(&e).unwrap(); let old: Vec<bool> = g.scope.iter().map(|x| x.m).collect(); for x in g.scope.iter_mut() { if x.id == v { x.m = false } } let r = g.expr(t, 2); for (x, m) in g.scope.iter_mut().zip(old) { x.m = m } r };
        Some(match t {
            T::Int => if self.r.pct(60) { let r = rhs(self, t); S::Op(*self.r.pick(&["+", "-", "*", "+"]), e, r) } else { let r = rhs(self, t); S::Assign(e, r) },
            T::Float => { let r = rhs(self, t); S::Op("+", e, r) }
            T::Str => if self.r.pct(70) { let r = rhs(self, t); S::Ex(E::Prim("string_push_str", vec![e, r])) } else { let r = rhs(self, t); S::Assign(e, r) },
            T::Arr(i) => match self.r.below(8) {
                0..=2 => { let r = rhs(self, i); S::Ex(E::Prim("array_append", vec![e, r])) }
                3 => { let r = rhs(self, i); S::Ex(E::Prim("array_prepend", vec![e, r])) }
                4 => { let b = self.bind(T::Opt(i.clone()), false); S::Let { m: false, v: b, ann: None, e: E::Prim(if self.r.pct(50) { "array_pop_back" } else { "array_pop_front" }, vec![e]) } }
                5 if !self.nofail => { let ix = self.index(&e); return self.mutate_place(E::Idx(bx(e), bx(ix)), i) }
                6 if **i == T::Int => S::Ex(E::Prim("sort", vec![e])),
                6 if !self.nofail => S::Ex(E::Prim("reverse", vec![e])),
                _ => { let r = rhs(self, t); S::Assign(e, r) }
            },
            T::Tup(v) => if self.r.pct(75) { let i = self.r.below(v.len()); return self.mutate_place(E::Fld(bx(e), i.to_string()), &v[i]) } else { let r = rhs(self, t); S::Assign(e, r) },
            T::Rec(v) => if self.r.pct(75) { let i = self.r.below(v.len()); return self.mutate_place(E::Fld(bx(e), v[i].0.clone()), &v[i].1) } else { let r = rhs(self, t); S::Assign(e, r) },
            T::Adt(i, a) if !self.p.adts[*i].is_enum && self.r.pct(75) => { let fs = self.adt_fields(*i, 0, a); let k = self.r.below(fs.len()); return self.mutate_place(E::Fld(bx(e), fs[k].0.clone()), &fs[k].1) }
            T::Fun(..) => return None,
            _ => { let r = rhs(self, t); S::Assign(e, r) }
        })
    }
    fn some_mutation(&mut self) -> Option<S> {
        let vs: Vec<Var> = self.scope.iter().filter(|v| v.m).cloned().collect();
        if vs.is_empty() { return None }
        let v = self.r.pick(&vs).clone();
        self.mutate_place(E::Var(v.id), &v.t)
    }

    // ---- statements
    fn stmt(&mut self, d: u32, out: &mut Vec<S>) {
        self.budget -= 1;
        if self.budget < 0 || d == 0 { return }
        let eff = !self.pure_;
        match self.r.below(100) {
            0..=24 => {
                let t = self.any_t(2);
                let e = self.expr(&t, d - 1);
                let m = !matches!(t, T::Fun(..)) && self.r.pct(50);
                let v = self.bind(t.clone(), m);
                out.push(S::Let { m, v, ann: self.ann(&t), e });
            }
            25..=48 => if let Some(s) = self.some_mutation() { out.push(s) },
            49..=53 => {
                let ts: Vec<T> = (0..2 + self.r.below(2)).map(|_| self.simple_t(1)).collect();
                let e = E::Tup(ts.iter().map(|t| self.expr(t, d - 1)).collect());
                let vs: Vec<(bool, u32)> = ts.iter().map(|t| { let m = self.r.pct(40); (m, self.bind(t.clone(), m)) }).collect();
                out.push(S::LetTup(vs, e));
            }
            54..=60 if self.r.pct(self.c.eff * 4) && eff => { let e = self.expr(&T::Int, d - 1); out.push(S::Ex(E::Prim("host::emit", vec![e]))) }
            61..=62 if self.r.pct(self.c.eff * 4) && eff => { let e = self.expr(&T::Str, d - 1); out.push(S::Ex(E::Prim("host::emits", vec![e]))) }
            54..=64 if eff && self.r.pct(self.c.eff) => { let k = self.expr(&T::Int, 1); let v = self.expr(&T::Int, d - 1); out.push(S::Ex(E::Prim("host::poke", vec![k, v]))) }
            54..=69 => {
                let c = self.expr(&T::Bool, d - 1);
                let n = 1 + self.r.below(2);
                let mut a = self.sblock(d - 1, n);
                self.maybe_exit(&mut a, d);
                let b = if self.r.pct(45) { Some(self.sblock(d - 1, n)) } else { None };
                out.push(S::If(c, a, b));
            }
            70..=89 if self.r.pct(self.c.loops * 3) && self.nest < 2 => self.looping(d, out),
            70..=84 => self.call_stmt(d, out),
            85..=88 if self.c.places && !self.nofail => self.guarded(d, out),
            89..=91 if self.iters.is_empty() && self.pipes > 0 && !self.in_pipe && self.c.closures && !self.pure_ && self.nest == 0 && self.lam == 0 => {
                self.let_iter = true;
                let (p, t) = self.pipe_src(d - 1, 2);
                self.let_iter = false;
                if matches!(p.src, Src::Zip(..) | Src::Chain(..)) { return }
                let v = self.nv();
                out.push(S::LetIter(v, p));
                self.iters.push((v, t.clone()));
                for _ in 0..2 + self.r.below(3) {
                    let x = self.bind(T::opt(t.clone()), false);
                    out.push(S::Let { m: false, v: x, ann: None, e: E::Next(v) });
                    if self.r.pct(50) { self.stmt(d - 1, out) }
                }
                self.iters.clear();
            }
            _ => {
                let e = self.expr(&T::Unit, d);
                if !matches!(e, E::Unit) { out.push(S::Ex(e)) }
            }
        }
    }
    /// An early exit at the end of a conditional block.
    fn maybe_exit(&mut self, a: &mut Vec<S>, d: u32) {
        if self.r.pct(70) { return }
        if let Some(l) = self.loops.last().cloned() {
            let labels: Vec<Loop> = self.loops.iter().filter(|l| l.label.is_some()).cloned().collect();
            let (l, lab) = if !labels.is_empty() && self.r.pct(40) { let l = self.r.pick(&labels).clone(); let x = l.label; (l, x) } else { (l, None) };
            if self.r.pct(55) {
                let v = match &l.t { Some(t) => Some(bx(self.expr(&t.clone(), d.saturating_sub(2)))), None => None };
                a.push(S::Ex(E::Brk(lab, v)));
            } else if l.t.is_none() || l.label.is_none() { a.push(S::Ex(E::Cont(lab))) }
            return
        }
        if let Some(t) = self.ret.clone() { if self.lam == 0 { let e = self.expr(&t, d.saturating_sub(1)); a.push(S::Ex(E::Ret(bx(e)))) } }
    }
    fn call_stmt(&mut self, d: u32, out: &mut Vec<S>) {
        let fs: Vec<Fun> = self.p.funs.iter().filter(|f| f.params.iter().any(|p| p.2 == PM::Inout)).cloned().collect();
        if fs.is_empty() || self.pure_ { if let Some(s) = self.some_mutation() { out.push(s) } return }
        let f = self.r.pick(&fs).clone();
        if let Some((e, t)) = self.call(&f, d) {
            if t == T::Unit { out.push(S::Ex(e)) } else { let v = self.bind(t, false); out.push(S::Let { m: false, v, ann: None, e }) }
        }
    }
    fn looping(&mut self, d: u32, out: &mut Vec<S>) {
        self.nest += 1;
        let mark = self.scope.len();
        match self.r.below(10) {
            0..=3 => {
                // Index loop over an array with the patterns that bounds-check elimination looks for.
                let arrs: Vec<(E, T)> = self.scope.iter().filter_map(|v| if let T::Arr(t) = &v.t { Some((E::Var(v.id), (**t).clone())) } else { None }).collect();
                if arrs.is_empty() || self.nofail { self.nest -= 1; if let Some(s) = self.some_mutation() { out.push(s) } return }
                let (a, t) = self.r.pick(&arrs).clone();
                let lo = if self.r.pct(80) { e_int(0) } else { e_int(self.r.range(-1, 2)) };
                let len = E::Prim("len", vec![a.clone()]);
                let (hi, inc) = match self.r.below(10) { 0..=5 => (len, false), 6 => (bin("-", len, e_int(1)), false), 7 => (bin("-", len, e_int(1)), true), 8 => (e_int(self.r.range(1, 4)), false), _ => (bin("+", len, e_int(self.r.range(-1, 1))), false) };
                let i = self.bind(T::Int, false);
                let off = match self.r.below(10) { 0..=6 => E::Var(i), 7 => bin("+", E::Var(i), e_int(1)), 8 => bin("-", E::Var(i), e_int(1)), _ => bin("-", bin("-", E::Prim("len", vec![a.clone()]), e_int(1)), E::Var(i)) };
                let el = E::Idx(bx(a.clone()), bx(off));
                let mut b = vec![];
                if self.r.pct(30) { self.loops.push(Loop { label: None, t: None }); b = self.sblock(d - 1, 1); self.loops.pop(); }
                let x = self.bind(t.clone(), false);
                b.push(S::Let { m: false, v: x, ann: None, e: el.clone() });
                let amut = self.scope.iter().any(|v| v.m && root(&a) == Some(v.id));
                if amut && self.r.pct(50) { if let Some(s) = self.mutate_place(el, &t) { b.push(s) } }
                if amut && self.r.pct(15) { let v = root(&a).unwrap(); if let Some(s) = self.mutate(v, &T::arr(t.clone())) { b.push(s) } }
                self.loops.push(Loop { label: None, t: None });
                let n = 1 + self.r.below(2);
                let mut more = self.sblock(d - 1, n);
                self.loops.pop();
                b.append(&mut more);
                out.push(S::For(i, Box::new(Pipe { src: Src::Range(lo, hi, inc), stages: vec![], sink: Sink::Iter }), b));
            }
            4..=6 => {
                let ns = if self.pipes > 0 && !self.in_pipe { self.r.below(3) } else { 0 };
                let (p, t) = self.pipe_src(d - 1, ns);
                let v = self.bind(t, false);
                self.loops.push(Loop { label: None, t: None });
                let n = 1 + self.r.below(3);
                let b = self.sblock(d - 1, n);
                self.loops.pop();
                out.push(S::For(v, Box::new(p), b));
            }
            _ => {
                // Counter loop; the counter is out of reach of the generated statements.
                let k = self.nv();
                out.push(S::Let { m: true, v: k, ann: None, e: e_int(0) });
                self.scope.push(Var { id: k, t: T::Int, m: false });
                let label = if self.r.pct(40) { self.p.nlabels += 1; Some(self.p.nlabels - 1) } else { None };
                let t = if self.r.pct(40) { Some(self.simple_t(1)) } else { None };
                let lim = self.r.range(1, 5);
                let brk = |g: &mut Self| match &t { Some(t) => Some(bx(g.expr(t, 1))), None => None };
                let b0 = brk(self);
                let mut b = vec![
                    S::Op("+", E::Var(k), e_int(1)),
                    S::If(bin(if self.r.pct(50) { ">" } else { ">=" }, E::Var(k), e_int(lim)), vec![S::Ex(E::Brk(if self.r.pct(30) { label } else { None }, b0))], None)];
                if self.r.pct(30) { b.swap(0, 1); }
                let swapped = matches!(b[0], S::If(..));
                // A continue before the increment would never end.
                if swapped { b.swap(0, 1) }
                self.loops.push(Loop { label, t: t.clone() });
                let n = 1 + self.r.below(3);
                let mut more = self.sblock(d - 1, n);
                self.loops.pop();
                b.append(&mut more);
                let l = E::Loop(label, b);
                self.scope.truncate(mark);
                self.nest -= 1;
                match t { Some(t) => { let v = self.bind(t, false); out.push(S::Let { m: false, v, ann: None, e: l }) } None => out.push(S::Ex(l)) }
                return
            }
        }
        self.scope.truncate(mark);
        self.nest -= 1;
    }
    /// Guarded array accesses in the shapes that value-range reasoning works on.
    fn guarded(&mut self, d: u32, out: &mut Vec<S>) {
        let arrs: Vec<(E, T)> = self.scope.iter().filter_map(|v| if let T::Arr(t) = &v.t { Some((E::Var(v.id), (**t).clone())) } else { None }).collect();
        let ints: Vec<u32> = self.scope.iter().filter(|v| v.t == T::Int).map(|v| v.id).collect();
        if arrs.is_empty() || ints.is_empty() { return }
        let (a, t) = self.r.pick(&arrs).clone();
        let i = E::Var(*self.r.pick(&ints));
        let len = E::Prim("len", vec![a.clone()]);
        let k = self.r.range(0, 2);
        let g = match self.r.below(6) {
            0 => bin("and", bin(">=", i.clone(), e_int(0)), bin("<", i.clone(), len)),
            1 => bin("<", i.clone(), len),
            2 => bin("and", bin(">", len, i.clone()), bin("<=", e_int(0), i.clone())),
            3 => bin("and", bin(">=", i.clone(), e_int(k)), bin("<=", i.clone(), bin("-", len, e_int(1)))),
            4 => E::Not(bx(bin("or", bin("<", i.clone(), e_int(0)), bin(">=", i.clone(), len)))),
            _ => bin("and", bin("<", bin("+", i.clone(), e_int(k)), len), bin(">=", i.clone(), e_int(0))),
        };
        let off = if self.r.pct(70) { i.clone() } else { bin(if self.r.pct(50) { "+" } else { "-" }, i.clone(), e_int(k)) };
        let el = E::Idx(bx(a.clone()), bx(off));
        let amut = self.scope.iter().any(|v| v.m && root(&a) == Some(v.id));
        let mark = self.scope.len();
        let x = self.bind(t.clone(), false);
        let mut b = vec![S::Let { m: false, v: x, ann: None, e: el.clone() }];
        if self.r.pct(25) { b.insert(0, S::Ex(E::Unit)); b.remove(0); if let Some(s) = self.some_mutation() { if !matches!(s, S::Let { .. }) { b.insert(0, s) } } }
        if amut && self.r.pct(50) { if let Some(s) = self.mutate_place(el, &t) { b.push(s) } }
        let mut more = self.sblock(d - 1, 1);
        b.append(&mut more);
        self.scope.truncate(mark);
        out.push(S::If(g, b, None));
    }

    // ---- iterator pipelines
    fn lam1(&mut self, ts: &[T], r: &T, d: u32) -> E {
        let mark = self.scope.len();
        let old: Vec<bool> = self.scope.iter().map(|v| v.m).collect();
        for v in self.scope.iter_mut() { v.m = false }
        self.lam += 1;
        let loops = std::mem::take(&mut self.loops);
        let iters = std::mem::take(&mut self.iters);
        let ps: Vec<u32> = ts.iter().map(|t| self.bind(t.clone(), false)).collect();
        let n = if self.r.pct(20) { 1 } else { 0 };
        let mut b = self.block(r, d, n);
        // A literal of a yet unknown numeric type in a pipeline makes inference explode.
        if self.in_pipe && self.generics == 0 && r.any(&self.p.adts, &|t| matches!(t, T::Int | T::Float)) { b = E::Ann(bx(b), r.clone()) }
        self.lam -= 1;
        self.loops = loops;
        self.iters = iters;
        self.scope.truncate(mark);
        for (v, m) in self.scope.iter_mut().zip(old) { v.m = m }
        E::Lam(ps, Rc::new(b))
    }
    /// The closure of an eager array adaptor. Known defect (findings/eager_capture): one that captures a tracked value leaks a copy.
    fn eager_lam(&mut self, ts: &[T], r: &T, d: u32) -> E {
        let saved = self.scope.clone();
        let adts = self.p.adts.clone();
        self.scope.retain(|v| !v.t.has_fun(&adts));
        let l = self.lam1(ts, r, d);
        self.scope = saved;
        l
    }
    /// The closure of a lazy stage. Known defect (findings/lost_stage_effects): type inference forgets the effects of
    /// the closures of lazy adaptors unless the pipeline is a single `map`, so others do nothing and cannot fail.
    fn stage_lam(&mut self, ts: &[T], r: &T, d: u32) -> E {
        let old = (self.pure_, self.nofail);
        self.nofail = true;
        if !self.eff_stage { self.pure_ = true }
        let l = self.lam1(ts, r, d);
        (self.pure_, self.nofail) = old;
        l
    }
    fn src(&mut self, d: u32) -> (Src, T) {
        let n = if self.c.closures && self.pipes > 0 && self.in_pipe { 8 } else { 6 };
        self.src1(d, n)
    }
    fn src1(&mut self, d: u32, n: usize) -> (Src, T) {
        match self.r.below(n) {
            0..=2 => {
                let a = if self.r.pct(70) { e_int(0) } else { e_int(self.r.range(-2, 3)) };
                let b = if self.r.pct(70) { e_int(self.r.range(0, 5)) } else { E::Prim("mod", vec![self.expr(&T::Int, 1), e_int(4)]) };
                if matches!(b, E::Prim(..)) && self.nofail { return (Src::Range(a, e_int(3), false), T::Int) }
                (Src::Range(a, b, self.r.pct(25)), T::Int)
            }
            3..=5 => { let t = self.simple_t(1); (Src::Arr(self.expr(&T::arr(t.clone()), d.min(2))), t) }
            6 => { self.pipes -= 1; let (a, t) = self.src1(d.min(1), 6); let (b, u) = self.src1(d.min(1), 6); (Src::Zip(Box::new(a), Box::new(b)), T::Tup(vec![t, u])) }
            _ => { self.pipes -= 1; let (a, t) = self.src1(d.min(1), 6); let b = Src::Arr(self.expr(&T::arr(t.clone()), d.min(1))); (Src::Chain(Box::new(a), Box::new(b)), t) }
        }
    }
    fn pipe_src(&mut self, d: u32, stages: usize) -> (Pipe, T) {
        if stages == 0 { let (src, t) = self.src(d); return (Pipe { src, stages: vec![], sink: Sink::Iter }, t) }
        self.pipes -= 1;
        self.in_pipe = true;
        let r = self.pipe_src1(d, stages);
        self.in_pipe = false;
        r
    }
    fn pipe_src1(&mut self, d: u32, stages: usize) -> (Pipe, T) {
        let (src, mut t) = self.src(d);
        self.eff_stage = !self.let_iter && !self.pure_ && !self.nofail && matches!(src, Src::Arr(_) | Src::Range(..)) && self.r.pct(35);
        let stages = if self.eff_stage { 1 } else if matches!(src, Src::Zip(..) | Src::Chain(..)) { 1 } else { stages };
        let mut st = vec![];
        if self.c.closures {
            for _ in 0..stages {
                match if self.eff_stage { 0 } else { self.r.below(7) } {
                    0 | 1 => { let u = self.simple_t(1); let l = self.stage_lam(&[t.clone()], &u, d.min(2)); st.push(Stage::Map(l)); t = u }
                    2 | 3 => { let l = self.stage_lam(&[t.clone()], &T::Bool, d.min(2)); st.push(Stage::Filter(l)) }
                    4 => st.push(Stage::Take(e_int(self.r.range(0, 4)))),
                    5 => st.push(Stage::Skip(e_int(self.r.range(0, 2)))),
                    _ => { st.push(Stage::Enumerate); t = T::Tup(vec![T::Int, t]) }
                }
            }
        }
        (Pipe { src, stages: st, sink: Sink::Iter }, t)
    }
    fn pipe_to(&mut self, t: &T, d: u32) -> Option<E> {
        if self.nofail || !self.c.closures || self.pipes <= 0 || self.in_pipe { return None }
        let n = 1 + self.r.below(2);
        let (mut p, it) = self.pipe_src(d, n);
        self.in_pipe = true;
        let sink = self.sink(t, &it, d, &mut p);
        self.in_pipe = false;
        p.sink = sink?;
        Some(E::Pipe(Box::new(p)))
    }
    fn sink(&mut self, t: &T, it: &T, d: u32, p: &mut Pipe) -> Option<Sink> {
        let it = it.clone();
        Some(match t {
            T::Arr(want) => { if it != **want { if self.eff_stage { return None } let l = self.stage_lam(&[it.clone()], want, d.min(2)); p.stages.push(Stage::Map(l)); } Sink::Collect(t.clone()) }
            T::Bool => { let l = self.lam1(&[it], &T::Bool, d.min(2)); if self.r.pct(50) { Sink::Any(l) } else { Sink::All(l) } }
            T::Opt(w) if **w == T::Int && self.r.pct(40) => Sink::Position(self.lam1(&[it], &T::Bool, d.min(2))),
            T::Opt(w) if **w == it => Sink::Find(self.lam1(&[it.clone()], &T::Bool, d.min(2))),
            T::Int if it == T::Int && self.r.pct(40) => match self.r.below(6) { 0 => Sink::Min, 1 => Sink::Max, _ => Sink::Sum },
            T::Int if self.r.pct(30) && !self.eff_stage => Sink::Count,
            T::Fun(..) => return None,
            t => { let i = self.expr(t, 1); let l = self.lam1(&[t.clone(), it], t, d.min(2)); Sink::Fold(i, l) }
        })
    }

    // ---- calls
    fn call(&mut self, f: &Fun, d: u32) -> Option<(E, T)> {
        let mut args: Vec<T> = (0..f.generics).map(|_| self.simple_t(1)).collect();
        if self.generics > 0 && self.r.pct(30) { for a in args.iter_mut() { *a = T::Param(self.r.below(self.generics)) } }
        let mut es: Vec<E> = vec![];
        let mut used: Vec<u32> = vec![];
        let mut inout: Vec<(u32, E)> = vec![];
        for (_, t, m) in &f.params {
            let t = t.subst(&args);
            if *m == PM::Inout {
                let mut ps = self.places(&t, true);
                ps.retain(|p| !used.contains(&root(p).unwrap()) && !inout.iter().any(|(r, q)| *r == root(p).unwrap() && !disjoint(p, q)));
                if ps.is_empty() { return None }
                let p = self.r.pick(&ps).clone();
                let mut vs = Default::default();
                vars_e(&p, &mut vs);
                // Not supported by the language: two named subscripts as in-out arguments.
                let named = |p: &E| matches!(p, E::Fld(..)) ;
                if named(&p) && inout.iter().any(|(_, q)| named(q)) { return None }
                // Index variables must not be written through another argument.
                if inout.iter().any(|(r, _)| vs.contains(r) && *r != root(&p).unwrap()) { return None }
                used.extend(vs.iter().filter(|v| **v != root(&p).unwrap()));
                inout.push((root(&p).unwrap(), p.clone()));
                es.push(p);
            } else {
                // By-value arguments neither mention nor change what is passed in-out.
                let hide: Vec<u32> = inout.iter().map(|x| x.0).collect();
                let saved = self.scope.clone();
                self.scope.retain(|v| !hide.contains(&v.id));
                if f.params.iter().any(|p| p.2 == PM::Inout) { for v in self.scope.iter_mut() { v.m = false } }
                let e = self.expr(&t, d.saturating_sub(1).min(2));
                let grown: Vec<Var> = vec![];
                self.scope = saved;
                self.scope.extend(grown);
                let mut vs = Default::default();
                vars_e(&e, &mut vs);
                used.extend(vs);
                es.push(e);
            }
        }
        Some((E::Call(f.id, es), f.ret.subst(&args)))
    }

    // ---- expressions
    fn lit(&mut self, t: &T, d: u32) -> E {
        match t {
            T::Int => e_int(match self.r.below(20) { 0 => *self.r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, 1 << 32, 255, -1, 64, 63]), 1..=3 => self.r.range(-9, 20), _ => self.r.range(0, 4) }),
            T::Float => E::Flt(self.r.range(0, 40) as f64 / 4.0),
            T::Bool => E::Bool(self.r.pct(50)),
            T::Str => E::Str(self.r.pick(&["", "a", "b", "xy", "hello", "q\"t", "A1"]).to_string()),
            T::Unit => E::Unit,
            T::Tup(v) => E::Tup(v.iter().map(|t| self.leaf(t, d + 1)).collect()),
            T::Rec(v) => E::Rec(v.iter().map(|(n, t)| (n.clone(), self.leaf(t, d + 1))).collect()),
            T::Arr(i) => { let n = if d > 1 { self.r.below(2) } else { self.r.below(5) }; if n == 0 { E::Ann(bx(E::Arr(vec![])), t.clone()) } else { E::Arr((0..n).map(|_| self.leaf(i, d + 1)).collect()) } }
            T::Opt(i) => { let e = if self.r.pct(30) { E::None } else { E::Some(bx(self.leaf(i, d + 1))) }; E::Ann(bx(e), t.clone()) }
            T::Adt(i, a) => {
                let n = self.p.adts[*i].variants.len();
                let k = if d > 2 { 0 } else { self.r.below(n) };
                let fs = self.adt_fields(*i, k, a);
                let e = E::Ctor(*i, k, fs.iter().map(|(_, t)| self.leaf(t, d + 1)).collect());
                if a.is_empty() { e } else { E::Ann(bx(e), t.clone()) }
            }
            T::Fun(ps, r) => { let b = { let mark = self.scope.len(); let old: Vec<bool> = self.scope.iter().map(|v| v.m).collect(); for v in self.scope.iter_mut() { v.m = false } self.lam += 1; let vs: Vec<u32> = ps.iter().map(|t| self.bind(t.clone(), false)).collect(); let b = self.leaf(r, d + 1); self.lam -= 1; self.scope.truncate(mark); for (v, m) in self.scope.iter_mut().zip(old) { v.m = m } (vs, b) }; E::Lam(b.0, Rc::new(b.1)) }
            T::Tok => { let k = if self.pure_ { None } else { Some(self.r.range(1, 9)) }; match k { Some(k) => E::Prim("mk", vec![e_int(k)]), None => E::Prim("mk", vec![e_int(0)]) } }
            T::Param(_) => { // There is always a parameter of that type in scope, or an array of it.
                let vs: Vec<u32> = self.scope.iter().filter(|v| v.t == *t).map(|v| v.id).collect();
                if !vs.is_empty() { return E::Var(*self.r.pick(&vs)) }
                let vs: Vec<u32> = self.scope.iter().filter(|v| v.t == T::arr(t.clone())).map(|v| v.id).collect();
                if !vs.is_empty() { return E::Idx(bx(E::Var(*self.r.pick(&vs))), bx(e_int(0))) }
                panic!("no value of a parameter type")
            }
        }
    }
    fn leaf(&mut self, t: &T, d: u32) -> E {
        if self.r.pct(60) || matches!(t, T::Param(_)) {
            let ps = self.places(t, false);
            if !ps.is_empty() { return self.r.pick(&ps).clone() }
        }
        self.lit(t, d)
    }
    pub fn expr(&mut self, t: &T, d: u32) -> E {
        self.budget -= 1;
        if d == 0 || self.budget < 0 { return self.leaf(t, 0) }
        if self.r.pct(20) { return self.leaf(t, 0) }
        for _ in 0..3 { if let Some(e) = self.compound(t, d) { return e } }
        self.leaf(t, 0)
    }
    fn compound(&mut self, t: &T, d: u32) -> Option<E> {
        let eff = !self.pure_;
        let fail = !self.nofail;
        let x = self.r.below(100);
        // Productions open to every type.
        if matches!(t, T::Fun(..)) && x < 28 { return None }
        if x < 7 {
            let c = self.expr(&T::Bool, d - 1);
            let a = self.block(t, d - 1, 0);
            let b = self.block(t, d - 1, 0);
            return Some(E::If(bx(c), bx(a), bx(b)))
        }
        if x < 10 && self.lam == 0 { return Some(self.block(t, d - 1, 1)) }
        if x < 16 { return self.matching(t, d) }
        if x < 28 && eff && fail {
            let fs: Vec<Fun> = self.p.funs.iter().filter(|f| f.ret == *t || matches!(f.ret, T::Param(_))).cloned().collect();
            if !fs.is_empty() {
                let f = self.r.pick(&fs).clone();
                if let T::Param(k) = f.ret {
                    // Fix the type argument that is returned.
                    let mut g = f.clone();
                    let mut args: Vec<T> = (0..f.generics).map(T::Param).collect();
                    args[k] = t.clone();
                    if t.has_fun(&self.p.adts.clone()) { return None }
                    for (i, a) in args.iter_mut().enumerate() { if i != k { *a = self.simple_t(0) } }
                    for p in g.params.iter_mut() { p.1 = p.1.subst(&args) }
                    g.ret = t.clone();
                    g.generics = 0;
                    return self.call(&g, d).map(|x| x.0)
                }
                if let Some((e, rt)) = self.call(&f, d) { if rt == *t { return Some(e) } }
            }
        }
        if x < 32 && eff && fail && self.c.closures {
            let fs: Vec<Var> = self.scope.iter().filter(|v| matches!(&v.t, T::Fun(_, r) if **r == *t)).cloned().collect();
            if !fs.is_empty() {
                let f = self.r.pick(&fs).clone();
                if let T::Fun(ps, _) = &f.t { return Some(E::CallV(bx(E::Var(f.id)), ps.iter().map(|t| self.expr(t, d - 1)).collect())) }
            }
        }
        if x < 37 && self.lam == 0 && fail && !self.generic(t) { if let Some(e) = self.pipe_to(t, d - 1) { return Some(e) } }
        if x < 41 && !self.p.traits.is_empty() && !self.infun { if let Some(e) = self.method(t, d) { return Some(e) } }
        match t {
            T::Int => Some(match self.r.below(30) {
                0..=9 => { let o = *self.r.pick(&["+", "-", "*", "+"]); bin(o, self.expr(t, d - 1), self.expr(t, d - 1)) }
                10 => E::Neg(bx(self.expr(t, d - 1))),
                11 | 12 if fail => { let den = if self.r.pct(self.c.fail * 2) { self.expr(t, d - 1) } else { e_int(self.r.range(1, 5)) }; E::Prim(*self.r.pick(&["idiv", "rem", "mod", "idiv_euclid"]), vec![self.expr(t, d - 1), den]) }
                13 => E::Prim(*self.r.pick(&["min", "max"]), vec![self.expr(t, d - 1), self.expr(t, d - 1)]),
                14 => E::Prim("abs", vec![self.expr(t, d - 1)]),
                15..=17 => { let at = T::arr(self.simple_t(0)); E::Prim("len", vec![self.expr(&at, d - 1)]) }
                18 if fail => { let c = self.expr(t, d - 1); E::Prim("clamp", vec![c, e_int(self.r.range(-3, 2)), e_int(self.r.range(2, 9))]) }
                19 => E::Prim(*self.r.pick(&["bit_and", "bit_or", "bit_xor"]), vec![self.expr(t, d - 1), self.expr(t, d - 1)]),
                20 if self.c.floats && fail => E::Cast(bx(self.expr(&T::Float, d - 1)), T::Int),
                21..=23 if eff && self.r.pct(self.c.eff * 4) => match self.r.below(3) { 0 | 1 => E::Prim("host::sense", vec![self.expr(t, 1)]), _ => E::Prim("host::swap", vec![self.expr(t, 1), self.expr(t, d - 1)]) },
                24 if eff && fail && self.r.pct(self.c.fail * 4) => E::Prim(*self.r.pick(&["host::trip", "host::probe"]), vec![self.expr(t, d - 1)]),
                25 | 26 if self.c.toks => E::Prim("us", vec![self.tok_place()?]),
                27 if fail => { let a = self.r.range(0, 3); let at = E::Prim("mod", vec![self.expr(t, d - 1), e_int(a + 1)]); at }
                _ => return None,
            }),
            T::Float => Some(match self.r.below(8) {
                0..=3 => { let o = *self.r.pick(&["+", "-", "*"]); bin(o, self.expr(t, d - 1), self.expr(t, d - 1)) }
                4 if fail => { let den = if self.r.pct(self.c.fail) { self.expr(t, d - 1) } else { E::Flt(*self.r.pick(&[0.5, 2.0, 4.0, 8.0])) }; bin("/", self.expr(t, d - 1), den) }
                5 if fail => E::Cast(bx(self.expr(&T::Int, d - 1)), T::Float),
                6 => E::Prim(*self.r.pick(&["min", "max"]), vec![self.expr(t, d - 1), self.expr(t, d - 1)]),
                _ => return None,
            }),
            T::Bool => Some(match self.r.below(10) {
                0..=4 => { let o = *self.r.pick(&["<", "<=", ">", ">=", "==", "!="]); let s = if self.r.pct(75) { T::Int } else { *self.r.pick(&[T::Str, T::Int]).clone_box() }; bin(o, self.expr(&s, d - 1), self.expr(&s, d - 1)) }
                5 | 6 => { let o = *self.r.pick(&["and", "or"]); bin(o, self.expr(t, d - 1), self.expr(t, d - 1)) }
                7 => E::Not(bx(self.expr(t, d - 1))),
                8 => { let s = self.simple_t(1); if s.has_tok(&self.p.adts.clone()) || s.has_fun(&self.p.adts.clone()) { return None } bin(*self.r.pick(&["==", "!="]), self.expr(&s, d - 1), self.expr(&s, d - 1)) }
                9 if fail => { let a = self.expr(&T::arr(T::Int), d - 1); let x = self.expr(&T::Int, d - 1); E::Prim("contains", vec![a, x]) }
                _ => return None,
            }),
            T::Str => Some(match self.r.below(8) {
                0 | 1 if fail => E::Prim("concat", vec![self.expr(t, d - 1), self.expr(t, d - 1)]),
                2 | 3 => {
                    let vs: Vec<u32> = self.scope.iter().filter(|v| matches!(v.t, T::Int | T::Str | T::Bool)).map(|v| v.id).collect();
                    if vs.is_empty() { return None }
                    let mut ps = vec![];
                    for _ in 0..1 + self.r.below(3) { if self.r.pct(60) { ps.push(Ok(self.r.pick(&["x", "-", " y ", "é"]).to_string())) } ps.push(Err(*self.r.pick(&vs))) }
                    E::FStr(ps)
                }
                4 => { let s = self.simple_t(1); if s.has_tok(&self.p.adts.clone()) { return None } E::Prim("to_string", vec![self.expr(&s, d - 1)]) }
                5 => E::Prim("uppercase", vec![self.expr(t, d - 1)]),
                6 if fail => { let a = self.expr(&T::arr(T::Str), d - 1); E::Prim("join", vec![a, E::Str(",".into())]) }
                7 => { let a = self.expr(t, d - 1); E::Prim("string_slice", vec![a, e_int(self.r.range(-3, 3)), e_int(self.r.range(-1, 6))]) }
                _ => return None,
            }),
            T::Tup(v) => Some(E::Tup(v.iter().map(|t| self.expr(t, d - 1)).collect())),
            T::Rec(v) => Some(E::Rec(v.iter().map(|(n, t)| (n.clone(), self.expr(t, d - 1))).collect())),
            T::Adt(i, a) => {
                let n = self.p.adts[*i].variants.len();
                let k = self.r.below(n);
                let fs = self.adt_fields(*i, k, a);
                let e = E::Ctor(*i, k, fs.iter().map(|(_, t)| self.expr(t, d - 1)).collect());
                Some(if a.is_empty() { e } else { E::Ann(bx(e), t.clone()) })
            }
            T::Opt(i) => {
                if self.r.pct(30) && fail {
                    let a = self.expr(&T::Arr(i.clone()), d - 1);
                    return Some(E::Prim(*self.r.pick(&["array_peek_back", "array_peek_front"]), vec![a]))
                }
                if self.r.pct(15) && eff {
                    let ps = self.places(&T::Arr(i.clone()), true);
                    if !ps.is_empty() { let p = self.r.pick(&ps).clone(); return Some(E::Prim(*self.r.pick(&["array_pop_back", "array_pop_front"]), vec![p])) }
                }
                Some(E::Ann(bx(E::Some(bx(self.expr(i, d - 1)))), t.clone()))
            }
            T::Arr(i) => Some(match self.r.below(11) {
                0..=3 => { let n = 1 + self.r.below(3); E::Arr((0..n).map(|_| self.expr(i, d - 1)).collect()) }
                4 => E::Prim("concat", vec![self.expr(t, d - 1), self.expr(t, d - 1)]).when(fail)?,
                5 => { let a = self.expr(t, d - 1); E::Prim("array_slice", vec![a, e_int(self.r.range(-2, 2)), e_int(self.r.range(-1, 4))]) }
                6 => { let a = self.expr(t, d - 1); E::Prim("reversed", vec![a]).when(fail)? }
                7 if **i == T::Int && fail => E::Prim("sorted", vec![self.expr(t, d - 1)]),
                8 | 9 if self.c.closures && fail && self.lam == 0 && self.pipes > 0 && !self.in_pipe && !self.generic(i) => { self.pipes -= 1; self.in_pipe = true; let s = self.simple_t(1); let a = self.expr(&T::arr(s.clone()), d - 1); let l = self.eager_lam(&[s], i, 2.min(d - 1)); self.in_pipe = false; E::Prim("map", vec![a, l]) }
                10 if self.c.closures && fail && self.lam == 0 && self.pipes > 0 && !self.in_pipe && !self.generic(i) => { self.pipes -= 1; self.in_pipe = true; let a = self.expr(t, d - 1); let l = self.eager_lam(&[(**i).clone()], &T::Bool, 2.min(d - 1)); self.in_pipe = false; E::Prim("filter", vec![a, l]) }
                _ => return None,
            }),
            T::Fun(ps, r) => {
                if self.r.pct(30) && !self.pure_ && !self.nofail {
                    let fs: Vec<u32> = self.p.funs.iter().filter(|f| f.generics == 0 && f.ret == **r && f.params.len() == ps.len() && f.params.iter().zip(ps).all(|(a, b)| a.2 != PM::Inout && a.1 == *b)).map(|f| f.id).collect();
                    if !fs.is_empty() { return Some(E::FnRef(*self.r.pick(&fs))) }
                }
                let (ps, r) = (ps.clone(), (**r).clone());
                Some(self.lam1(&ps, &r, 2.min(d)))
            }
            T::Tok => { let p = self.tok_place(); if self.r.pct(60) { if let Some(p) = p { return Some(p) } } Some(E::Prim("mk", vec![self.expr(&T::Int, d - 1)])) }
            T::Unit | T::Param(_) => None,
        }
    }
    fn generic(&self, t: &T) -> bool { t.any(&self.p.adts, &|t| matches!(t, T::Param(_))) }
    fn tok_place(&mut self) -> Option<E> { let ps = self.places(&T::Tok, false); if ps.is_empty() { None } else { Some(self.r.pick(&ps).clone()) } }
    fn method(&mut self, t: &T, d: u32) -> Option<E> {
        let tr = self.p.traits[0].clone();
        if tr.fallible && (self.pure_ || self.nofail) { return None }
        let ms: Vec<usize> = (0..tr.methods.len()).filter(|m| tr.methods[*m].ret == *t).collect();
        if ms.is_empty() { return None }
        let m = *self.r.pick(&ms);
        let me = &tr.methods[m];
        let im = self.r.pick(&tr.impls).clone();
        let q = self.r.pct(50);
        let io = me.params[0].1 == PM::Inout;
        let recv = if io {
            let ps = self.places(&im.t, true);
            if ps.is_empty() { return None }
            self.r.pick(&ps).clone()
        } else { self.expr(&im.t, d - 1) };
        let saved = self.scope.clone();
        if let Some(v) = root(&recv).filter(|_| io) { self.scope.retain(|x| x.id != v); for x in self.scope.iter_mut() { x.m = false } }
        // Literals would default to the wrong implementation.
        let mut args = vec![if io { recv } else { E::Ann(bx(recv), im.t.clone()) }];
        for (pt, _) in me.params.iter().skip(1) { args.push(self.expr(pt, d.saturating_sub(2))) }
        self.scope = saved;
        Some(E::Method(0, m, q, args))
    }
    fn matching(&mut self, t: &T, d: u32) -> Option<E> {
        // Scrutinee: a variable or a generated value.
        let cands: Vec<Var> = self.scope.iter().filter(|v| matches!(&v.t, T::Opt(_) | T::Int | T::Bool | T::Str) || matches!(&v.t, T::Adt(i, _) if self.p.adts[*i].is_enum)).cloned().collect();
        let (s, st) = if !cands.is_empty() && self.r.pct(80) { let v = self.r.pick(&cands).clone(); (E::Var(v.id), v.t) } else if self.r.pct(50) { let st = T::opt(self.simple_t(0)); (self.expr(&st, d - 1), st) } else { let st = T::Tup(vec![T::Bool, T::Bool]); (self.expr(&st, d - 1), st) };
        let mut arms = vec![];
        match &st {
            T::Opt(i) => {
                let mark = self.scope.len();
                let b = self.bind((**i).clone(), false);
                let e = self.block(t, d - 1, 0);
                self.scope.truncate(mark);
                arms.push((Pat::Some(b), e));
                let e = self.block(t, d - 1, 0);
                arms.push((if self.r.pct(70) { Pat::None } else { Pat::Wild }, e));
                if matches!(arms[1].0, Pat::None) && self.r.pct(40) { arms.swap(0, 1) }
            }
            T::Adt(a, args) => {
                let n = self.p.adts[*a].variants.len();
                let mut ks: Vec<usize> = (0..n).collect();
                self.r.shuffle(&mut ks);
                let wild = self.r.pct(25);
                for (j, k) in ks.iter().enumerate() {
                    if wild && j == n - 1 { let e = self.block(t, d - 1, 0); arms.push((Pat::Wild, e)); continue }
                    let fs = self.adt_fields(*a, *k, args);
                    let rec = self.p.adts[*a].variants[*k].rec;
                    let mark = self.scope.len();
                    let bs = fs.iter().map(|(_, ft)| if self.r.pct(85) || !rec { Some(self.bind(ft.clone(), false)) } else { None }).collect();
                    let e = self.block(t, d - 1, 0);
                    self.scope.truncate(mark);
                    arms.push((Pat::Ctor(*a, *k, bs), e));
                }
            }
            T::Bool => { let first = self.r.pct(50); let a = self.block(t, d - 1, 0); let b = self.block(t, d - 1, 0); arms.push((Pat::Lit(E::Bool(first)), a)); arms.push((if self.r.pct(70) { Pat::Lit(E::Bool(!first)) } else { Pat::Wild }, b)) }
            T::Tup(_) => {
                let mut c = vec![(true, true), (true, false), (false, true), (false, false)];
                self.r.shuffle(&mut c);
                let n = 2 + self.r.below(3);
                for (x, y) in c.into_iter().take(n) { let e = self.block(t, d - 1, 0); arms.push((Pat::Tup(vec![E::Bool(x), E::Bool(y)]), e)) }
                if n < 4 { let e = self.block(t, d - 1, 0); arms.push((Pat::Wild, e)) }
            }
            lt => {
                let mut seen: Vec<String> = vec![];
                for _ in 0..1 + self.r.below(3) {
                    let l = match lt { T::Int => e_int(self.r.range(-1, 4)), _ => E::Str(self.r.pick(&["", "a", "b", "hello"]).to_string()) };
                    if seen.contains(&format!("{l:?}")) { continue }
                    seen.push(format!("{l:?}"));
                    let e = self.block(t, d - 1, 0);
                    arms.push((Pat::Lit(l), e));
                }
                let e = self.block(t, d - 1, 0);
                arms.push((Pat::Wild, e));
            }
        }
        Some(E::Match(bx(s), arms))
    }
}
trait When: Sized { fn when(self, c: bool) -> Option<Self>; }
impl When for E { fn when(self, c: bool) -> Option<E> { if c { Some(self) } else { None } } }
trait CloneBox { fn clone_box(&self) -> Box<T>; }
impl CloneBox for T { fn clone_box(&self) -> Box<T> { Box::new(self.clone()) } }
fn bounds_len(b: &Vec<Option<String>>) -> usize { b.len() }
/// Do two places with the same root never overlap? Decided on constant fields only.
pub fn disjoint(a: &E, b: &E) -> bool {
    fn path(e: &E, o: &mut Vec<String>) { match e { E::Fld(x, n) => { path(x, o); o.push(n.clone()) } E::Idx(x, _) => { path(x, o); o.push("[]".into()) } _ => {} } }
    let (mut p, mut q) = (vec![], vec![]);
    path(a, &mut p);
    path(b, &mut q);
    p.iter().zip(&q).any(|(x, y)| x != y)
}
