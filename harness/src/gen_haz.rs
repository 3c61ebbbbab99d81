//! Programs dense in order hazards: snapshots of places taken in argument lists, operands and
//! loops, next to changes of the same or overlapping places by calls that may or may not fail.
use crate::gen_prog::disjoint;
use crate::lang::*;
use crate::model::root;
use crate::util::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
struct Var { id: u32, t: T, m: bool, k: bool }
#[derive(Clone, Copy, PartialEq)]
enum Kind { Mutate, Read, Back }
struct G<'a> { r: &'a mut Rng, p: Prog, scope: Vec<Var>, kinds: Vec<Kind>, hide: Vec<u32>, frozen: bool, budget: i32, nest: u32, eff: u32, fail: u32, arrays: bool, lams: Vec<(u32, T)>, /// What an earlier operand of the same expression looked at.
    focus: Option<u32> }

fn bx(e: E) -> Box<E> { Box::new(e) }
fn int(i: i64) -> E { E::Int(i) }
fn bin(o: &'static str, a: E, b: E) -> E { E::Bin(o, bx(a), bx(b)) }

pub fn generate(r: &mut Rng) -> Prog {
    let (eff, fail, arrays) = (*r.pick(&[0, 10, 30]), *r.pick(&[0, 30, 60]), r.pct(60));
    let mut g = G { r, p: Prog::default(), scope: vec![], kinds: vec![], hide: vec![], frozen: false, budget: 0, nest: 0, eff, fail, arrays, lams: vec![], focus: None };
    g.program();
    g.p
}
impl G<'_> {
    fn nv(&mut self) -> u32 { self.p.nvars += 1; self.p.nvars - 1 }
    fn bind(&mut self, t: &T, m: bool) -> u32 { let id = self.nv(); self.scope.push(Var { id, t: t.clone(), m, k: true }); id }
    fn fields(&self, t: &T) -> Vec<(String, T)> {
        match t {
            T::Adt(i, _) => self.p.adts[*i].variants[0].fields.clone(),
            T::Tup(v) => v.iter().enumerate().map(|(i, t)| (i.to_string(), t.clone())).collect(),
            T::Rec(v) => v.clone(),
            _ => vec![],
        }
    }
    fn types(&self) -> Vec<T> {
        let s = |i| T::Adt(i, vec![]);
        let mut v = vec![T::Int, s(0), s(1), T::Tup(vec![T::Int, s(0)]), T::Rec(vec![("a".into(), T::Int), ("b".into(), s(0))]), T::Tup(vec![s(0), s(0)])];
        if self.arrays { v.extend([T::arr(T::Int), T::arr(s(0)), T::arr(T::arr(T::Int)), T::Str, T::Rec(vec![("a".into(), T::arr(T::Int)), ("b".into(), T::Str)])]) }
        v
    }
    fn ty(&mut self) -> T { let v = self.types(); self.r.pick(&v).clone() }
    fn program(&mut self) {
        let st = |n: &str, f: Vec<(&str, T)>| Adt { name: n.into(), params: 0, is_enum: false, recursive: false, variants: vec![Variant { name: n.into(), rec: true, fields: f.into_iter().map(|(n, t)| (n.to_string(), t)).collect() }] };
        self.p.adts.push(st("P0", vec![("k", T::Int), ("n", T::Int)]));
        let last = if self.arrays { *self.r.pick(&[0usize, 1, 2]) } else { 0 };
        let q = match last { 0 => T::Tup(vec![T::Int, T::Int]), 1 => T::arr(T::Int), _ => T::Str };
        self.p.adts.push(st("P1", vec![("p", T::Adt(0, vec![])), ("q", q), ("z", T::Int)]));
        let n = 3 + self.r.below(4);
        for _ in 0..n { self.fun() }
        let k = 1 + self.r.below(2);
        for _ in 0..k { self.body_fun() }
        self.main();
    }
    // ---- places
    fn paths(&mut self, want: Option<&T>, mutable: bool) -> Vec<(E, T)> {
        let mut out = vec![];
        let vs: Vec<Var> = self.scope.iter().filter(|v| (!mutable || v.m) && !self.hide.contains(&v.id)).cloned().collect();
        let only = self.focus.filter(|f| vs.iter().any(|v| v.id == *f) && self.r.pct(75));
        if let Some(f) = only {
            let v = vs.iter().find(|v| v.id == f).unwrap().clone();
            self.root(&v, want, &mut out);
            if !out.is_empty() { return out }
        }
        for v in vs { self.root(&v, want, &mut out) }
        out
    }
    /// The named fields of a variable whose type inference only learns after the access behave like
    /// those of a nested value (see the fixtures of A02).
    fn root(&mut self, v: &Var, want: Option<&T>, out: &mut Vec<(E, T)>) {
        let opaque = !v.k && matches!(v.t, T::Adt(..) | T::Rec(_));
        self.walk(E::Var(v.id), &v.t, want, if opaque { 3 } else { 0 }, out)
    }
    fn walk(&mut self, e: E, t: &T, want: Option<&T>, d: u32, out: &mut Vec<(E, T)>) {
        if want.is_none_or(|w| w == t) { out.push((e.clone(), t.clone())) }
        if d > 2 { return }
        // Named fields of anything but a variable: see the fixtures of A02.
        if matches!(t, T::Adt(..) | T::Rec(_)) && !matches!(e, E::Var(_)) { return }
        for (n, t) in self.fields(t) { self.walk(E::Fld(bx(e.clone()), n), &t, want, d + 1, out) }
        if let T::Arr(t) = t { if self.r.pct(60) { let i = self.index(); self.walk(E::Idx(bx(e), bx(i)), t, want, d + 1, out) } }
    }
    fn known(&self, e: &E) -> bool { match e { E::Var(v) => self.scope.iter().any(|w| w.id == *v && w.k), E::Fld(..) | E::Idx(..) | E::If(..) | E::Blk(..) | E::CallV(..) | E::Match(..) | E::Loop(..) => false, E::Tup(x) | E::Arr(x) => x.iter().all(|e| self.known(e)), E::Rec(x) => x.iter().all(|e| self.known(&e.1)), _ => true } }
    fn index(&mut self) -> E {
        let vs: Vec<u32> = self.scope.iter().filter(|v| v.t == T::Int && !v.m && !self.hide.contains(&v.id)).map(|v| v.id).collect();
        if !vs.is_empty() && self.r.pct(45) { let v = *self.r.pick(&vs); return E::Prim("mod", vec![E::Var(v), int(2)]) }
        int(*self.r.pick(&[0, 0, 1, 1, 2, -1]))
    }
    fn place(&mut self, t: Option<&T>, mutable: bool) -> Option<(E, T)> {
        let v = self.paths(t, mutable);
        if v.is_empty() { return None }
        // Deeper places as likely as whole variables.
        Some(self.r.pick(&v).clone())
    }
    // ---- functions
    fn fun(&mut self) {
        let kind = *self.r.pick(&[Kind::Mutate, Kind::Mutate, Kind::Mutate, Kind::Read, Kind::Read, Kind::Back]);
        self.scope.clear();
        let t = if self.kinds.is_empty() && self.r.pct(50) { T::Int } else { self.ty() };
        let n = if kind == Kind::Mutate { 1 } else { 1 + self.r.below(3) };
        let mut params = vec![];
        for _ in 0..n {
            let t = if params.is_empty() || self.r.pct(40) { t.clone() } else { self.ty() };
            let m = if kind == Kind::Mutate { PM::Inout } else if self.r.pct(25) { PM::MutVal } else { PM::Val };
            let v = self.bind(&t, m != PM::Val);
            params.push((v, t, m));
        }
        if kind == Kind::Mutate {
            if self.r.pct(40) { let t = if self.r.pct(50) { T::Int } else { self.ty() }; let v = self.bind(&t, false); params.push((v, t, PM::Val)) }
            if self.r.pct(25) { let t = self.ty(); let v = self.bind(&t, true); params.push((v, t, PM::Inout)) }
            if self.r.pct(30) { let k = self.r.below(params.len()); params.swap(0, k) }
        }
        let mut ss = vec![];
        if self.r.pct(self.fail) { self.guard(&mut ss) }
        self.budget = 4;
        if kind == Kind::Mutate || params.iter().any(|p| p.2 == PM::MutVal) {
            for _ in 0..1 + self.r.below(2) { if let Some(s) = self.change(1) { ss.push(s) } }
            if self.r.pct(45) { self.padding(&mut ss) }
        }
        if self.r.pct(self.eff) { let e = self.read_int(); ss.push(S::Ex(E::Prim("host::emit", vec![e]))) }
        self.budget = 3;
        let ret = match kind { Kind::Back => t.clone(), Kind::Mutate => if self.r.pct(25) { T::Unit } else if self.r.pct(70) { T::Int } else { params[0].1.clone() }, Kind::Read => T::Int };
        let e = if ret == T::Unit { E::Unit } else if kind == Kind::Read { let mut e = self.read_int(); for _ in 0..self.r.below(3) { let x = self.read_int(); e = bin("+", bin("*", e, int(3)), x) } e } else { self.place(Some(&ret), false).map(|x| x.0).unwrap_or(int(7)) };
        let ret = if matches!(e, E::Int(7)) { T::Int } else { ret };
        let ann = params.iter().map(|_| true).collect();
        let id = self.p.funs.len() as u32;
        self.p.funs.push(Fun { id, generics: 0, bounds: vec![], params, ann, ret, ret_ann: true, body: E::Blk(ss, bx(e)) });
        self.kinds.push(kind);
    }
    /// A failure that hardly ever happens.
    fn guard(&mut self, ss: &mut Vec<S>) {
        let e = self.read_int();
        match self.r.below(3) {
            0 => { let v = self.nv(); ss.push(S::Let { m: false, v, ann: None, e: E::Prim("idiv", vec![int(1), bin("-", e, int(100_003))]) }) }
            _ => { let lim = if self.r.pct(12) { 40 } else { 1_000_000_000 }; ss.push(S::If(bin(">", e, int(lim)), vec![S::Ex(E::Prim("panic", vec![E::Str("guard".into())]))], None)) }
        }
    }
    /// Makes the function too large to be inlined.
    fn padding(&mut self, ss: &mut Vec<S>) {
        let Some((e, _)) = self.place(Some(&T::Int), true) else { return };
        let mut x = E::Prim("idiv", vec![bin("*", e.clone(), int(3)), int(2)]);
        for i in 0..8 { x = bin("+", x, if i % 2 == 0 { int(1) } else { bin("-", e.clone(), int(i)) }) }
        ss.push(S::Assign(e, x));
    }
    fn read_int(&mut self) -> E {
        if let Some((e, _)) = self.place(Some(&T::Int), false) { if self.r.pct(85) { return e } }
        if let Some((e, t)) = self.place(None, false) { match t { T::Arr(_) => return E::Prim("len", vec![e]), T::Int => return e, _ => {} } }
        int(self.r.range(0, 9))
    }
    // ---- changes
    fn change(&mut self, d: u32) -> Option<S> {
        if self.frozen { return None }
        let (e, t) = self.place(None, true)?;
        self.change_at(e, &t, d)
    }
    fn change_at(&mut self, e: E, t: &T, d: u32) -> Option<S> {
        // What the right-hand side does to the target's own elements and named fields is left out.
        let rt = root(&e)?;
        let idx = { fn f(e: &E) -> bool { match e { E::Idx(..) => true, E::Fld(x, n) => !n.starts_with(|c: char| c.is_ascii_digit()) || f(x), _ => false } } f(&e) };
        let was: Vec<bool> = self.scope.iter().map(|v| v.m).collect();
        if idx || self.r.pct(75) || matches!(t, T::Arr(_) | T::Str) { for v in self.scope.iter_mut() { if v.id == rt { v.m = false } } }
        let s = match t {
            T::Int => { let r = self.ex(t, d); if self.r.pct(50) { S::Op(*self.r.pick(&["+", "-", "+"]), e, r) } else { S::Assign(e, r) } }
            T::Str if self.r.pct(70) => { let r = self.ex(t, d); S::Ex(E::Prim("string_push_str", vec![e, r])) }
            T::Arr(i) => match self.r.below(9) {
                0..=3 => { let r = self.ex(i, d); S::Ex(E::Prim("array_append", vec![e, r])) }
                4 => { let r = self.ex(i, d); S::Ex(E::Prim("array_prepend", vec![e, r])) }
                5 if self.r.pct(40) => { let v = self.nv(); S::Let { m: false, v, ann: None, e: E::Prim(if self.r.pct(50) { "array_pop_back" } else { "array_pop_front" }, vec![e]) } }
                6 if **i == T::Int => S::Ex(E::Prim("sort", vec![e])),
                7 => S::Ex(E::Prim("reverse", vec![e])),
                _ => { let r = self.ex(t, d); S::Assign(e, r) }
            },
            _ => { let r = self.ex(t, d); S::Assign(e, r) }
        };
        for (v, m) in self.scope.iter_mut().zip(was) { v.m = m }
        Some(s)
    }
    // ---- calls
    fn call(&mut self, kind: Option<Kind>, ret: Option<&T>, d: u32) -> Option<(E, T)> {
        let fs: Vec<usize> = (0..self.kinds.len()).filter(|i| kind.is_none_or(|k| self.kinds[*i] == k) && ret.is_none_or(|t| self.p.funs[*i].ret == *t)).collect();
        if fs.is_empty() || self.frozen { return None }
        let f = self.p.funs[*self.r.pick(&fs)].clone();
        let mut spots: Vec<Option<E>> = vec![];
        for (_, t, m) in &f.params {
            if *m != PM::Inout { spots.push(None); continue }
            let mut ps = self.paths(Some(t), true);
            ps.retain(|(p, _)| spots.iter().flatten().all(|q| root(p) != root(q) || disjoint(p, q)));
            let named = |p: &E| matches!(p, E::Fld(..));
            if spots.iter().flatten().any(|q| named(q)) { ps.retain(|p| !named(&p.0)) }
            if ps.is_empty() { return None }
            spots.push(Some(self.r.pick(&ps).0.clone()));
        }
        let roots: Vec<u32> = spots.iter().flatten().map(|p| root(p).unwrap()).collect();
        // An index in an in-out place has to stay what it is.
        let mut es = vec![];
        let inout = !roots.is_empty();
        let hidden = self.hide.clone();
        let was = self.frozen;
        self.hide.extend(&roots);
        if inout { self.frozen = true }
        if inout {
            for (k, (_, t, _)) in f.params.iter().enumerate() {
                let e = match spots[k].take() { Some(p) => p, None => self.ex(t, d.saturating_sub(1)) };
                es.push(e);
            }
        } else {
            let ts: Vec<T> = f.params.iter().map(|p| p.1.clone()).collect();
            es = self.operands(&ts, d.saturating_sub(1).max(1));
        }
        self.frozen = was;
        self.hide = hidden;
        Some((E::Call(f.id, es), f.ret.clone()))
    }
    // ---- expressions
    /// Operands of one expression, later ones drawn to what earlier ones looked at.
    fn operands(&mut self, ts: &[T], d: u32) -> Vec<E> {
        let was = self.focus;
        let mut es = vec![];
        for t in ts {
            let e = if es.is_empty() && self.r.pct(50) { match self.place(Some(t), false) { Some((e, _)) => e, None => self.ex(t, d) } }
                else if self.focus.is_some() && d > 0 && self.r.pct(45) { self.changed(t, d) }
                else { self.ex(t, d) };
            if let Some(r) = root(&e) { self.focus = Some(r) }
            es.push(e);
        }
        self.focus = was;
        es
    }
    fn changed(&mut self, t: &T, d: u32) -> E {
        if let Some(s) = self.change_or_call(d - 1) { let e = match self.place(Some(t), false) { Some((e, _)) => e, None => self.lit(t, 0) }; return E::Blk(vec![s], bx(e)) }
        self.ex(t, d)
    }
    fn lit(&mut self, t: &T, d: u32) -> E {
        match t {
            T::Int => int(self.r.range(0, 9)),
            T::Str => E::Str(self.r.pick(&["", "a", "bc", "d"]).to_string()),
            T::Bool => E::Bool(self.r.pct(50)),
            T::Tup(v) => E::Tup(self.operands(v, d)),
            T::Rec(v) => { let ts: Vec<T> = v.iter().map(|x| x.1.clone()).collect(); let es = self.operands(&ts, d); E::Rec(v.iter().map(|x| x.0.clone()).zip(es).collect()) }
            T::Arr(t) => { let n = 2 + self.r.below(3); let ts = vec![(**t).clone(); n]; E::Arr(self.operands(&ts, d)) }
            T::Adt(i, _) => { let fs = self.fields(t); let ts: Vec<T> = fs.iter().map(|x| x.1.clone()).collect(); E::Ctor(*i, 0, self.operands(&ts, d)) }
            _ => E::Unit,
        }
    }
    fn ex(&mut self, t: &T, d: u32) -> E {
        self.budget -= 1;
        if d == 0 || self.budget < 0 { return match self.place(Some(t), false) { Some((e, _)) if self.r.pct(80) => e, _ => self.lit(t, 0) } }
        let k = self.r.below(20);
        match k {
            // A change, then a look at the result.
            0..=3 => if let Some(s) = self.change_or_call(d - 1) { if let Some((e, _)) = self.place(Some(t), false) { return E::Blk(vec![s], bx(e)) } },
            4..=6 => if let Some((e, _)) = self.call(None, Some(t), d) { return e },
            7 => { let mut v = self.operands(&[T::Int, T::Int], d - 1); let b = v.pop().unwrap(); let c = bin(*self.r.pick(&["<", ">=", "=="]), v.pop().unwrap(), b); let (a, b) = (self.ex(t, d - 1), self.ex(t, d - 1)); return E::If(bx(c), bx(a), bx(b)) }
            8..=11 => if *t == T::Int { let mut v = self.operands(&[T::Int, T::Int], d - 1); let b = v.pop().unwrap(); return bin(*self.r.pick(&["+", "-", "*", "+"]), v.pop().unwrap(), b) },
            12 => if let (T::Int, Some((e, _))) = (t, self.place(Some(&T::arr(T::Int)), false)) { return E::Prim("len", vec![e]) },
            13 => return E::Fld(bx(E::Tup(vec![self.ex(t, d - 1), self.ex(&T::Int, d - 1)])), "0".into()),
            14 | 15 => if *t == T::Int { let fs: Vec<(u32, T)> = self.lams.clone(); if !fs.is_empty() { let (v, a) = self.r.pick(&fs).clone(); let x = self.ex(&a, d - 1); return E::CallV(bx(E::Var(v)), vec![x]) } }
            _ => {}
        }
        match self.place(Some(t), false) { Some((e, _)) if self.r.pct(70) => e, _ => self.lit(t, d - 1) }
    }
    fn change_or_call(&mut self, d: u32) -> Option<S> {
        if self.r.pct(60) { if let Some((e, t)) = self.call(Some(Kind::Mutate), None, d) { return Some(if t == T::Unit { S::Ex(e) } else { let v = self.nv(); S::Let { m: false, v, ann: None, e } }) } }
        self.change(d)
    }
    // ---- statements
    fn stmts(&mut self, n: usize, d: u32, ss: &mut Vec<S>) { for _ in 0..n { self.stmt(d, ss) } }
    fn inner(&mut self, n: usize, d: u32) -> Vec<S> { let k = self.scope.len(); let l = self.lams.len(); let mut ss = vec![]; self.stmts(n, d, &mut ss); self.scope.truncate(k); self.lams.truncate(l); ss }
    fn stmt(&mut self, d: u32, ss: &mut Vec<S>) {
        self.budget = 7;
        match self.r.below(20) {
            0..=3 => { let t = match self.place(None, false) { Some((_, t)) if self.r.pct(60) => t, _ => self.ty() }; let e = self.ex(&t, 2); let m = self.r.pct(45); let k = self.known(&e); let v = self.bind(&t, m); self.scope.last_mut().unwrap().k = k; ss.push(S::Let { m, v, ann: if matches!(t, T::Arr(_)) { Some(t) } else { None }, e }) }
            4..=9 => if let Some(s) = self.change_or_call(2) { ss.push(s) },
            10..=12 => if let Some((e, t)) = self.call(None, None, 3) { if t == T::Unit { ss.push(S::Ex(e)) } else { let v = self.bind(&t, false); ss.push(S::Let { m: false, v, ann: None, e }) } },
            13 if self.r.pct(60) => { let e = self.ex(&T::Int, 2); ss.push(S::Ex(E::Prim("host::emit", vec![e]))) }
            13 | 14 if d > 0 => { let c = bin(*self.r.pick(&["<", ">", "!="]), self.ex(&T::Int, 1), self.ex(&T::Int, 1)); let a = self.inner(2, d - 1); let b = if self.r.pct(50) { Some(self.inner(1, d - 1)) } else { None }; ss.push(S::If(c, a, b)) }
            15 if self.nest == 0 => {
                // A closure over the current values; they change before it is called.
                let t = if self.r.pct(60) { T::Int } else { self.ty() };
                let k = self.scope.len();
                let x = self.bind(&t, false);
                let mut e = self.read_int();
                for _ in 0..2 { let y = self.read_int(); e = bin("+", bin("*", e, int(2)), y) }
                self.scope.truncate(k);
                let v = self.nv();
                ss.push(S::Let { m: false, v, ann: Some(T::Fun(vec![t.clone()], Box::new(T::Int))), e: E::Lam(vec![x], Rc::new(e)) });
                self.lams.push((v, t));
            }
            16 | 17 | 18 if d > 0 && self.nest < 2 => self.looped(d, ss),
            _ => { let e = self.ex(&T::Int, 2); let s = self.accumulate(e); ss.push(s) }
        }
    }
    fn accumulate(&mut self, e: E) -> S {
        let vs: Vec<u32> = self.scope.iter().filter(|v| v.m && v.t == T::Int).map(|v| v.id).collect();
        if vs.is_empty() { return S::Ex(E::Prim("host::emit", vec![e])) }
        let v = *self.r.pick(&vs);
        S::Assign(E::Var(v), bin("+", E::Var(v), e))
    }
    fn looped(&mut self, d: u32, ss: &mut Vec<S>) {
        self.nest += 1;
        let k = self.scope.len();
        let n = 2 + self.r.below(3);
        let arr = if self.arrays && self.r.pct(35) { self.place(Some(&T::arr(T::Int)), false) } else { None };
        let (src, i) = match arr {
            // The loop runs over a snapshot, whatever the body does to the array.
            Some((e, _)) => (Src::Arr(e), self.bind(&T::Int, false)),
            None => { let hi = int(self.r.range(2, 4)); (Src::Range(int(0), hi, false), self.bind(&T::Int, false)) }
        };
        let mut b = vec![];
        // An invariant-looking computation before the changes.
        if self.r.pct(60) { self.budget = 3; let x = self.read_int(); let y = self.read_int(); let e = bin(*self.r.pick(&["*", "+"]), x, y); let s = self.accumulate(e); b.push(s) }
        if self.r.pct(40) { self.budget = 3; if let Some((e, t)) = self.call(Some(Kind::Read), None, 1) { let v = self.bind(&t, false); b.push(S::Let { m: false, v, ann: None, e }) } }
        self.stmts(n, d - 1, &mut b);
        if self.r.pct(50) { self.budget = 3; if let Some(s) = self.change_or_call(1) { b.push(s) } }
        self.scope.truncate(k);
        self.nest -= 1;
        ss.push(S::For(i, Box::new(Pipe { src, stages: vec![], sink: Sink::Iter }), b));
    }
    fn locals(&mut self, n: usize, ss: &mut Vec<S>) {
        for _ in 0..n {
            let t = self.ty();
            self.budget = 6;
            let f = std::mem::replace(&mut self.frozen, true);
            let e = if self.r.pct(30) { self.ex(&t, 1) } else { self.lit(&t, 1) };
            self.frozen = f;
            let k = self.known(&e);
            let v = self.bind(&t, true);
            self.scope.last_mut().unwrap().k = k;
            ss.push(S::Let { m: true, v, ann: if matches!(t, T::Arr(_)) { Some(t) } else { None }, e });
        }
    }
    fn result(&mut self) -> (E, T) {
        let vs: Vec<Var> = self.scope.iter().rev().filter(|v| !matches!(v.t, T::Unit)).take(5).cloned().collect();
        let mut es: Vec<E> = vs.iter().map(|v| E::Var(v.id)).collect();
        let mut ts: Vec<T> = vs.iter().map(|v| v.t.clone()).collect();
        while es.len() < 2 { es.push(int(0)); ts.push(T::Int) }
        (E::Tup(es), T::Tup(ts))
    }
    fn body_fun(&mut self) {
        self.scope.clear();
        self.lams.clear();
        let mut params = vec![];
        for _ in 0..1 + self.r.below(2) { let t = self.ty(); let m = *self.r.pick(&[PM::Val, PM::MutVal, PM::Inout]); let v = self.bind(&t, m != PM::Val); params.push((v, t, m)) }
        let mut ss = vec![];
        let n = 1 + self.r.below(2);
        self.locals(n, &mut ss);
        let v = self.bind(&T::Int, true);
        ss.push(S::Let { m: true, v, ann: None, e: int(0) });
        let n = 3 + self.r.below(4);
        self.stmts(n, 2, &mut ss);
        let (e, ret) = self.result();
        let id = self.p.funs.len() as u32;
        let ann = params.iter().map(|_| true).collect();
        self.p.funs.push(Fun { id, generics: 0, bounds: vec![], params, ann, ret, ret_ann: true, body: E::Blk(ss, bx(e)) });
    }
    fn main(&mut self) {
        self.scope.clear();
        self.lams.clear();
        let mut ss = vec![];
        let n = 2 + self.r.below(2);
        self.locals(n, &mut ss);
        let mut fin = vec![];
        for f in self.p.funs.clone().iter().skip(self.kinds.len()) {
            let mut es = vec![];
            for (_, t, m) in &f.params {
                if *m == PM::Inout {
                    let e = self.lit(t, 0);
                    let v = self.nv();
                    ss.push(S::Let { m: true, v, ann: if matches!(t, T::Arr(_)) { Some(t.clone()) } else { None }, e });
                    fin.push(E::Var(v));
                    es.push(E::Var(v));
                } else { let f = std::mem::replace(&mut self.frozen, true); es.push(self.lit(t, 1)); self.frozen = f }
            }
            let v = self.nv();
            ss.push(S::Let { m: false, v, ann: None, e: E::Call(f.id, es) });
            fin.push(E::Var(v));
        }
        let n = 2 + self.r.below(4);
        self.stmts(n, 1, &mut ss);
        let (e, _) = self.result();
        fin.push(e);
        if fin.len() == 1 { fin.push(int(0)) }
        self.p.main = ss;
        self.p.fin = Some(E::Tup(fin));
    }
}
