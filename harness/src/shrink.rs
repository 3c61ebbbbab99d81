//! Structural reduction of generated programs.
use crate::lang::*;
use std::rc::Rc;

/// Visits every expression and every statement list below, in order.
pub trait Vis { fn e(&mut self, _: &mut E) {} fn ss(&mut self, _: &mut Vec<S>) {} }
pub fn walk_e(e: &mut E, v: &mut dyn Vis) {
    v.e(e);
    match e {
        E::Ann(x, _) | E::Neg(x) | E::Not(x) | E::Some(x) | E::Fld(x, _) | E::Cast(x, _) | E::Ret(x) => walk_e(x, v),
        E::Bin(_, a, b) | E::Idx(a, b) => { walk_e(a, v); walk_e(b, v) }
        E::If(a, b, c) => { walk_e(a, v); walk_e(b, v); walk_e(c, v) }
        E::Blk(s, x) => { walk_ss(s, v); walk_e(x, v) }
        E::Tup(l) | E::Arr(l) | E::Ctor(_, _, l) | E::Call(_, l) | E::Method(_, _, _, l) | E::Prim(_, l) => l.iter_mut().for_each(|x| walk_e(x, v)),
        E::Rec(l) => l.iter_mut().for_each(|x| walk_e(&mut x.1, v)),
        E::CallV(f, l) => { walk_e(f, v); l.iter_mut().for_each(|x| walk_e(x, v)) }
        E::Lam(_, b) => { let mut x = (**b).clone(); walk_e(&mut x, v); *b = Rc::new(x) }
        E::Pipe(p) => walk_p(p, v),
        E::Match(x, a) => { walk_e(x, v); a.iter_mut().for_each(|x| walk_e(&mut x.1, v)) }
        E::Loop(_, s) => walk_ss(s, v),
        E::Brk(_, Some(x)) => walk_e(x, v),
        _ => {}
    }
}
fn walk_src(s: &mut Src, v: &mut dyn Vis) { match s { Src::Range(a, b, _) => { walk_e(a, v); walk_e(b, v) } Src::Arr(a) => walk_e(a, v), Src::Zip(a, b) | Src::Chain(a, b) => { walk_src(a, v); walk_src(b, v) } } }
pub fn walk_p(p: &mut Pipe, v: &mut dyn Vis) {
    walk_src(&mut p.src, v);
    for s in &mut p.stages { match s { Stage::Map(x) | Stage::Filter(x) | Stage::FilterMap(x) | Stage::Take(x) | Stage::Skip(x) => walk_e(x, v), Stage::Enumerate => {} } }
    match &mut p.sink { Sink::Fold(a, b) => { walk_e(a, v); walk_e(b, v) } Sink::Any(a) | Sink::All(a) | Sink::Find(a) | Sink::Position(a) => walk_e(a, v), _ => {} }
}
pub fn walk_ss(l: &mut Vec<S>, v: &mut dyn Vis) {
    v.ss(l);
    for s in l {
        match s {
            S::Let { e, .. } | S::LetTup(_, e) | S::LetRec(_, e) | S::Ex(e) => walk_e(e, v),
            S::LetIter(_, p) => walk_p(p, v),
            S::Assign(a, b) | S::Op(_, a, b) => { walk_e(a, v); walk_e(b, v) }
            S::For(_, p, b) => { walk_p(p, v); walk_ss(b, v) }
            S::If(c, a, b) => { walk_e(c, v); walk_ss(a, v); if let Some(b) = b { walk_ss(b, v) } }
        }
    }
}
pub fn walk(p: &mut Prog, v: &mut dyn Vis) {
    for t in &mut p.traits { for i in &mut t.impls { for b in &mut i.bodies { walk_e(&mut b.1, v) } } }
    for f in &mut p.funs { walk_e(&mut f.body, v) }
    walk_ss(&mut p.main, v);
    if let Some(e) = &mut p.fin { walk_e(e, v) }
}
fn subs(e: &E) -> Vec<E> {
    let mut o = vec![];
    match e {
        E::Ann(x, _) | E::Neg(x) | E::Not(x) | E::Some(x) | E::Fld(x, _) | E::Cast(x, _) | E::Ret(x) => o.push((**x).clone()),
        E::Bin(_, a, b) | E::Idx(a, b) => { o.push((**a).clone()); o.push((**b).clone()) }
        E::If(a, b, c) => for x in [a, b, c] { o.push((**x).clone()) },
        E::Blk(_, x) => o.push((**x).clone()),
        E::Tup(l) | E::Arr(l) | E::Ctor(_, _, l) | E::Call(_, l) | E::Method(_, _, _, l) | E::Prim(_, l) => {
            o.extend(l.iter().cloned());
            if matches!(e, E::Tup(_) | E::Arr(_)) && l.len() > 1 { for i in 0..l.len() { let mut m = l.clone(); m.remove(i); o.push(if matches!(e, E::Tup(_)) { if m.len() < 2 { continue } E::Tup(m) } else { E::Arr(m) }) } }
        }
        E::Match(x, a) => { o.push((**x).clone()); o.extend(a.iter().map(|x| x.1.clone())) }
        _ => {}
    }
    if !matches!(e, E::Int(_) | E::Bool(_) | E::Str(_) | E::Unit | E::Var(_) | E::Flt(_)) { o.extend([E::Int(0), E::Int(1), E::Bool(true), E::Bool(false), E::Str("a".into()), E::Unit, E::Flt(1.5)]) }
    o
}
struct Edit { k: usize, t: usize, n: usize, hit: bool, more: bool, stmts: bool }
impl Vis for Edit {
    fn e(&mut self, e: &mut E) {
        if self.stmts { return }
        if self.n == self.k { let c = subs(e); self.hit = true; if let Some(x) = c.get(self.t) { *e = x.clone(); self.more = true } }
        self.n += 1;
    }
    fn ss(&mut self, l: &mut Vec<S>) {
        if !self.stmts { return }
        if self.n == self.k {
            self.hit = true;
            if self.t < l.len() { self.more = true; l.remove(self.t); }
            else if self.t < 2 * l.len() {
                self.more = true;
                let i = self.t - l.len();
                if let S::If(_, a, b) = l[i].clone() { let b = b.unwrap_or_default(); l.splice(i..=i, a.into_iter().chain(b)); }
                else if let S::For(_, _, b) = l[i].clone() { l.splice(i..=i, b); }
                else if let S::Ex(E::Loop(_, b)) = l[i].clone() { l.splice(i..=i, b); }
                else { l.remove(i); }
            }
        }
        self.n += 1;
    }
}
pub fn shrink(p: &Prog, bad: &mut dyn FnMut(&Prog) -> bool, secs: u64) -> Prog {
    let t0 = std::time::Instant::now();
    let mut p = p.clone();
    loop {
        let mut changed = false;
        let mut i = p.funs.len();
        while i > 0 { i -= 1; let mut q = p.clone(); q.funs.remove(i); if bad(&q) { p = q; changed = true } }
        if !p.traits.is_empty() { let mut q = p.clone(); q.traits.clear(); if bad(&q) { p = q; changed = true } }
        for stmts in [true, false] {
            let mut k = 0;
            'k: loop {
                let mut t = 0;
                loop {
                    if t0.elapsed().as_secs() > secs { return p }
                    let mut q = p.clone();
                    let mut ed = Edit { k, t, n: 0, hit: false, more: false, stmts };
                    walk(&mut q, &mut ed);
                    if !ed.hit { break 'k }
                    if !ed.more { break }
                    if bad(&q) { p = q; changed = true; t = 0 } else { t += 1 }
                }
                k += 1;
            }
        }
        if !changed { return p }
    }
}
