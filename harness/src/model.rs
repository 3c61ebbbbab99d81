//! Reference semantics of the generated programs: a direct, by-value tree walker written from the
//! language's documentation, sharing nothing with the compiler.
use crate::host::{CELLS, Ev};
use crate::lang::*;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    Unit, Int(i64), Flt(f64), Bool(bool), Str(Rc<str>),
    Tup(Vec<V>),
    Rec(Vec<V>),
    Arr(Vec<V>),
    Some(Box<V>), None,
    /// Type, variant, fields.
    Adt(usize, usize, Vec<V>),
    Clo(Rc<Clo>),
    Fn(u32),
    Tok(i64),
}
#[derive(Debug)]
pub struct Clo { ps: Vec<u32>, body: Rc<E>, env: Vec<(u32, V)> }
#[derive(Debug, Clone)]
pub enum Ctl { Fail(String), Brk(Option<u32>, V), Cont(Option<u32>), Ret(V), Fuel, Unmodeled(&'static str) }
type Rs<X> = Result<X, Ctl>;

pub fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Unit, V::Unit) | (V::None, V::None) => true,
        (V::Int(x), V::Int(y)) => x == y,
        (V::Flt(x), V::Flt(y)) => x == y,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Str(x), V::Str(y)) => x == y,
        (V::Tup(x), V::Tup(y)) | (V::Rec(x), V::Rec(y)) | (V::Arr(x), V::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eq(p, q)),
        (V::Some(x), V::Some(y)) => eq(x, y),
        (V::Adt(_, i, x), V::Adt(_, j, y)) => i == j && x.iter().zip(y).all(|(p, q)| eq(p, q)),
        _ => false,
    }
}
fn fields(v: &[V], s: &mut String) { s.push('('); for (i, x) in v.iter().enumerate() { if i > 0 { s.push_str(", ") } show(x, s) } s.push(')') }
/// Same layout as `run::render`.
pub fn show(v: &V, s: &mut String) {
    match v {
        V::Unit => s.push_str("()"),
        V::Int(i) => s.push_str(&i.to_string()),
        V::Flt(f) => s.push_str(&crate::run::fmt_float(*f)),
        V::Bool(b) => s.push_str(&b.to_string()),
        V::Str(t) => s.push_str(&format!("{:?}", t)),
        V::Tup(v) | V::Rec(v) => fields(v, s),
        V::Arr(v) => { s.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { s.push_str(", ") } show(x, s) } s.push(']') }
        V::None => s.push_str("None"),
        V::Some(x) => { s.push_str("Some "); fields(std::slice::from_ref(x), s) }
        V::Adt(a, k, v) => TAGS.with(|t| match &t.borrow()[*a][*k] {
            Some(tag) => { s.push_str(tag); if !v.is_empty() { s.push(' '); fields(v, s) } }
            None => fields(v, s),
        }),
        V::Clo(_) | V::Fn(_) => s.push_str("<function>"),
        V::Tok(_) => s.push_str("<tok>"),
    }
}
thread_local! { pub static TAGS: std::cell::RefCell<Vec<Vec<Option<String>>>> = const { std::cell::RefCell::new(Vec::new()) }; }

pub struct M<'a> {
    p: &'a Prog,
    pub log: Vec<Ev>,
    pub cells: [isize; 4],
    fuel: u64,
    depth: u32,
    pub loops: u64,
    pub calls: u64,
    pub toks: i64,
    /// Control left the construction of an aggregate.
    agg: bool,
}
struct Fr { v: Vec<Option<V>>, it: Vec<(u32, It)> }
type Path = (u32, Vec<St>);
#[derive(Clone, Debug)]
enum St { F(usize), I(usize) }

/// A lazily advanced iterator.
enum It {
    Range(i64, i64, i64, bool), // start, end, next, inclusive
    Arr(Vec<V>, usize),
    Zip(Box<It>, Box<It>),
    Chain(Box<It>, Box<It>, Cell<bool>),
    Map(Box<It>, V), Filter(Box<It>, V), FilterMap(Box<It>, V),
    Take(Box<It>, i64), Skip(Box<It>, i64), Enum(Box<It>, i64),
}

pub struct Outcome { pub res: Result<V, Ctl>, pub log: Vec<Ev>, pub cells: [isize; 4], pub steps: u64, pub loops: u64, pub calls: u64, pub agg: bool }
pub fn run(p: &Prog, fuel: u64) -> Outcome {
    TAGS.with(|t| *t.borrow_mut() = p.adts.iter().map(|a| a.variants.iter().map(|v| a.is_enum.then(|| v.name.clone())).collect()).collect());
    let mut m = M { p, log: vec![], cells: CELLS, fuel, depth: 0, loops: 0, calls: 0, toks: 0, agg: false };
    let mut f = Fr { v: vec![None; p.nvars as usize + 1], it: vec![] };
    let mut go = || -> Rs<V> {
        for s in &p.main { m.s(s, &mut f)?; }
        m.e(p.fin.as_ref().unwrap(), &mut f)
    };
    let res = crate::run::guarded(&mut go).unwrap_or_else(|x| { eprintln!("model gave up: {x}"); Err(Ctl::Unmodeled("model gave up")) });
    let res = match res { Err(Ctl::Ret(v)) => Ok(v), r => r };
    Outcome { res, log: m.log, cells: m.cells, steps: fuel - m.fuel, loops: m.loops, calls: m.calls, agg: m.agg }
}
fn oob(i: i64, n: usize) -> Ctl { Ctl::Fail(format!("Aborted(Some({:?}))", format!("Array access out of bounds: index {i} for length {n}"))) }
fn big(f: f64) -> Rs<V> {
    if !f.is_finite() || f.abs() > 1e15 || (f == 0.0 && f.is_sign_negative()) { return Err(Ctl::Unmodeled("float")) }
    Ok(V::Flt(f))
}
fn int(v: &V) -> i64 { match v { V::Int(i) => *i, _ => panic!("model: not an int {v:?}") } }
fn b(v: &V) -> bool { match v { V::Bool(i) => *i, _ => panic!("model: not a bool {v:?}") } }
fn st(v: &V) -> Rc<str> { match v { V::Str(i) => i.clone(), _ => panic!("model: not a string {v:?}") } }
fn arr(v: V) -> Vec<V> { match v { V::Arr(i) => i, _ => panic!("model: not an array {v:?}") } }
fn opt(o: Option<V>) -> V { match o { Some(v) => V::Some(Box::new(v)), None => V::None } }
pub fn cmp(a: &V, b: &V) -> std::cmp::Ordering {
    match (a, b) {
        (V::Int(x), V::Int(y)) => x.cmp(y),
        (V::Flt(x), V::Flt(y)) => x.partial_cmp(y).unwrap(),
        (V::Str(x), V::Str(y)) => x.cmp(y),
        (V::Bool(x), V::Bool(y)) => x.cmp(y),
        _ => panic!("model: not ordered {a:?} {b:?}"),
    }
}
impl<'a> M<'a> {
    fn tick(&mut self) -> Rs<()> { if self.fuel == 0 { return Err(Ctl::Fuel) } self.fuel -= 1; Ok(()) }
    fn fld(&self, v: &V, n: &str) -> usize {
        if let Ok(i) = n.parse::<usize>() { return i }
        match v {
            V::Adt(a, k, _) => self.p.adts[*a].variants[*k].fields.iter().position(|f| f.0 == n).unwrap(),
            // Record field names are single letters from 'a' on, in order of position.
            _ => (n.as_bytes()[0] - b'a') as usize,
        }
    }
    fn lookup<'f>(&self, f: &'f Fr, v: u32) -> &'f V { f.v[v as usize].as_ref().unwrap_or_else(|| panic!("model: unbound v{v}")) }
    fn place(&mut self, e: &E, f: &mut Fr) -> Rs<Path> {
        self.tick()?;
        match e {
            E::Var(v) => Ok((*v, vec![])),
            E::Fld(x, n) => {
                let mut p = self.place(x, f)?;
                let i = self.fld(self.get(&p, f)?, n);
                p.1.push(St::F(i));
                Ok(p)
            }
            E::Idx(a, i) => {
                let mut p = self.place(a, f)?;
                let i = int(&self.e(i, f)?);
                let n = match self.get(&p, f)? { V::Arr(v) => v.len(), _ => panic!("model: index of non-array") };
                let k = if i < 0 { i.wrapping_add(n as i64) } else { i };
                if k < 0 || k >= n as i64 { return Err(oob(i, n)) }
                p.1.push(St::I(k as usize));
                Ok(p)
            }
            _ => panic!("model: not a place {e:?}"),
        }
    }
    fn get<'f>(&self, p: &Path, f: &'f Fr) -> Rs<&'f V> {
        let mut v = self.lookup(f, p.0);
        for s in &p.1 {
            v = match (s, v) { (St::F(i), V::Tup(x) | V::Rec(x) | V::Adt(_, _, x)) => &x[*i], (St::I(i), V::Arr(x)) => x.get(*i).ok_or(Ctl::Unmodeled("place vanished"))?, _ => return Err(Ctl::Unmodeled("place changed")) };
        }
        Ok(v)
    }
    fn get_mut<'f>(&self, p: &Path, f: &'f mut Fr) -> Rs<&'f mut V> {
        let mut v = f.v[p.0 as usize].as_mut().unwrap();
        for s in &p.1 {
            v = match (s, v) {
                (St::F(i), V::Tup(x) | V::Rec(x) | V::Adt(_, _, x)) => &mut x[*i],
                (St::I(i), V::Arr(x)) => x.get_mut(*i).ok_or(Ctl::Unmodeled("place vanished"))?,
                _ => return Err(Ctl::Unmodeled("place changed")),
            };
        }
        Ok(v)
    }
    /// Evaluate arguments left to right; the places of the in-out ones are kept.
    fn call(&mut self, fun: &'a Fun, args: &[E], f: &mut Fr) -> Rs<V> {
        let modes: Vec<PM> = fun.params.iter().map(|p| p.2).collect();
        let ids: Vec<u32> = fun.params.iter().map(|p| p.0).collect();
        self.call_body(&ids, &modes, &fun.body, args, f)
    }
    fn call_body(&mut self, ids: &[u32], modes: &[PM], body: &E, args: &[E], f: &mut Fr) -> Rs<V> {
        let mut vals = vec![];
        let mut back = vec![];
        for ((a, m), id) in args.iter().zip(modes).zip(ids) {
            if *m == PM::Inout {
                let p = self.place(a, f)?;
                vals.push(self.get(&p, f)?.clone());
                back.push((*id, p));
            } else { vals.push(self.e(a, f)?) }
        }
        let mut n = self.frame();
        for (id, v) in ids.iter().zip(vals) { n.v[*id as usize] = Some(v) }
        let r = self.enter(body, &mut n)?;
        for (id, p) in back { *self.get_mut(&p, f)? = n.v[id as usize].take().unwrap() }
        Ok(r)
    }
    fn left<X>(&mut self, r: Rs<X>) -> Rs<X> { if r.is_err() { self.agg = true } r }
    fn build(&mut self, v: &[E], f: &mut Fr) -> Rs<Vec<V>> { let r = self.es(v, f); if let Ok(vs) = &r { let mut n = 2000; for v in vs { if !small(v, &mut n) { return Err(Ctl::Fuel) } } } self.left(r) }
    fn frame(&self) -> Fr { Fr { v: vec![None; self.p.nvars as usize + 1], it: vec![] } }
    fn enter(&mut self, body: &E, n: &mut Fr) -> Rs<V> {
        self.calls += 1;
        self.depth += 1;
        if self.depth > 60 { self.depth -= 1; return Err(Ctl::Fuel) }
        let r = self.e(body, n);
        self.depth -= 1;
        match r { Err(Ctl::Ret(v)) => Ok(v), r => r }
    }
    fn apply(&mut self, fv: &V, args: Vec<V>) -> Rs<V> {
        self.tick()?;
        match fv {
            V::Fn(id) => {
                let fun = &self.p.funs[*id as usize];
                let mut n = self.frame();
                for (p, v) in fun.params.iter().zip(args) { n.v[p.0 as usize] = Some(v) }
                self.enter(&fun.body, &mut n)
            }
            V::Clo(c) => {
                let mut n = self.frame();
                for (v, x) in &c.env { n.v[*v as usize] = Some(x.clone()) }
                for (p, v) in c.ps.iter().zip(args) { n.v[*p as usize] = Some(v) }
                let body = c.body.clone();
                self.enter(&body, &mut n)
            }
            _ => panic!("model: not callable"),
        }
    }
    fn src(&mut self, s: &Src, f: &mut Fr) -> Rs<It> {
        Ok(match s {
            Src::Range(a, e, inc) => { let a = int(&self.e(a, f)?); let e = int(&self.e(e, f)?); It::Range(a, e, a, *inc) }
            Src::Arr(a) => It::Arr(arr(self.e(a, f)?), 0),
            Src::Zip(a, b) => { let a = self.src(a, f)?; let b = self.src(b, f)?; It::Zip(Box::new(a), Box::new(b)) }
            Src::Chain(a, b) => { let a = self.src(a, f)?; let b = self.src(b, f)?; It::Chain(Box::new(a), Box::new(b), Cell::new(false)) }
        })
    }
    fn iter(&mut self, p: &Pipe, f: &mut Fr) -> Rs<It> {
        let mut it = self.src(&p.src, f)?;
        for s in &p.stages {
            it = match s {
                Stage::Map(x) => It::Map(Box::new(it), self.e(x, f)?),
                Stage::Filter(x) => It::Filter(Box::new(it), self.e(x, f)?),
                Stage::FilterMap(x) => It::FilterMap(Box::new(it), self.e(x, f)?),
                Stage::Take(x) => It::Take(Box::new(it), int(&self.e(x, f)?)),
                Stage::Skip(x) => It::Skip(Box::new(it), int(&self.e(x, f)?)),
                Stage::Enumerate => It::Enum(Box::new(it), 0),
            };
        }
        Ok(it)
    }
    fn next(&mut self, it: &mut It) -> Rs<Option<V>> {
        self.tick()?;
        Ok(match it {
            It::Range(a, e, n, inc) => {
                let k = *n;
                let more = if *e >= *a { if *inc { k <= *e } else { k < *e } } else if *inc { k >= *e } else { k > *e };
                if more {
                    if k == i64::MAX || k == i64::MIN { return Err(Ctl::Unmodeled("range at the edge")) }
                    *n = if *e >= *a { k + 1 } else { k - 1 };
                    Some(V::Int(k))
                } else { None }
            }
            It::Arr(v, i) => { let x = v.get(*i).cloned(); *i += 1; x }
            It::Zip(a, b) => match self.next(a)? { None => None, Some(x) => self.next(b)?.map(|y| V::Tup(vec![x, y])) },
            It::Chain(a, b, done) => {
                if !done.get() { if let Some(x) = self.next(a)? { return Ok(Some(x)) } done.set(true); }
                self.next(b)?
            }
            It::Map(i, g) => match self.next(i)? { None => None, Some(x) => Some(self.apply(&g.clone(), vec![x])?) },
            It::Filter(i, g) => loop { match self.next(i)? { None => break None, Some(x) => if b(&self.apply(&g.clone(), vec![x.clone()])?) { break Some(x) } } },
            It::FilterMap(i, g) => loop { match self.next(i)? { None => break None, Some(x) => if let V::Some(y) = self.apply(&g.clone(), vec![x])? { break Some(*y) } } },
            It::Take(i, n) => if *n <= 0 { None } else { let x = self.next(i)?; if x.is_some() { *n -= 1 } x },
            It::Skip(i, n) => loop { match self.next(i)? { None => break None, Some(x) => if *n > 0 { *n -= 1 } else { break Some(x) } } },
            It::Enum(i, n) => match self.next(i)? { None => None, Some(x) => { let k = *n; *n += 1; Some(V::Tup(vec![V::Int(k), x])) } },
        })
    }
    fn pipe(&mut self, p: &Pipe, f: &mut Fr) -> Rs<V> {
        let mut it = self.iter(p, f)?;
        match &p.sink {
            Sink::Iter => Err(Ctl::Unmodeled("bare iterator")),
            Sink::Collect(_) => { let mut v = vec![]; loop { let x = self.next(&mut it); match self.left(x)? { Some(x) => v.push(x), None => break } } Ok(V::Arr(v)) }
            Sink::Fold(i, g) => {
                let mut acc = self.e(i, f)?;
                let g = self.e(g, f)?;
                while let Some(x) = self.next(&mut it)? { acc = self.apply(&g, vec![acc, x])? }
                Ok(acc)
            }
            Sink::Sum => { let mut s = 0i64; while let Some(x) = self.next(&mut it)? { s = s.wrapping_add(int(&x)) } Ok(V::Int(s)) }
            Sink::Count => { let mut s = 0i64; while self.next(&mut it)?.is_some() { s += 1 } Ok(V::Int(s)) }
            Sink::Min | Sink::Max => {
                let mx = matches!(p.sink, Sink::Max);
                let Some(mut best) = self.next(&mut it)? else { return Err(Ctl::Fail(format!("Aborted(Some(\"{} of empty sequence\"))", if mx { "maximum" } else { "minimum" }))) };
                while let Some(x) = self.next(&mut it)? { let o = cmp(&x, &best); if if mx { o.is_gt() } else { o.is_lt() } { best = x } }
                Ok(best)
            }
            Sink::Any(g) | Sink::All(g) => {
                let want = matches!(p.sink, Sink::Any(_));
                let g = self.e(g, f)?;
                while let Some(x) = self.next(&mut it)? { if b(&self.apply(&g, vec![x])?) == want { return Ok(V::Bool(want)) } }
                Ok(V::Bool(!want))
            }
            Sink::Find(g) => { let g = self.e(g, f)?; while let Some(x) = self.next(&mut it)? { if b(&self.apply(&g, vec![x.clone()])?) { return Ok(opt(Some(x))) } } Ok(V::None) }
            Sink::Position(g) => { let g = self.e(g, f)?; let mut i = 0; while let Some(x) = self.next(&mut it)? { if b(&self.apply(&g, vec![x])?) { return Ok(opt(Some(V::Int(i)))) } i += 1 } Ok(V::None) }
        }
    }
    fn bin(&mut self, o: &str, x: &V, y: &V) -> Rs<V> {
        Ok(match (o, x, y) {
            ("+", V::Int(a), V::Int(b)) => V::Int(a.wrapping_add(*b)),
            ("-", V::Int(a), V::Int(b)) => V::Int(a.wrapping_sub(*b)),
            ("*", V::Int(a), V::Int(b)) => V::Int(a.wrapping_mul(*b)),
            ("+", V::Flt(a), V::Flt(b)) => big(a + b)?,
            ("-", V::Flt(a), V::Flt(b)) => big(a - b)?,
            ("*", V::Flt(a), V::Flt(b)) => big(a * b)?,
            ("/", V::Flt(a), V::Flt(b)) => { if *b == 0.0 { return Err(Ctl::Fail("DivisionByZero".into())) } big(a / b)? }
            ("==", a, b) => V::Bool(eq(a, b)),
            ("!=", a, b) => V::Bool(!eq(a, b)),
            ("<", a, b) => V::Bool(cmp(a, b).is_lt()),
            ("<=", a, b) => V::Bool(cmp(a, b).is_le()),
            (">", a, b) => V::Bool(cmp(a, b).is_gt()),
            (">=", a, b) => V::Bool(cmp(a, b).is_ge()),
            _ => panic!("model: {o} on {x:?} {y:?}"),
        })
    }
    pub fn text(&self, v: &V, o: &mut String) {
        let list = |v: &[V], o: &mut String| for (i, x) in v.iter().enumerate() { if i > 0 { o.push_str(", ") } self.text(x, o) };
        match v {
            V::Unit => o.push_str("()"),
            V::Int(i) => o.push_str(&i.to_string()),
            V::Flt(i) => o.push_str(&i.to_string()),
            V::Bool(i) => o.push_str(&i.to_string()),
            V::Str(i) => o.push_str(i),
            V::Tup(v) => { o.push('('); list(v, o); o.push(')') }
            V::Rec(v) => { o.push_str("{ "); for (i, x) in v.iter().enumerate() { if i > 0 { o.push_str(", ") } o.push((b'a' + i as u8) as char); o.push_str(": "); self.text(x, o) } o.push_str(" }") }
            V::Arr(v) => { o.push('['); list(v, o); o.push(']') }
            V::None => o.push_str("None"),
            V::Some(x) => { o.push_str("Some ("); self.text(x, o); o.push(')') }
            V::Adt(a, k, v) => {
                let d = &self.p.adts[*a];
                let var = &d.variants[*k];
                o.push_str(&d.name);
                if d.is_enum { o.push_str("::"); o.push_str(&var.name) }
                if v.is_empty() { return }
                if var.rec && d.is_enum { o.push('(') } else { o.push(' ') }
                if var.rec { o.push_str("{ "); for (i, (x, (n, _))) in v.iter().zip(&var.fields).enumerate() { if i > 0 { o.push_str(", ") } o.push_str(n); o.push_str(": "); self.text(x, o) } o.push_str(if d.is_enum { " })" } else { " }" }) }
                else { o.push('('); list(v, o); o.push(')') }
            }
            V::Clo(_) | V::Fn(_) => o.push_str("<function>"),
            V::Tok(_) => o.push('P'),
        }
    }
    fn prim(&mut self, n: &str, args: &[E], f: &mut Fr) -> Rs<V> {
        // In-out primitives.
        match n {
            "array_append" | "array_prepend" | "array_pop_back" | "array_pop_front" | "reverse" | "sort" | "string_push_str" => {
                let p = self.place(&args[0], f)?;
                let x = if args.len() > 1 { Some(self.e(&args[1], f)?) } else { None };
                let v = self.get_mut(&p, f)?;
                if let V::Str(s) = v {
                    if s.len() > 2000 { return Err(Ctl::Fuel) }
                    *s = format!("{s}{}", st(&x.unwrap())).into();
                    return Ok(V::Unit)
                }
                let V::Arr(v) = v else { panic!("model: {n} on non-array") };
                return Ok(match n {
                    "array_append" => { v.push(x.unwrap()); V::Unit }
                    "array_prepend" => { v.insert(0, x.unwrap()); V::Unit }
                    "array_pop_back" => opt(v.pop()),
                    "array_pop_front" => opt(if v.is_empty() { None } else { Some(v.remove(0)) }),
                    "reverse" => { v.reverse(); V::Unit }
                    _ => { v.sort_by(cmp); V::Unit }
                })
            }
            _ => {}
        }
        let mut a = vec![];
        for x in args { a.push(self.e(x, f)?) }
        let div = |x: i64, y: i64, g: &dyn Fn(i64, i64) -> i64| -> Rs<V> { if y == 0 { Err(Ctl::Fail("DivisionByZero".into())) } else if x == i64::MIN && y == -1 { Err(Ctl::Unmodeled("division overflow")) } else { Ok(V::Int(g(x, y))) } };
        Ok(match n {
            "idiv" => div(int(&a[0]), int(&a[1]), &|x, y| x / y)?,
            "rem" => match div(int(&a[0]), int(&a[1]), &|x, y| x % y) { Err(Ctl::Fail(_)) => return Err(Ctl::Fail("RemainderByZero".into())), r => r? },
            "mod" => match div(int(&a[0]), int(&a[1]), &|x, y| x.rem_euclid(y)) { Err(Ctl::Fail(_)) => return Err(Ctl::Fail("RemainderByZero".into())), r => r? },
            "idiv_euclid" => div(int(&a[0]), int(&a[1]), &|x, y| x.div_euclid(y))?,
            "abs" => match &a[0] { V::Int(i) => if *i == i64::MIN { return Err(Ctl::Unmodeled("abs")) } else { V::Int(i.abs()) }, V::Flt(x) => V::Flt(x.abs()), _ => panic!() },
            "min" => if cmp(&a[0], &a[1]).is_lt() { a[0].clone() } else { a[1].clone() },
            "max" => if cmp(&a[0], &a[1]).is_gt() { a[0].clone() } else { a[1].clone() },
            "clamp" => {
                if cmp(&a[1], &a[2]).is_gt() { return Err(Ctl::Fail("Aborted(Some(\"min_bound must be less than or equal to max_bound\"))".into())) }
                let x = if cmp(&a[0], &a[2]).is_lt() { a[0].clone() } else { a[2].clone() };
                if cmp(&a[1], &x).is_gt() { a[1].clone() } else { x }
            }
            "bit_and" => V::Int(int(&a[0]) & int(&a[1])),
            "bit_or" => V::Int(int(&a[0]) | int(&a[1])),
            "bit_xor" => V::Int(int(&a[0]) ^ int(&a[1])),
            "bit_not" => V::Int(!int(&a[0])),
            "len" => match &a[0] { V::Arr(v) => V::Int(v.len() as i64), V::Str(s) => { if !s.is_ascii() { return Err(Ctl::Unmodeled("unicode")) } V::Int(s.len() as i64) } _ => panic!() },
            "concat" => match (a[0].clone(), a[1].clone()) { (V::Arr(mut x), V::Arr(y)) => { if x.len() + y.len() > 500 { return Err(Ctl::Fuel) } x.extend(y); V::Arr(x) } (V::Str(x), V::Str(y)) => { if x.len() + y.len() > 3000 { return Err(Ctl::Fuel) } V::Str(format!("{x}{y}").into()) }, _ => panic!() },
            "array_slice" => {
                let v = arr(a[0].clone());
                let n = v.len() as i64;
                let bound = |i: i64| { let k = if i < 0 { i.wrapping_add(n) } else { i }; if k < 0 || k > n { n } else { k } };
                let (s, e) = (bound(int(&a[1])), bound(int(&a[2])));
                V::Arr(if e > s { v[s as usize..e as usize].to_vec() } else { vec![] })
            }
            "array_peek_back" => opt(arr(a[0].clone()).last().cloned()),
            "array_peek_front" => opt(arr(a[0].clone()).first().cloned()),
            "reversed" => { let mut v = arr(a[0].clone()); v.reverse(); V::Arr(v) }
            "sorted" => { let mut v = arr(a[0].clone()); v.sort_by(cmp); V::Arr(v) }
            "contains" => V::Bool(arr(a[0].clone()).iter().any(|x| eq(x, &a[1]))),
            "is_empty" => V::Bool(match &a[0] { V::Arr(v) => v.is_empty(), V::Str(s) => s.is_empty(), _ => panic!() }),
            "join" => {
                let v = arr(a[0].clone());
                V::Str(v.iter().map(|x| st(x).to_string()).collect::<Vec<_>>().join(&st(&a[1])).into())
            }
            "map" => { let mut o = vec![]; for x in arr(a[0].clone()) { let x = self.apply(&a[1], vec![x]); o.push(self.left(x)?) } V::Arr(o) }
            "filter" => { let mut o = vec![]; for x in arr(a[0].clone()) { let k = self.apply(&a[1], vec![x.clone()]); if b(&self.left(k)?) { o.push(x) } } V::Arr(o) }
            "to_string" => { let mut s = String::new(); self.text(&a[0], &mut s); V::Str(s.into()) }
            "uppercase" => V::Str(st(&a[0]).to_uppercase().into()),
            "string_slice" => {
                let s = st(&a[0]);
                if !s.is_ascii() { return Err(Ctl::Unmodeled("unicode")) }
                let n = s.len() as i64;
                let norm = |i: i64| if i < 0 { n.wrapping_add(i).max(0) } else { i.min(n) };
                let (p, e) = (norm(int(&a[1])), norm(int(&a[2])));
                V::Str(if e <= p { "".into() } else { s[p as usize..e as usize].into() })
            }
            "panic" => return Err(Ctl::Fail(format!("Aborted(Some({:?}))", st(&a[0])))),
            "host::emit" => { self.log.push(Ev::Emit(int(&a[0]) as isize)); V::Unit }
            "host::emits" => { self.log.push(Ev::EmitS(st(&a[0]).to_string())); V::Unit }
            "host::sense" => { let k = int(&a[0]) as isize; let v = self.cells[k.rem_euclid(4) as usize]; self.log.push(Ev::Sense(k, v)); V::Int(v as i64) }
            "host::poke" => { let (k, v) = (int(&a[0]) as isize, int(&a[1]) as isize); self.cells[k.rem_euclid(4) as usize] = v; self.log.push(Ev::Poke(k, v)); V::Unit }
            "host::swap" => {
                let (k, v) = (int(&a[0]) as isize, int(&a[1]) as isize);
                let old = std::mem::replace(&mut self.cells[k.rem_euclid(4) as usize], v);
                self.log.push(Ev::Sense(k, old));
                self.log.push(Ev::Poke(k, v));
                V::Int(old as i64)
            }
            "host::trip" => { let x = int(&a[0]); if x < 0 { return Err(Ctl::Fail(format!("Aborted(Some({:?}))", format!("trip {x}")))) } V::Int(x) }
            "host::probe" => { let x = int(&a[0]); self.log.push(Ev::Trip(x as isize)); if x < 0 { return Err(Ctl::Fail(format!("Aborted(Some({:?}))", format!("probe {x}")))) } V::Int(x) }
            "mk" => V::Tok(int(&a[0])),
            "us" => match &a[0] { V::Tok(p) => V::Int(*p), _ => panic!() },
            _ => panic!("model: unknown primitive {n}"),
        })
    }
    fn free(e: &E, f: &Fr) -> Vec<(u32, V)> {
        let mut vs = std::collections::BTreeSet::new();
        vars_e(e, &mut vs);
        vs.into_iter().filter_map(|v| f.v[v as usize].clone().map(|x| (v, x))).collect()
    }
    fn e(&mut self, e: &E, f: &mut Fr) -> Rs<V> {
        self.tick()?;
        Ok(match e {
            E::Unit => V::Unit, E::Int(i) => V::Int(*i), E::Flt(i) => V::Flt(*i), E::Bool(i) => V::Bool(*i), E::Str(s) => V::Str(s.as_str().into()),
            E::Var(v) => self.lookup(f, *v).clone(),
            E::Ann(x, _) => self.e(x, f)?,
            E::Bin("and", x, y) => if b(&self.e(x, f)?) { self.e(y, f)? } else { V::Bool(false) },
            E::Bin("or", x, y) => if b(&self.e(x, f)?) { V::Bool(true) } else { self.e(y, f)? },
            E::Bin(o, x, y) => { let x = self.e(x, f)?; let y = self.e(y, f)?; self.bin(o, &x, &y)? }
            E::Neg(x) => match self.e(x, f)? { V::Int(i) => V::Int(i.wrapping_neg()), V::Flt(x) => big(-x)?, _ => panic!() },
            E::Not(x) => V::Bool(!b(&self.e(x, f)?)),
            E::If(c, x, y) => if b(&self.e(c, f)?) { self.e(x, f)? } else { self.e(y, f)? },
            E::Blk(ss, x) => { for s in ss { self.s(s, f)? } self.e(x, f)? }
            E::Tup(v) => V::Tup(self.build(v, f)?),
            E::Arr(v) => V::Arr(self.build(v, f)?),
            E::Rec(v) => { let mut o = vec![]; for (_, x) in v { let x = self.e(x, f); o.push(self.left(x)?) } V::Rec(o) }
            E::Ctor(a, k, v) => V::Adt(*a, *k, self.build(v, f)?),
            E::Some(x) => { let x = self.e(x, f); V::Some(Box::new(self.left(x)?)) }
            E::None => V::None,
            E::Fld(x, n) => { if root(e).is_some() { let p = self.place(e, f)?; return Ok(self.get(&p, f)?.clone()) } let v = self.e(x, f)?; let i = self.fld(&v, n); match v { V::Tup(x) | V::Rec(x) | V::Adt(_, _, x) => x[i].clone(), _ => panic!() } }
            E::Idx(a, i) => {
                if root(e).is_some() { let p = self.place(e, f)?; return Ok(self.get(&p, f)?.clone()) }
                let v = arr(self.e(a, f)?);
                let i = int(&self.e(i, f)?);
                let k = if i < 0 { i.wrapping_add(v.len() as i64) } else { i };
                if k < 0 || k >= v.len() as i64 { return Err(oob(i, v.len())) }
                v[k as usize].clone()
            }
            E::Call(id, a) => { let fun = &self.p.funs[*id as usize]; self.call(fun, a, f)? }
            E::CallV(g, a) => { let g = self.e(g, f)?; let a = self.es(a, f)?; self.apply(&g, a)? }
            E::Lam(ps, body) => V::Clo(Rc::new(Clo { ps: ps.clone(), body: body.clone(), env: Self::free(body, f) })),
            E::FnRef(id) => V::Fn(*id),
            E::Method(t, m, _, a) => {
                let tr = &self.p.traits[*t];
                // The receiver's runtime shape selects the implementation.
                let recv = if root(&a[0]).is_some() { let p = self.place(&a[0], f)?; self.get(&p, f)?.clone() } else { self.fuel = self.fuel.saturating_sub(1); return self.method_by_value(*t, *m, a, f) };
                let im = tr.impls.iter().find(|im| has_type(&recv, &im.t)).ok_or(Ctl::Unmodeled("dispatch"))?;
                let (vs, body) = &im.bodies[*m];
                let modes: Vec<PM> = tr.methods[*m].params.iter().map(|p| p.1).collect();
                self.call_body(vs, &modes, body, a, f)?
            }
            E::Prim(n, a) => self.prim(n, a, f)?,
            E::Pipe(p) => self.pipe(p, f)?,
            E::Match(x, arms) => {
                let v = self.e(x, f)?;
                for (p, body) in arms {
                    let hit = match (p, &v) {
                        (Pat::Wild, _) => true,
                        (Pat::Lit(l), v) => { let l = self.e(l, f)?; eq(&l, v) }
                        (Pat::Tup(ls), V::Tup(vs)) => { let mut ok = true; for (l, v) in ls.iter().zip(vs) { let l = self.e(l, f)?; ok &= eq(&l, v) } ok }
                        (Pat::Some(b), V::Some(x)) => { f.v[*b as usize] = Some((**x).clone()); true }
                        (Pat::None, V::None) => true,
                        (Pat::Ctor(_, k, bs), V::Adt(_, j, xs)) if k == j => { for (b, x) in bs.iter().zip(xs) { if let Some(b) = b { f.v[*b as usize] = Some(x.clone()) } } true }
                        _ => false,
                    };
                    if hit { return self.e(body, f) }
                }
                return Err(Ctl::Unmodeled("no arm"))
            }
            E::Loop(l, body) => loop {
                self.tick()?;
                self.loops += 1;
                match self.ss(body, f) {
                    Ok(()) => {}
                    Err(Ctl::Brk(t, v)) if t.is_none() || t == *l => break v,
                    Err(Ctl::Cont(t)) if t.is_none() || t == *l => {}
                    Err(e) => return Err(e),
                }
            },
            E::FStr(ps) => {
                let mut s = String::new();
                for p in ps { match p { Ok(t) => s.push_str(t), Err(v) => { let x = self.lookup(f, *v).clone(); self.text(&x, &mut s) } } if s.len() > 2000 { return Err(Ctl::Fuel) } }
                V::Str(s.into())
            }
            E::Cast(x, t) => match (self.e(x, f)?, t) { (V::Int(i), T::Float) => { if i.unsigned_abs() > 1 << 50 { return Err(Ctl::Unmodeled("cast")) } V::Flt(i as f64) } (V::Flt(x), T::Int) => V::Int(x as i64), (v, _) => v },
            E::Ret(x) => { let v = self.e(x, f)?; return Err(Ctl::Ret(v)) }
            E::Brk(l, x) => { let v = match x { Some(x) => self.e(x, f)?, None => V::Unit }; return Err(Ctl::Brk(*l, v)) }
            E::Cont(l) => return Err(Ctl::Cont(*l)),
            E::Next(v) => {
                let k = f.it.iter().position(|x| x.0 == *v).unwrap();
                let mut it = f.it.swap_remove(k);
                let r = self.next(&mut it.1);
                f.it.push(it);
                opt(r?)
            }
        })
    }
    fn method_by_value(&mut self, t: usize, m: usize, a: &[E], f: &mut Fr) -> Rs<V> {
        let vals = self.es(a, f)?;
        let tr = &self.p.traits[t];
        let im = tr.impls.iter().find(|im| has_type(&vals[0], &im.t)).ok_or(Ctl::Unmodeled("dispatch"))?;
        let (vs, body) = &im.bodies[m];
        let mut n = self.frame();
        for (id, v) in vs.iter().zip(vals) { n.v[*id as usize] = Some(v) }
        self.enter(body, &mut n)
    }
    fn es(&mut self, v: &[E], f: &mut Fr) -> Rs<Vec<V>> { v.iter().map(|e| self.e(e, f)).collect() }
    fn ss(&mut self, v: &[S], f: &mut Fr) -> Rs<()> { for s in v { self.s(s, f)? } Ok(()) }
    fn s(&mut self, s: &S, f: &mut Fr) -> Rs<()> {
        self.tick()?;
        match s {
            S::Let { v, e, .. } => { let x = self.e(e, f)?; f.v[*v as usize] = Some(x) }
            S::LetTup(vs, e) => { let V::Tup(xs) = self.e(e, f)? else { panic!() }; for ((_, v), x) in vs.iter().zip(xs) { f.v[*v as usize] = Some(x) } }
            S::LetRec(vs, e) => { let x = self.e(e, f)?; for (n, v) in vs { let i = self.fld(&x, n); let V::Rec(xs) = &x else { panic!() }; f.v[*v as usize] = Some(xs[i].clone()) } }
            S::LetIter(v, p) => { let it = self.iter(p, f)?; f.it.retain(|x| x.0 != *v); f.it.push((*v, it)) }
            S::Assign(p, e) => { let p = self.place(p, f)?; let x = self.e(e, f)?; *self.get_mut(&p, f)? = x }
            S::Op(o, p, e) => { let q = self.place(p, f)?; let old = self.get(&q, f)?.clone(); let x = self.e(e, f)?; let n = self.bin(o, &old, &x)?; *self.get_mut(&q, f)? = n }
            S::Ex(e) => { self.e(e, f)?; }
            S::For(v, p, body) => {
                let mut it = self.iter(p, f)?;
                while let Some(x) = self.next(&mut it)? {
                    self.loops += 1;
                    f.v[*v as usize] = Some(x);
                    match self.ss(body, f) { Ok(()) => {} Err(Ctl::Brk(None, _)) => break, Err(Ctl::Cont(None)) => {} Err(e) => return Err(e) }
                }
            }
            S::If(c, a, e) => if b(&self.e(c, f)?) { self.ss(a, f)? } else if let Some(e) = e { self.ss(e, f)? },
        }
        Ok(())
    }
}
fn small(v: &V, n: &mut usize) -> bool {
    if *n == 0 { return false }
    *n -= 1;
    match v { V::Tup(x) | V::Rec(x) | V::Arr(x) | V::Adt(_, _, x) => x.iter().all(|x| small(x, n)), V::Some(x) => small(x, n), _ => true }
}
pub fn has_type(v: &V, t: &T) -> bool {
    match (v, t) {
        (V::Int(_), T::Int) | (V::Flt(_), T::Float) | (V::Bool(_), T::Bool) | (V::Str(_), T::Str) | (V::Unit, T::Unit) | (V::Tok(_), T::Tok) => true,
        (V::Tup(a), T::Tup(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| has_type(a, b)),
        (V::Arr(a), T::Arr(b)) => a.iter().all(|a| has_type(a, b)),
        (V::Adt(i, ..), T::Adt(j, _)) => i == j,
        _ => false,
    }
}
pub fn root(e: &E) -> Option<u32> { match e { E::Var(v) => Some(*v), E::Fld(x, _) | E::Idx(x, _) => root(x), _ => None } }

// Variables mentioned anywhere below.
type Vs = std::collections::BTreeSet<u32>;
pub fn vars_e(e: &E, o: &mut Vs) {
    match e {
        E::Var(v) | E::Next(v) => { o.insert(*v); }
        E::Ann(x, _) | E::Neg(x) | E::Not(x) | E::Some(x) | E::Fld(x, _) | E::Cast(x, _) | E::Ret(x) => vars_e(x, o),
        E::Bin(_, a, b) | E::Idx(a, b) => { vars_e(a, o); vars_e(b, o) }
        E::If(a, b, c) => { vars_e(a, o); vars_e(b, o); vars_e(c, o) }
        E::Blk(s, x) => { vars_ss(s, o); vars_e(x, o) }
        E::Tup(v) | E::Arr(v) | E::Ctor(_, _, v) | E::Call(_, v) | E::Method(_, _, _, v) | E::Prim(_, v) => v.iter().for_each(|x| vars_e(x, o)),
        E::Rec(v) => v.iter().for_each(|x| vars_e(&x.1, o)),
        E::CallV(f, v) => { vars_e(f, o); v.iter().for_each(|x| vars_e(x, o)) }
        E::Lam(_, b) => vars_e(b, o),
        E::Pipe(p) => vars_p(p, o),
        E::Match(x, a) => { vars_e(x, o); a.iter().for_each(|x| vars_e(&x.1, o)) }
        E::Loop(_, s) => vars_ss(s, o),
        E::FStr(ps) => for p in ps { if let Err(v) = p { o.insert(*v); } },
        E::Brk(_, Some(x)) => vars_e(x, o),
        _ => {}
    }
}
fn vars_src(s: &Src, o: &mut Vs) { match s { Src::Range(a, b, _) => { vars_e(a, o); vars_e(b, o) } Src::Arr(a) => vars_e(a, o), Src::Zip(a, b) | Src::Chain(a, b) => { vars_src(a, o); vars_src(b, o) } } }
pub fn vars_p(p: &Pipe, o: &mut Vs) {
    vars_src(&p.src, o);
    for s in &p.stages { match s { Stage::Map(x) | Stage::Filter(x) | Stage::FilterMap(x) | Stage::Take(x) | Stage::Skip(x) => vars_e(x, o), Stage::Enumerate => {} } }
    match &p.sink { Sink::Fold(a, b) => { vars_e(a, o); vars_e(b, o) } Sink::Any(a) | Sink::All(a) | Sink::Find(a) | Sink::Position(a) => vars_e(a, o), _ => {} }
}
pub fn vars_ss(v: &[S], o: &mut Vs) {
    for s in v {
        match s {
            S::Let { e, .. } | S::LetTup(_, e) | S::LetRec(_, e) | S::Ex(e) => vars_e(e, o),
            S::LetIter(_, p) => vars_p(p, o),
            S::Assign(a, b) | S::Op(_, a, b) => { vars_e(a, o); vars_e(b, o) }
            S::For(_, p, b) => { vars_p(p, o); vars_ss(b, o) }
            S::If(c, a, b) => { vars_e(c, o); vars_ss(a, o); if let Some(b) = b { vars_ss(b, o) } }
        }
    }
}
