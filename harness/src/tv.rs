//! Generated types with values: source text of both, rendering, equality, and ways to build a value.
use crate::util::*;

#[derive(Clone, PartialEq, Debug)]
pub enum T {
    Unit, Bool, Int, Float, Str,
    Tup(Vec<T>),
    Rec(Vec<(String, T)>),
    Arr(Box<T>),
    Opt(Box<T>),
    Set(Box<T>),
    Map(Box<T>, Box<T>),
    Named(usize, Vec<T>),
    /// A type with its own equality (see `MK`).
    Mk,
    /// Parameter of the enclosing declaration.
    Par(usize),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Shape { Unit, Tup(Vec<T>), Rec(Vec<(String, T)>) }
#[derive(Clone, Debug)]
pub struct Decl { pub name: String, pub params: usize, pub is_enum: bool, pub cases: Vec<(String, Shape)> }
#[derive(Clone, PartialEq, Debug)]
pub enum V {
    Unit, Bool(bool), Int(i64), Float(f64), Str(String),
    Tup(Vec<V>),
    Rec(Vec<V>),
    Arr(Vec<V>),
    Opt(Option<Box<V>>),
    Set(Vec<V>),
    Map(Vec<(V, V)>),
    /// Case index and fields.
    Named(usize, Vec<V>),
    Mk(i64, String),
}
/// `Mk` values are equal when their numbers agree modulo 10.
pub const MK: &str = "struct Mk { k: int, note: string }
impl Value for Mk {
    fn eq(left: Mk, right: Mk) -> bool { bit_and(left.k, 3) == bit_and(right.k, 3) }
    fn to_string(value: Mk) -> string { let k = value.k; f\"Mk<{k}>\" }
    fn hash(value: Mk, state: &mut hasher) { hash(bit_and(value.k, 3), state) }
    fn clone(source: Mk) -> Mk { Mk { k: source.k, note: source.note } }
    fn drop(target: &mut Mk) {}
}
";
/// Whether generated floats include the negative zero (text formats do not keep its sign).
pub static NEG_ZERO: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub const STRINGS: &[&str] = &["", "a", "b", "ab", "ba", "Ab", "zz", "0", " ", "é", "日本", "👍🏽", "a\nb", "\t", "\"", "\\", "\\n", "{x}", "null", "type", "\u{1}", "\u{7f}", "\u{85}", "x\u{0}y", "\r\n", "//", "/*", "true", "-1", "\u{2028}", "🇨🇭", "\u{202e}r"];
#[derive(Clone, Default)]
pub struct World { pub decls: Vec<Decl>, pub simple: bool }
#[derive(Clone, Copy)]
pub struct Opts { pub floats: bool, pub colls: bool, pub unit: bool, pub mk: bool, pub keys: bool }
impl World {
    pub fn generate(r: &mut Rng, o: &Opts) -> World {
        let mut w = World::default();
        let n = r.below(4);
        for k in 0..n {
            let is_enum = r.pct(60);
            let params = if r.pct(30) { 1 + r.below(2) } else { 0 };
            let nc = if is_enum { 1 + r.below(4) } else { 1 };
            let names = ["Aa", "Bee", "Cc", "D1", "None2", "Point"];
            let mut cases = vec![];
            for i in 0..nc {
                let cn = if is_enum { names[(i + k) % names.len()].to_string() } else { String::new() };
                let sh = match r.below(3) {
                    0 if is_enum => Shape::Unit,
                    1 => { let m = 1 + r.below(3); Shape::Tup((0..m).map(|_| w.ty_in(r, o, 2, params)).collect()) }
                    _ => Shape::Rec(w.fields(r, o, 2, params, 1)),
                };
                cases.push((cn, sh));
            }
            // every parameter has to occur
            for p in 0..params {
                let used = cases.iter().any(|c| match &c.1 { Shape::Unit => false, Shape::Tup(x) => x.iter().any(|t| mentions(t, p)), Shape::Rec(x) => x.iter().any(|t| mentions(&t.1, p)) });
                if !used {
                    let c = cases.len() - 1;
                    match &mut cases[c].1 {
                        Shape::Tup(x) => x.push(T::Par(p)),
                        Shape::Rec(x) => { x.push((format!("p{p}"), T::Par(p))); }
                        s => *s = Shape::Tup(vec![T::Par(p)]),
                    }
                }
            }
            let name = format!("{}{k}", if is_enum { "En" } else { "St" });
            w.decls.push(Decl { name, params, is_enum, cases });
        }
        w
    }
    fn fields(&self, r: &mut Rng, o: &Opts, d: u32, np: usize, least: usize) -> Vec<(String, T)> {
        let pool = ["a", "b", "zed", "type", "data", "x1", "name", "b2", "q", "w0", "Big"];
        let pool: Vec<&str> = pool.iter().copied().filter(|x| *x != "type").collect();
        let mut p: Vec<&str> = pool;
        r.shuffle(&mut p);
        if r.pct(8) { return p[..5 + r.below(4)].iter().map(|x| (x.to_string(), self.ty_in(r, o, 0, np))).collect() }
        let m = least + r.below(3);
        p[..m].iter().map(|x| (x.to_string(), self.ty_in(r, o, d - 1, np))).collect()
    }
    pub fn ty(&self, r: &mut Rng, o: &Opts, d: u32) -> T { self.ty_in(r, o, d, 0) }
    fn ty_in(&self, r: &mut Rng, o: &Opts, d: u32, np: usize) -> T {
        if np > 0 && r.pct(25) { return T::Par(r.below(np)) }
        if d == 0 || r.pct(25) {
            return match r.below(12) { 0 if o.unit => T::Unit, 9 if o.mk => T::Mk, 1 | 2 => T::Bool, 3..=6 => T::Int, 7 | 8 if o.floats => T::Float, _ => T::Str }
        }
        match r.below(16) {
            0..=2 => {
                if r.pct(8) { let n = 5 + r.below(4); return T::Tup((0..n).map(|i| if i == 0 { self.ty_in(r, o, d - 1, np) } else { self.ty_in(r, o, 0, np) }).collect()) }
                let n = if r.pct(15) { 1 } else { 2 + r.below(2) };
                T::Tup((0..n).map(|_| self.ty_in(r, o, d - 1, np)).collect())
            }
            3 | 4 => T::Rec(self.fields(r, o, d, np, 1)),
            5..=7 => T::Arr(Box::new(self.ty_in(r, o, d - 1, np))),
            8 | 9 => T::Opt(Box::new(self.ty_in(r, o, d - 1, np))),
            10 if o.colls => T::Set(Box::new(self.key(r, o, d, np))),
            11 if o.colls => T::Map(Box::new(self.key(r, o, d, np)), Box::new(self.ty_in(r, o, d - 1, np))),
            _ if !self.decls.is_empty() => {
                let k = r.below(self.decls.len());
                let a = (0..self.decls[k].params).map(|_| self.ty_in(r, o, d - 1, np)).collect();
                T::Named(k, a)
            }
            _ => T::Tup(vec![self.ty_in(r, o, d - 1, np), self.ty_in(r, o, d - 1, np)]),
        }
    }
    fn key(&self, r: &mut Rng, o: &Opts, d: u32, np: usize) -> T {
        if o.keys && r.pct(60) { return self.ty_in(r, o, d - 1, np) }
        match r.below(4) { 0 | 1 => T::Int, 2 => T::Str, _ => T::Tup(vec![T::Int, T::Str]) }
    }
    pub fn shape(&self, t: &T, case: usize) -> Shape {
        let T::Named(k, a) = t else { unreachable!() };
        match &self.decls[*k].cases[case].1 {
            Shape::Unit => Shape::Unit,
            Shape::Tup(x) => Shape::Tup(x.iter().map(|t| subst(t, a)).collect()),
            Shape::Rec(x) => Shape::Rec(x.iter().map(|(n, t)| (n.clone(), subst(t, a))).collect()),
        }
    }
    pub fn int(r: &mut Rng) -> i64 { match r.below(8) { 0 => *r.pick(&[i64::MAX, -i64::MAX, 1 << 53, (1 << 53) + 1, -(1 << 40)]), 1 => r.next() as i64 >> 1, _ => r.range(-9, 30) } }
    pub fn float(r: &mut Rng) -> f64 {
        let x = match r.below(8) { 0 => *r.pick(&[1e300, 1e-300, -1e18, 0.1, 1.0, -2.0, 1e16, 123456789.125, 5e-324, 0.0, -0.0]), 1 => f64::from_bits(r.next()), _ => r.range(-400, 400) as f64 / 8.0 };
        if x == 0.0 && !NEG_ZERO.load(std::sync::atomic::Ordering::Relaxed) { 0.0 } else if x.is_finite() { x } else { 0.5 }
    }
    pub fn string(r: &mut Rng) -> String {
        let n = if r.pct(70) { 1 } else { r.below(4) };
        (0..n).map(|_| *r.pick(STRINGS)).collect()
    }
    pub fn value(&self, r: &mut Rng, t: &T) -> V { self.value_d(r, t, 4) }
    fn value_d(&self, r: &mut Rng, t: &T, d: usize) -> V {
        match t {
            T::Unit => V::Unit,
            T::Bool => V::Bool(r.pct(50)),
            T::Int => V::Int(Self::int(r)),
            T::Float => V::Float(Self::float(r)),
            T::Str => V::Str(Self::string(r)),
            T::Mk => V::Mk(r.range(0, 9), Self::string(r)),
            T::Tup(x) => V::Tup(x.iter().map(|t| self.value_d(r, t, d)).collect()),
            T::Rec(x) => V::Rec(x.iter().map(|t| self.value_d(r, &t.1, d)).collect()),
            T::Arr(t) => { let n = r.below(d); V::Arr((0..n).map(|_| self.value_d(r, t, d - 1)).collect()) }
            T::Opt(t) => V::Opt(if r.pct(60) { Some(Box::new(self.value_d(r, t, d))) } else { None }),
            T::Set(t) => { let n = r.below(d); let mut s: Vec<V> = vec![]; for _ in 0..n { let v = self.value_d(r, t, d - 1); if !s.iter().any(|e| self.eq(e, &v)) { s.push(v) } } V::Set(s) }
            T::Map(k, t) => { let n = r.below(d); let mut s: Vec<(V, V)> = vec![]; for _ in 0..n { let a = self.value_d(r, k, d - 1); if !s.iter().any(|e| self.eq(&e.0, &a)) { let b = self.value_d(r, t, d - 1); s.push((a, b)) } } V::Map(s) }
            T::Named(k, _) => {
                let c = r.below(self.decls[*k].cases.len());
                let fs = match self.shape(t, c) { Shape::Unit => vec![], Shape::Tup(x) => x, Shape::Rec(x) => x.into_iter().map(|f| f.1).collect() };
                V::Named(c, fs.iter().map(|t| self.value_d(r, t, d)).collect())
            }
            T::Par(_) => unreachable!(),
        }
    }
    pub fn ty_text(&self, t: &T) -> String {
        let list = |x: &[T]| x.iter().map(|t| self.ty_text(t)).collect::<Vec<_>>().join(", ");
        match t {
            T::Unit => "()".into(), T::Bool => "bool".into(), T::Int => "int".into(), T::Float => "float".into(), T::Str => "string".into(),
            T::Tup(x) if x.len() == 1 => format!("({},)", list(x)),
            T::Tup(x) => format!("({})", list(x)),
            T::Rec(x) => format!("{{ {} }}", x.iter().map(|(n, t)| format!("{n}: {}", self.ty_text(t))).collect::<Vec<_>>().join(", ")),
            T::Arr(t) => format!("[{}]", self.ty_text(t)),
            T::Opt(t) => format!("Option<{}>", self.ty_text(t)),
            T::Set(t) => format!("HashSet<{}>", self.ty_text(t)),
            T::Map(k, t) => format!("HashMap<{}, {}>", self.ty_text(k), self.ty_text(t)),
            T::Named(k, a) => if a.is_empty() { self.decls[*k].name.clone() } else { format!("{}<{}>", self.decls[*k].name, list(a)) },
            T::Mk => "Mk".into(),
            T::Par(p) => ["A", "B"][*p].into(),
        }
    }
    pub fn decls_text(&self) -> String {
        let mut s = String::new();
        for d in &self.decls {
            let g = if d.params == 0 { String::new() } else { format!("<{}>", ["A", "B"][..d.params].join(", ")) };
            let shape = |x: &Shape, top: bool| match x {
                Shape::Unit => String::new(),
                Shape::Tup(x) => format!("({})", x.iter().map(|t| self.ty_text(t)).collect::<Vec<_>>().join(", ")),
                Shape::Rec(x) => format!("{}{{ {} }}", if top { "" } else { " " }, x.iter().map(|(n, t)| format!("{n}: {}", self.ty_text(t))).collect::<Vec<_>>().join(", ")),
            };
            if d.is_enum { s.push_str(&format!("enum {}{g} {{ {} }}\n", d.name, d.cases.iter().map(|(n, x)| format!("{n}{}", shape(x, false))).collect::<Vec<_>>().join(", "))) }
            else { s.push_str(&format!("struct {}{g} {}\n", d.name, shape(&d.cases[0].1, true))) }
        }
        s
    }
    /// Expression building the value; `leaf` gives the text of scalars.
    pub fn lit(&self, t: &T, v: &V, leaf: &mut dyn FnMut(&V) -> String) -> String {
        let mut list = |ts: &[T], vs: &[V]| ts.iter().zip(vs).map(|(t, v)| self.lit(t, v, leaf)).collect::<Vec<_>>();
        match (t, v) {
            (_, V::Unit) => "()".into(),
            (_, V::Bool(_) | V::Int(_) | V::Float(_) | V::Str(_)) => leaf(v),
            (_, V::Mk(k, n)) => format!("Mk {{ k: {}, note: {} }}", leaf(&V::Int(*k)), leaf(&V::Str(n.clone()))),
            (T::Tup(t), V::Tup(v)) => { let l = list(t, v); if l.len() == 1 { format!("({},)", l[0]) } else { format!("({})", l.join(", ")) } }
            (T::Rec(t), V::Rec(v)) => { let ts: Vec<T> = t.iter().map(|f| f.1.clone()).collect(); let l = list(&ts, v); format!("{{ {} }}", t.iter().zip(l).map(|(f, x)| format!("{}: {x}", f.0)).collect::<Vec<_>>().join(", ")) }
            (T::Arr(e), V::Arr(v)) => if v.is_empty() { format!("([]: {})", self.ty_text(t)) } else { format!("[{}]", v.iter().map(|v| self.lit(e, v, leaf)).collect::<Vec<_>>().join(", ")) },
            (T::Opt(e), V::Opt(Some(v))) => format!("(Some({}): {})", self.lit(e, v, leaf), self.ty_text(t)),
            (T::Opt(_), V::Opt(None)) => format!("(None: {})", self.ty_text(t)),
            (T::Set(e), V::Set(v)) => if v.is_empty() { format!("(hash_set_new(): {})", self.ty_text(t)) } else { format!("set {{ {} }}", v.iter().map(|v| self.lit(e, v, leaf)).collect::<Vec<_>>().join(", ")) },
            (T::Map(k, e), V::Map(v)) => if v.is_empty() { format!("(hash_map_new(): {})", self.ty_text(t)) } else { format!("map {{ {} }}", v.iter().map(|(a, b)| format!("{} => {}", self.lit(k, a, leaf), self.lit(e, b, leaf))).collect::<Vec<_>>().join(", ")) },
            (T::Named(k, a), V::Named(c, v)) => {
                let d = &self.decls[*k];
                let n = if d.is_enum { format!("{}::{}", d.name, d.cases[*c].0) } else { d.name.clone() };
                let x = match self.shape(t, *c) {
                    Shape::Unit => n,
                    Shape::Tup(ts) => format!("{n}({})", list(&ts, v).join(", ")),
                    Shape::Rec(fs) => { let ts: Vec<T> = fs.iter().map(|f| f.1.clone()).collect(); let l = list(&ts, v); format!("{n} {{ {} }}", fs.iter().zip(l).map(|(f, x)| format!("{}: {x}", f.0)).collect::<Vec<_>>().join(", ")) }
                };
                if a.is_empty() { x } else { format!("({x}: {})", self.ty_text(t)) }
            }
            _ => unreachable!("{t:?} {v:?}"),
        }
    }
    /// What `to_string` gives; `None` when the order of a collection decides.
    pub fn show(&self, t: &T, v: &V) -> Option<String> { self.show_as(t, v, false) }
    /// The same with strings quoted, as `inspect` gives.
    pub fn show_as(&self, t: &T, v: &V, q: bool) -> Option<String> {
        let list = |ts: &[T], vs: &[V]| ts.iter().zip(vs).map(|(t, v)| self.show_as(t, v, q)).collect::<Option<Vec<_>>>();
        let rec = |fs: &[(String, T)], vs: &[V]| -> Option<String> {
            let mut x: Vec<(&String, String)> = vec![];
            for (f, v) in fs.iter().zip(vs) { x.push((&f.0, self.show_as(&f.1, v, q)?)) }
            x.sort();
            Some(format!("{{ {} }}", x.iter().map(|(n, s)| format!("{n}: {s}")).collect::<Vec<_>>().join(", ")))
        };
        Some(match (t, v) {
            (_, V::Unit) => "()".into(),
            (_, V::Bool(b)) => b.to_string(), (_, V::Int(i)) => i.to_string(), (_, V::Float(f)) => f.to_string(), (_, V::Str(s)) => if q { quote(s) } else { s.clone() },
            (_, V::Mk(k, _)) => if q { return None } else { format!("Mk<{k}>") },
            (T::Tup(t), V::Tup(v)) => format!("({})", list(t, v)?.join(", ")),
            (T::Rec(t), V::Rec(v)) => rec(t, v)?,
            (T::Arr(t), V::Arr(v)) => format!("[{}]", v.iter().map(|v| self.show_as(t, v, q)).collect::<Option<Vec<_>>>()?.join(", ")),
            (T::Opt(_), V::Opt(None)) => "None".into(),
            (T::Opt(t), V::Opt(Some(v))) => format!("Some ({})", self.show_as(t, v, q)?),
            (_, V::Set(v)) if v.len() != 1 => return None,
            (_, V::Map(v)) if v.len() != 1 => return None,
            (T::Set(t), V::Set(v)) => format!("{{ {} }}", self.show_as(t, &v[0], q)?),
            (T::Map(k, t), V::Map(v)) => format!("{{ ({}, {}) }}", self.show_as(k, &v[0].0, q)?, self.show_as(t, &v[0].1, q)?),
            (T::Named(k, _), V::Named(c, v)) => {
                let d = &self.decls[*k];
                match (self.shape(t, *c), d.is_enum) {
                    (Shape::Unit, _) => format!("{}::{}", d.name, d.cases[*c].0),
                    (Shape::Tup(ts), true) => format!("{}::{} ({})", d.name, d.cases[*c].0, list(&ts, v)?.join(", ")),
                    (Shape::Tup(ts), false) => format!("{} ({})", d.name, list(&ts, v)?.join(", ")),
                    (Shape::Rec(fs), true) => format!("{}::{}({})", d.name, d.cases[*c].0, rec(&fs, v)?),
                    (Shape::Rec(fs), false) => format!("{} {}", d.name, rec(&fs, v)?),
                }
            }
            _ => unreachable!("{t:?} {v:?}"),
        })
    }
    /// Equality: collections by contents.
    pub fn eq(&self, a: &V, b: &V) -> bool {
        let all = |x: &[V], y: &[V]| x.len() == y.len() && x.iter().zip(y).all(|(a, b)| self.eq(a, b));
        match (a, b) {
            (V::Tup(x), V::Tup(y)) | (V::Rec(x), V::Rec(y)) | (V::Arr(x), V::Arr(y)) => all(x, y),
            (V::Named(c, x), V::Named(d, y)) => c == d && all(x, y),
            (V::Opt(x), V::Opt(y)) => match (x, y) { (None, None) => true, (Some(x), Some(y)) => self.eq(x, y), _ => false },
            (V::Set(x), V::Set(y)) => x.len() == y.len() && x.iter().all(|a| y.iter().any(|b| self.eq(a, b))),
            (V::Map(x), V::Map(y)) => x.len() == y.len() && x.iter().all(|a| y.iter().any(|b| self.eq(&a.0, &b.0) && self.eq(&a.1, &b.1))),
            (V::Mk(a, _), V::Mk(b, _)) => a & 3 == b & 3,
            (a, b) => a == b,
        }
    }
    /// The value with one small change somewhere.
    pub fn tweak(&self, r: &mut Rng, t: &T, v: &V) -> V {
        match (t, v) {
            (_, V::Unit) => V::Unit,
            (_, V::Bool(b)) => V::Bool(!b),
            (_, V::Int(i)) => V::Int(if r.pct(50) { i.wrapping_add(1) } else { Self::int(r) }),
            (_, V::Float(f)) => V::Float(if r.pct(50) { f + 1.0 } else { Self::float(r) }),
            (_, V::Str(s)) => V::Str(if r.pct(50) { format!("{s}a") } else { Self::string(r) }),
            (_, V::Mk(k, n)) => if r.pct(50) { V::Mk(k + *r.pick(&[4, 1, 8]), n.clone()) } else { V::Mk(*k, format!("{n}x")) },
            (T::Tup(ts), V::Tup(vs)) => { let i = r.below(vs.len()); let mut x = vs.clone(); if !x.is_empty() { x[i] = self.tweak(r, &ts[i], &vs[i]); } V::Tup(x) }
            (T::Rec(ts), V::Rec(vs)) => { let i = r.below(vs.len()); let mut x = vs.clone(); x[i] = self.tweak(r, &ts[i].1, &vs[i]); V::Rec(x) }
            (T::Arr(e), V::Arr(vs)) if !vs.is_empty() && r.pct(70) => {
                let mut x = vs.clone();
                let i = r.below(x.len());
                match r.below(3) { 0 => { x.remove(i); } 1 => { let j = r.below(x.len()); x.swap(i, j) } _ => x[i] = self.tweak(r, e, &vs[i]) }
                V::Arr(x)
            }
            (T::Arr(e), V::Arr(vs)) => { let mut x = vs.clone(); x.push(self.value(r, e)); V::Arr(x) }
            (T::Opt(e), V::Opt(Some(v))) => if r.pct(30) { V::Opt(None) } else { V::Opt(Some(Box::new(self.tweak(r, e, v)))) },
            (T::Set(_), V::Set(s)) if s.len() > 1 && r.pct(60) => { let mut x = s.clone(); r.shuffle(&mut x); V::Set(x) }
            (T::Map(_, _), V::Map(s)) if s.len() > 1 && r.pct(60) => { let mut x = s.clone(); r.shuffle(&mut x); V::Map(x) }
            (T::Map(_, e), V::Map(s)) if !s.is_empty() && r.pct(60) => { let mut x = s.clone(); let i = r.below(x.len()); x[i].1 = self.tweak(r, e, &s[i].1); V::Map(x) }
            (T::Named(..), V::Named(c, vs)) if !vs.is_empty() && r.pct(75) => {
                let ts: Vec<T> = match self.shape(t, *c) { Shape::Unit => vec![], Shape::Tup(x) => x, Shape::Rec(x) => x.into_iter().map(|f| f.1).collect() };
                let i = r.below(vs.len());
                let mut x = vs.clone();
                x[i] = self.tweak(r, &ts[i], &vs[i]);
                V::Named(*c, x)
            }
            _ => self.value(r, t),
        }
    }
}
pub fn uses_mk(w: &World, t: &T) -> bool {
    match t { T::Mk => true, T::Tup(x) => x.iter().any(|t| uses_mk(w, t)), T::Rec(x) => x.iter().any(|f| uses_mk(w, &f.1)), T::Arr(t) | T::Opt(t) | T::Set(t) => uses_mk(w, t), T::Map(a, b) => uses_mk(w, a) || uses_mk(w, b),
        T::Named(k, a) => a.iter().any(|t| uses_mk(w, t)) || w.decls[*k].cases.iter().any(|c| match &c.1 { Shape::Unit => false, Shape::Tup(x) => x.iter().any(|t| uses_mk(w, t)), Shape::Rec(x) => x.iter().any(|f| uses_mk(w, &f.1)) }), _ => false }
}
fn mentions(t: &T, p: usize) -> bool {
    match t { T::Par(q) => *q == p, T::Tup(x) | T::Named(_, x) => x.iter().any(|t| mentions(t, p)), T::Rec(x) => x.iter().any(|f| mentions(&f.1, p)), T::Arr(t) | T::Opt(t) | T::Set(t) => mentions(t, p), T::Map(a, b) => mentions(a, p) || mentions(b, p), _ => false }
}
pub fn subst(t: &T, a: &[T]) -> T {
    match t {
        T::Par(p) => a[*p].clone(),
        T::Tup(x) => T::Tup(x.iter().map(|t| subst(t, a)).collect()),
        T::Named(k, x) => T::Named(*k, x.iter().map(|t| subst(t, a)).collect()),
        T::Rec(x) => T::Rec(x.iter().map(|(n, t)| (n.clone(), subst(t, a))).collect()),
        T::Arr(t) => T::Arr(Box::new(subst(t, a))), T::Opt(t) => T::Opt(Box::new(subst(t, a))), T::Set(t) => T::Set(Box::new(subst(t, a))),
        T::Map(k, t) => T::Map(Box::new(subst(k, a)), Box::new(subst(t, a))),
        t => t.clone(),
    }
}
/// A Ferlium string literal.
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if c.is_control() => o.push_str(&format!("\\u{{{:x}}}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
