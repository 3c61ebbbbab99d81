//! A06: collections and sequence operations against Rust's own vectors, sets and maps.
use crate::run::*;
use crate::sup::*;
use crate::util::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop {
        id: "A06",
        level: "exploration",
        rule: "a case is a generated history of operations on arrays, sets, maps, ranges and iterator pipelines; non-trivial when all execution modes ran it and every observation was compared with the model; distinct by program text",
        secs: (90, 840),
        cases: (1300, 1 << 40),
        crash: true,
        hang: false,
        assumptions: &["operation names and argument orders are those of the standard library's public functions"],
        worker,
        floor: 200,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum T { I, S, P, L, O }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum V { I(i64), S(String), P(i64, String), L(Vec<V>), O(Option<i64>) }
impl T {
    fn name(self) -> &'static str { match self { T::I => "int", T::S => "string", T::P => "(int, string)", T::L => "[int]", T::O => "Option<int>" } }
}
fn show(v: &V) -> String {
    match v {
        V::I(i) => i.to_string(),
        V::S(s) => s.clone(),
        V::P(i, s) => format!("({i}, {s})"),
        V::L(l) => show_arr(l),
        V::O(None) => "None".into(),
        V::O(Some(i)) => format!("Some ({i})"),
    }
}
fn show_arr(l: &[V]) -> String { format!("[{}]", l.iter().map(show).collect::<Vec<_>>().join(", ")) }
fn show_opt(o: Option<&V>) -> String { match o { None => "None".into(), Some(v) => format!("Some ({})", show(v)) } }
fn lit(v: &V) -> String {
    match v {
        V::I(i) => if *i < 0 { format!("({i})") } else { i.to_string() },
        V::S(s) => format!("{s:?}"),
        V::P(i, s) => format!("({}, {s:?})", lit(&V::I(*i))),
        V::L(l) => lit_arr(l),
        V::O(None) => "None".into(),
        V::O(Some(i)) => format!("Some({})", lit(&V::I(*i))),
    }
}
fn lit_arr(l: &[V]) -> String { format!("[{}]", l.iter().map(lit).collect::<Vec<_>>().join(", ")) }
fn int(v: &V) -> i64 { match v { V::I(i) => *i, _ => unreachable!() } }

struct G<'a> {
    r: &'a mut Rng,
    src: String,
    want: Vec<String>,
    arrs: Vec<(String, T, Vec<V>)>,
    sets: Vec<(String, T, BTreeSet<V>)>,
    maps: Vec<(String, T, T, BTreeMap<V, V>)>,
    n: usize,
    failure: Option<String>,
}
const WORDS: [&str; 9] = ["", "a", "b", "ab", "abc", "zz", "é", "0", "a b"];
impl G<'_> {
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{p}{}", self.n) }
    fn small(&mut self) -> i64 { match self.r.below(12) { 0 => self.r.range(-3, -1), 1 => *self.r.pick(&[i64::MAX, -i64::MAX, 1 << 40]), _ => self.r.range(0, 6) } }
    fn tame(&mut self) -> i64 { self.r.range(-3, 7) }
    fn val(&mut self, t: T) -> V {
        match t {
            T::I => V::I(self.small()),
            T::S => V::S(self.r.pick(&WORDS).to_string()),
            T::P => V::P(self.r.range(0, 3), self.r.pick(&WORDS).to_string()),
            T::L => { let n = self.r.below(4); V::L((0..n).map(|_| V::I(self.tame())).collect()) }
            T::O => V::O(if self.r.pct(40) { None } else { Some(self.tame()) }),
        }
    }
    fn st(&mut self, s: String) { self.src.push_str(&s); self.src.push('\n'); }
    fn see(&mut self, e: String, w: String) { self.st(format!("host::emits(to_string({e}));")); self.want.push(w); }
    fn ty(&mut self) -> T { *self.r.pick(&[T::I, T::I, T::S, T::P, T::L, T::O]) }
    fn decl_arr(&mut self, t: T, v: Vec<V>, e: Option<String>) -> usize {
        let x = self.fresh("a");
        let e = e.unwrap_or_else(|| lit_arr(&v));
        self.st(format!("let mut {x}: [{}] = {e};", t.name()));
        self.arrs.push((x, t, v));
        self.arrs.len() - 1
    }
    fn arr(&mut self) -> usize {
        if self.arrs.is_empty() || (self.arrs.len() < 5 && self.r.pct(10)) {
            let t = self.ty();
            let n = self.r.below(6);
            let v = (0..n).map(|_| self.val(t)).collect();
            return self.decl_arr(t, v, None)
        }
        self.r.below(self.arrs.len())
    }
    fn int_arr(&mut self) -> usize {
        let c: Vec<usize> = (0..self.arrs.len()).filter(|i| self.arrs[*i].1 == T::I).collect();
        if c.is_empty() || self.r.pct(8) {
            let n = self.r.below(9);
            let v = (0..n).map(|_| V::I(self.tame())).collect();
            return self.decl_arr(T::I, v, None)
        }
        *self.r.pick(&c)
    }
    /// An index literal that resolves to `i` in an array of `n` elements.
    fn idx(&mut self, i: usize, n: usize) -> String { if self.r.pct(30) { format!("{}", i as i64 - n as i64) } else { i.to_string() } }
    fn array_op(&mut self) {
        let k = self.arr();
        let (x, t, v) = self.arrs[k].clone();
        let n = v.len();
        match self.r.below(23) {
            0 | 1 | 2 => { let e = self.val(t); self.st(format!("array_append({x}, {});", lit(&e))); self.arrs[k].2.push(e); }
            3 | 4 => { let e = self.val(t); self.st(format!("array_prepend({x}, {});", lit(&e))); self.arrs[k].2.insert(0, e); }
            5 => { let w = show_opt(v.last()); self.see(format!("array_pop_back({x})"), w); self.arrs[k].2.pop(); }
            6 | 7 => { let w = show_opt(v.first()); self.see(format!("array_pop_front({x})"), w); if n > 0 { self.arrs[k].2.remove(0); } }
            8 => { self.see(format!("(array_peek_front({x}), array_peek_back({x}), len({x}), is_empty({x}))"), format!("({}, {}, {n}, {})", show_opt(v.first()), show_opt(v.last()), n == 0)); }
            9 if n > 0 => { let i = self.r.below(n); let e = self.val(t); let ix = self.idx(i, n); self.st(format!("{x}[{ix}] = {};", lit(&e))); self.arrs[k].2[i] = e; }
            10 if n > 0 => { let i = self.r.below(n); let ix = self.idx(i, n); self.see(format!("{x}[{ix}]"), show(&v[i])); }
            11 if n > 0 => {
                // An element copied onto another one of the same array.
                let (i, j) = (self.r.below(n), self.r.below(n));
                let (ix, jx) = (self.idx(i, n), self.idx(j, n));
                self.st(format!("{x}[{ix}] = {x}[{jx}];"));
                self.arrs[k].2[i] = v[j].clone();
            }
            12 => { let (i, j) = (self.r.below(n + 2), self.r.below(n + 3)); let (a, b) = (i.min(n), j.min(n)); let f = *self.r.pick(&["array_slice", "slice"]); self.see(format!("{f}({x}, {i}, {j})"), show_arr(if a < b { &v[a..b] } else { &[] })); }
            13 if n > 0 => { let i = 1 + self.r.below(n); let j = self.r.below(n + 1); let a = n - i; self.see(format!("array_slice({x}, -{i}, {j})"), show_arr(if a < j { &v[a..j] } else { &[] })); }
            14 => { let same: Vec<usize> = (0..self.arrs.len()).filter(|i| self.arrs[*i].1 == t).collect(); let j = *self.r.pick(&same); let (y, _, w) = self.arrs[j].clone(); let mut c = v.clone(); c.extend(w); if c.len() < 60 { self.decl_arr(t, c, Some(format!("concat({x}, {y})"))); } }
            15 => { let mut c = v.clone(); c.reverse(); if self.r.pct(50) { self.st(format!("reverse({x});")); self.arrs[k].2 = c; } else { self.see(format!("reversed({x})"), show_arr(&c)); } }
            16 => { let e = if n > 0 && self.r.pct(60) { v[self.r.below(n)].clone() } else { self.val(t) }; self.see(format!("contains({x}, {})", lit(&e)), v.contains(&e).to_string()); }
            17 => {
                // Splitting around an element, and around a short array.
                if self.r.pct(50) {
                    let e = if n > 0 { v[self.r.below(n)].clone() } else { self.val(t) };
                    let parts: Vec<String> = v.split(|q| *q == e).map(show_arr).collect();
                    if t != T::L && t != T::O { self.see(format!("split({x}, {})", lit(&e)), format!("[{}]", parts.join(", "))); }
                } else {
                    let m = 1 + self.r.below(2);
                    let sep: Vec<V> = if n >= m && self.r.pct(70) { let i = self.r.below(n - m + 1); v[i..i + m].to_vec() } else { (0..m).map(|_| self.val(t)).collect() };
                    let (mut parts, mut at, mut i) = (vec![], 0, 0);
                    while i + m <= n { if v[i..i + m] == sep[..] { parts.push(show_arr(&v[at..i])); i += m; at = i; } else { i += 1; } }
                    parts.push(show_arr(&v[at..]));
                    if t != T::L && t != T::O { self.see(format!("split({x}, {})", lit_arr(&sep)), format!("[{}]", parts.join(", "))); }
                }
            }
            18 => {
                // A copy is independent of its source.
                let y = self.fresh("c");
                self.st(format!("let mut {y} = {x};"));
                let e = self.val(t);
                let mut c = v.clone();
                if n > 0 && self.r.pct(60) { let i = self.r.below(n); c[i] = e.clone(); self.st(format!("{y}[{i}] = {};", lit(&e))); } else { c.push(e.clone()); self.st(format!("array_append({y}, {});", lit(&e))); }
                if self.r.pct(50) { let z = self.val(t); self.st(format!("array_append({x}, {});", lit(&z))); self.arrs[k].2.push(z); }
                let w = format!("({}, {}, {})", show_arr(&c), show_arr(&self.arrs[k].2), c == self.arrs[k].2);
                self.see(format!("({y}, {x}, {y} == {x})"), w);
                if self.arrs.len() < 6 { self.arrs.push((y, t, c)); }
            }
            19 => {
                let mut c = v.clone();
                let by = match t {
                    T::I | T::S => { c.sort(); None }
                    T::P => { c.sort_by(|a, b| match (a, b) { (V::P(a, _), V::P(b, _)) => a.cmp(b), _ => Ordering::Equal }); Some("|p, q| cmp(p.0, q.0)") }
                    T::L => { c.sort_by_key(|a| match a { V::L(l) => l.len(), _ => 0 }); Some("|p, q| cmp(len(p), len(q))") }
                    T::O => return,
                };
                let rev = by.is_none() && self.r.pct(30);
                if rev { c.sort_by(|a, b| b.cmp(a)); }
                let by = by.or(if rev { Some("|p, q| cmp(q, p)") } else { None });
                match (by, self.r.pct(50)) {
                    (None, true) => { self.st(format!("sort({x});")); self.arrs[k].2 = c; }
                    (None, false) => { self.see(format!("sorted({x})"), show_arr(&c)); }
                    (Some(f), true) => { self.st(format!("sort_by({x}, {f});")); self.arrs[k].2 = c; }
                    (Some(f), false) => { self.see(format!("sorted_by({x}, {f})"), show_arr(&c)); }
                }
            }
            20 => {
                // The same values through another history are equal and hash alike.
                let y = self.fresh("h");
                self.st(format!("let mut {y}: [{}] = [];", t.name()));
                let cut = if n == 0 { 0 } else { self.r.below(n) };
                for e in v[..cut].iter().rev() { self.st(format!("array_prepend({y}, {});", lit(e))); }
                for e in &v[cut..] { self.st(format!("array_append({y}, {});", lit(e))); }
                self.see(format!("({x} == {y}, value_hash({x}) == value_hash({y}))"), "(true, true)".into());
                if self.arrs.len() < 6 { self.arrs.push((y, t, v)); }
            }
            21 if t == T::L && n > 0 => {
                // Nested arrays change in place.
                let i = self.r.below(n);
                let e = V::I(self.tame());
                let ix = self.idx(i, n);
                let mut inner = match &v[i] { V::L(l) => l.clone(), _ => unreachable!() };
                match self.r.below(4) {
                    0 => { self.st(format!("array_append({x}[{ix}], {});", lit(&e))); inner.push(e); }
                    1 => { self.st(format!("array_prepend({x}[{ix}], {});", lit(&e))); inner.insert(0, e); }
                    2 => { let w = show_opt(inner.first()); self.see(format!("array_pop_front({x}[{ix}])"), w); if !inner.is_empty() { inner.remove(0); } }
                    _ => if !inner.is_empty() { let j = self.r.below(inner.len()); self.st(format!("{x}[{ix}][{j}] = {x}[{ix}][{j}] + 1;")); inner[j] = V::I(int(&inner[j]).wrapping_add(1)); }
                }
                self.arrs[k].2[i] = V::L(inner);
            }
            22 if t == T::L => { let flat: Vec<V> = v.iter().enumerate().flat_map(|(i, l)| { let mut o = if i > 0 { vec![V::I(9)] } else { vec![] }; if let V::L(l) = l { o.extend(l.iter().cloned()) } o }).collect(); self.decl_arr(T::I, flat, Some(format!("join({x}, [9])"))); }
            22 if t == T::S => { let s: Vec<String> = v.iter().map(show).collect(); self.see(format!("join({x}, \"--\")"), s.join("--")); }
            _ => { self.see(x, show_arr(&v)); }
        }
        if self.arrs[k].2.len() > 40 { let x = self.arrs[k].0.clone(); self.st(format!("{x} = array_slice({x}, 30, 60);")); self.arrs[k].2.drain(..30); }
    }
    fn pipeline(&mut self) {
        let (mut e, mut v): (String, Vec<i64>) = if self.r.pct(30) {
            let (a, b) = (self.r.range(-3, 6), self.r.range(-3, 8));
            if self.r.pct(50) { (format!("({a}..{b})"), if a <= b { (a..b).collect() } else { (b + 1..=a).rev().collect() }) }
            else { (format!("({a}..={b})"), if a <= b { (a..=b).collect() } else { (b..=a).rev().collect() }) }
        } else {
            let k = self.int_arr();
            (self.arrs[k].0.clone(), self.arrs[k].2.iter().map(int).collect())
        };
        e = format!("iter({e})");
        let stages = self.r.below(3);
        for _ in 0..stages {
            let c = self.tame();
            match self.r.below(8) {
                0 | 1 => { e = format!("{e} |> map(|x| x * 2 + {})", lit(&V::I(c))); v = v.iter().map(|x| x.wrapping_mul(2).wrapping_add(c)).collect(); }
                2 => { e = format!("{e} |> filter(|x| x > {})", lit(&V::I(c))); v.retain(|x| *x > c); }
                3 => { let n = self.r.below(6); e = format!("{e} |> take({n})"); v.truncate(n); }
                4 => { let n = self.r.below(4); e = format!("{e} |> skip({n})"); v = v.into_iter().skip(n).collect(); }
                5 => { let k = self.int_arr(); let y = self.arrs[k].0.clone(); e = format!("{e} |> chain({y})"); v.extend(self.arrs[k].2.iter().map(int)); }
                6 => { e = format!("{e} |> enumerate() |> map(|p| p.0 * 100 + p.1)"); v = v.iter().enumerate().map(|(i, x)| (i as i64 * 100).wrapping_add(*x)).collect(); }
                _ => { let k = self.int_arr(); let y = self.arrs[k].0.clone(); e = format!("{e} |> zip({y}) |> map(|p| p.0 - p.1)"); v = v.iter().zip(self.arrs[k].2.iter().map(int)).map(|(a, b)| a.wrapping_sub(b)).collect(); }
            }
        }
        let c = self.tame();
        let cl = lit(&V::I(c));
        match self.r.below(12) {
            0 | 1 => { self.decl_arr(T::I, v.into_iter().map(V::I).collect(), Some(format!("{e} |> collect()"))); }
            2 => { let w = v.iter().fold(0i64, |a, b| a.wrapping_add(*b)); self.see(format!("{e} |> sum()"), w.to_string()); }
            3 => { self.see(format!("{e} |> count()"), v.len().to_string()); }
            4 => { self.see(format!("{e} |> fold(1, |acc, x| acc * 3 + x)"), v.iter().fold(1i64, |a, b| a.wrapping_mul(3).wrapping_add(*b)).to_string()); }
            5 => { self.see(format!("{e} |> all(|x| x > {cl})"), v.iter().all(|x| *x > c).to_string()); }
            6 => { self.see(format!("{e} |> any(|x| x > {cl})"), v.iter().any(|x| *x > c).to_string()); }
            7 => { self.see(format!("{e} |> find(|x| x > {cl})"), show_opt(v.iter().find(|x| **x > c).map(|x| V::I(*x)).as_ref())); }
            8 => { self.see(format!("{e} |> position(|x| x == {cl})"), show_opt(v.iter().position(|x| *x == c).map(|x| V::I(x as i64)).as_ref())); }
            9 if !v.is_empty() => { self.see(format!("{e} |> minimum()"), v.iter().min().unwrap().to_string()); }
            10 if !v.is_empty() => { self.see(format!("{e} |> maximum()"), v.iter().max().unwrap().to_string()); }
            _ => {
                // A loop with an early exit over the same sequence.
                let x = self.fresh("t");
                self.st(format!("let mut {x} = 0; for q in {e} {{ if q == {cl} {{ break }}; if q < 0 {{ continue }}; {x} = {x} * 2 + q }};"));
                let mut t = 0i64;
                for q in v { if q == c { break } if q < 0 { continue } t = t.wrapping_mul(2).wrapping_add(q); }
                self.see(x, t.to_string());
            }
        }
    }
    fn set_op(&mut self) {
        if self.sets.is_empty() || (self.sets.len() < 4 && self.r.pct(12)) {
            let t = *self.r.pick(&[T::I, T::I, T::S, T::P, T::L]);
            let x = self.fresh("s");
            if self.r.pct(50) { self.st(format!("let mut {x}: HashSet<{}> = hash_set_new();", t.name())); self.sets.push((x, t, BTreeSet::new())); }
            else { let n = self.r.below(12); let v: Vec<V> = (0..n).map(|_| self.val(t)).collect(); let y = self.fresh("y"); self.st(format!("let {y}: [{0}] = {1}; let mut {x}: HashSet<{0}> = collect({y});", t.name(), lit_arr(&v))); self.sets.push((x, t, v.into_iter().collect())); }
            return
        }
        let k = self.r.below(self.sets.len());
        let (x, t, s) = self.sets[k].clone();
        match self.r.below(10) {
            0..=2 => { let e = self.val(t); let w = self.sets[k].2.insert(e.clone()); self.see(format!("set_insert({x}, {})", lit(&e)), w.to_string()); }
            3 => { let e = if !s.is_empty() && self.r.pct(50) { s.iter().nth(self.r.below(s.len())).unwrap().clone() } else { self.val(t) }; self.see(format!("set_contains({x}, {})", lit(&e)), s.contains(&e).to_string()); }
            4 => { self.see(format!("len({x})"), s.len().to_string()); }
            5 if t == T::I => { let (m, n) = (self.r.range(1, 9), self.r.range(1, 20)); self.st(format!("for i in 0..{n} {{ set_insert({x}, i * {m}); }};")); for i in 0..n { self.sets[k].2.insert(V::I(i * m)); } }
            5 | 6 if matches!(t, T::I | T::S) => { let y = self.fresh("y"); self.st(format!("let {y}: [{}] = collect({x});", t.name())); self.see(format!("sorted({y})"), show_arr(&s.iter().cloned().collect::<Vec<_>>())); }
            7 => {
                // Built in another order: equal, same hash.
                let y = self.fresh("s");
                let mut v: Vec<V> = s.iter().cloned().collect();
                self.r.shuffle(&mut v);
                let extra = self.r.pct(25);
                let drop = !extra && !v.is_empty() && self.r.pct(25);
                if drop { v.pop(); }
                self.st(format!("let mut {y}: HashSet<{}> = hash_set_new();", t.name()));
                for e in &v { self.st(format!("set_insert({y}, {});", lit(e))); }
                let mut m: BTreeSet<V> = v.into_iter().collect();
                if extra { let e = self.val(t); self.st(format!("set_insert({y}, {});", lit(&e))); m.insert(e); }
                let q = m == s;
                self.see(format!("({x} == {y}, {y} == {x})"), format!("({q}, {q})"));
                if q { self.see(format!("value_hash({x}) == value_hash({y})"), "true".into()); }
            }
            8 => {
                let y = self.fresh("s");
                let e = self.val(t);
                self.st(format!("let mut {y} = {x}; set_insert({y}, {});", lit(&e)));
                let mut m = s.clone();
                m.insert(e);
                self.see(format!("(len({x}), len({y}), {x} == {y})"), format!("({}, {}, {})", s.len(), m.len(), s == m));
            }
            _ if t == T::I => { let y = self.fresh("t"); self.st(format!("let mut {y} = 0; for e in {x} {{ {y} = {y} + e }};")); self.see(y, s.iter().fold(0i64, |a, b| a.wrapping_add(int(b))).to_string()); }
            _ => { self.see(format!("count({x})"), s.len().to_string()); }
        }
    }
    fn map_op(&mut self) {
        if self.maps.is_empty() || (self.maps.len() < 4 && self.r.pct(12)) {
            let (kt, vt) = *self.r.pick(&[(T::I, T::S), (T::S, T::I), (T::I, T::L), (T::P, T::I), (T::S, T::O), (T::L, T::S)]);
            let x = self.fresh("m");
            self.st(format!("let mut {x}: HashMap<{}, {}> = hash_map_new();", kt.name(), vt.name()));
            self.maps.push((x, kt, vt, BTreeMap::new()));
            return
        }
        let k = self.r.below(self.maps.len());
        let (x, kt, vt, m) = self.maps[k].clone();
        let key = if !m.is_empty() && self.r.pct(45) { m.keys().nth(self.r.below(m.len())).unwrap().clone() } else { self.val(kt) };
        match self.r.below(10) {
            0..=2 => { let e = self.val(vt); let old = self.maps[k].3.insert(key.clone(), e.clone()); self.see(format!("map_insert({x}, {}, {})", lit(&key), lit(&e)), show_opt(old.as_ref())); }
            3 | 4 => { self.see(format!("map_get({x}, {})", lit(&key)), show_opt(m.get(&key))); }
            5 => { self.see(format!("(map_contains_key({x}, {}), len({x}))", lit(&key)), format!("({}, {})", m.contains_key(&key), m.len())); }
            6 => { let e = m.get(&key).filter(|_| self.r.pct(50)).cloned().unwrap_or_else(|| self.val(vt)); self.see(format!("map_contains_key_value({x}, {}, {})", lit(&key), lit(&e)), (m.get(&key) == Some(&e)).to_string()); }
            7 if matches!(kt, T::I | T::S) => {
                let y = self.fresh("y");
                self.st(format!("let {y}: [({}, {})] = collect({x});", kt.name(), vt.name()));
                let w = format!("[{}]", m.iter().map(|(a, b)| format!("({}, {})", show(a), show(b))).collect::<Vec<_>>().join(", "));
                self.see(format!("sorted_by({y}, |p, q| cmp(p.0, q.0))"), w);
            }
            8 => {
                let y = self.fresh("m");
                self.st(format!("let mut {y}: HashMap<{}, {}> = hash_map_new();", kt.name(), vt.name()));
                let mut v: Vec<(V, V)> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
                self.r.shuffle(&mut v);
                let mut other = m.clone();
                if !v.is_empty() && self.r.pct(35) { let i = self.r.below(v.len()); let e = self.val(vt); other.insert(v[i].0.clone(), e.clone()); v[i].1 = e; }
                for (a, b) in &v { self.st(format!("map_insert({y}, {}, {});", lit(a), lit(b))); }
                let q = other == m;
                self.see(format!("({x} == {y}, {y} == {x})"), format!("({q}, {q})"));
                if q { self.see(format!("value_hash({x}) == value_hash({y})"), "true".into()); }
            }
            9 if (kt, vt) == (T::I, T::S) => { let (a, n) = (self.r.range(1, 5), self.r.range(1, 18)); self.st(format!("for i in 0..{n} {{ map_insert({x}, i * {a}, to_string(i)); }};")); for i in 0..n { self.maps[k].3.insert(V::I(i * a), V::S(i.to_string())); } }
            _ => {
                let y = self.fresh("m");
                let e = self.val(vt);
                self.st(format!("let mut {y} = {x}; map_insert({y}, {}, {});", lit(&key), lit(&e)));
                let mut o = m.clone();
                o.insert(key.clone(), e);
                self.see(format!("(len({x}), len({y}), {x} == {y}, map_get({y}, {}), map_get({x}, {}))", lit(&key), lit(&key)), format!("({}, {}, {}, {}, {})", m.len(), o.len(), m == o, show_opt(o.get(&key)), show_opt(m.get(&key))));
            }
        }
    }
    fn fail_op(&mut self) {
        let k = self.arr();
        let (x, _, v) = self.arrs[k].clone();
        let n = v.len() as i64;
        let i = if self.r.pct(50) { n + self.r.range(0, 2) } else { -n - 1 - self.r.range(0, 2) };
        self.st(format!("host::emits(to_string({x}[{i}]));"));
        self.failure = Some(format!("Aborted(Some(\"Array access out of bounds: index {i} for length {n}\"))"));
    }
}
pub struct Case { pub src: String, pub want: Vec<String>, pub failure: Option<String> }
pub fn generate(r: &mut Rng) -> Case {
    let top = if r.pct(25) { 50 } else { 22 };
    let n = 8 + r.below(top);
    let mix = r.below(4);
    let mut g = G { r, src: String::new(), want: vec![], arrs: vec![], sets: vec![], maps: vec![], n: 0, failure: None };
    for _ in 0..n {
        let w = g.r.below(10);
        match (mix, w) {
            (0, 0..=6) | (1, 0..=2) | (2, 0..=1) | (3, 0..=3) => g.array_op(),
            (0, 7..=8) | (3, 4..=9) => if g.r.pct(60) { g.pipeline() } else { g.array_op() },
            (1, 3..=8) => g.set_op(),
            (2, 2..=8) => g.map_op(),
            _ => { let k = g.r.below(4); match k { 0 => g.set_op(), 1 => g.map_op(), 2 => g.pipeline(), _ => g.array_op() } }
        }
    }
    for i in 0..g.arrs.len() { let (x, _, v) = g.arrs[i].clone(); g.see(x, show_arr(&v)); }
    if g.r.pct(15) { g.fail_op() }
    g.src.push_str("()\n");
    Case { src: g.src, want: g.want, failure: g.failure }
}

fn worker(c: &mut Ctx) {
    let mut sess = Sess::new();
    while let Some(i) = c.take() {
        let mut r = c.rng(i);
        let k = generate(&mut r);
        c.eval();
        c.current(&k.src);
        let t0 = std::time::Instant::now();
        let o = match guarded(|| sess.compile(&k.src)) {
            Err(x) => { c.violation_on(&format!("compiler:{}", sig_of_panic(&x)), &k.src, &format!("compiler panicked: {x}\n{}", k.src)); c.stop_session(&mut sess); continue }
            Ok(Err(e)) => { c.count("rejected"); c.violation_on("rejected", &k.src, &format!("rejected: {e}\n{}", k.src)); continue }
            Ok(Ok(o)) => o,
        };
        if c.verbose { println!("compile {:?}, {} lines", t0.elapsed(), k.src.lines().count()) }
        c.add("compile_ms", t0.elapsed().as_millis() as u64);
        let Some(e) = o.expr else { continue };
        let want = match &k.failure { Some(f) => Res::Fail(f.clone()), None => Res::Val("()".into()) };
        let mut ok = true;
        for md in MODES {
            let t1 = std::time::Instant::now();
            let ran = guarded(|| sess.run_discard(o.module_id, e, md, limits(5_000_000)));
            if c.verbose { println!("{} {:?}", md.name(), t1.elapsed()) }
            match ran {
                Err(x) => { c.violation_on(&format!("panic:{}", sig_of_panic(&x)), &k.src, &format!("{} panicked: {x}\n{}", md.name(), k.src)); c.stop_session(&mut sess); ok = false; break }
                Ok(x) => {
                    let log: Vec<String> = x.host_log().iter().map(|e| match e { crate::host::Ev::EmitS(s) => s.clone(), e => format!("{e:?}") }).collect();
                    if let Some(j) = (0..log.len().max(k.want.len())).find(|j| log.get(*j) != k.want.get(*j)) {
                        let line = k.src.lines().filter(|l| l.starts_with("host::emits")).nth(j).unwrap_or("");
                        c.violation_on(&format!("observation:{}", md.name()), &k.src, &format!("{}: observation {j} is {:?}, expected {:?}, at {line}\n{}\nended with {}", md.name(), log.get(j), k.want.get(j), k.src, x.res.show()));
                        ok = false; break
                    }
                    if x.res != want { c.violation_on(&format!("result:{}", md.name()), &k.src, &format!("{}: {} expected {}\n{}", md.name(), x.res.show(), want.show(), k.src)); ok = false; break }
                    c.add("observations", log.len() as u64);
                }
            }
        }
        if ok {
            c.nontrivial(fnv(k.src.as_bytes()));
            c.count(if k.failure.is_some() { "failures" } else { "values" });
            for w in &k.want { c.seen("observations", fnv(w.as_bytes())); }
            c.sample(|| format!("{}\n=> {:?}", k.src, k.want));
        }
        if sess.cases > 3000 { sess = Sess::new(); }
    }
}
