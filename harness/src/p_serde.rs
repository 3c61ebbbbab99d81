//! A13: serialization: round trips, encodings, and decoding of arbitrary text, against a reference
//! data model with its own encoders and parsers.
use crate::obs::*;
use crate::sup::*;
use crate::tv::*;
use crate::util::*;

pub fn prop() -> Prop {
    Prop {
        id: "A13",
        level: "exploration",
        rule: "a case is a generated program with its own type declarations that encodes, decodes and compares values of generated types, and decodes JSON and data text that a reference parser and decoder judge; non-trivial when all execution paths ran it and every observation was compared; distinct by program text",
        secs: (100, 840),
        cases: (1500, 1 << 40),
        crash: true,
        hang: false,
        assumptions: &["nesting depth of decoded text is small", "tuples and pairs with extra elements, and repeated keys, decode as the current code does"],
        worker: |c| worker_with(c, FIXED, generate),
        floor: 200,
    }
}
const FIXED: &[(&str, &str, &[&str])] = &[
    ("half decoded set element", "let h: HashSet<(int, string)> = json_decode(\"[[1]]\");\n", &["!"]),
    ("variant named like a data text word", "enum K { null, On }\nlet b: K = data_text_decode(data_text_encode(K::null));\nhost::emits(to_string(b == K::null))", &["true"]),
];
#[derive(Clone, PartialEq, Debug)]
pub enum D { Null, Unit, Bool(bool), Int(i64), Float(f64), Str(String), Arr(Vec<D>), Tup(Vec<D>), Rec(Vec<(String, D)>), Set(Vec<D>), Map(Vec<(D, D)>), Var(String, Box<D>) }

fn ser(w: &World, t: &T, v: &V) -> D {
    let list = |ts: &[T], vs: &[V]| ts.iter().zip(vs).map(|(t, v)| ser(w, t, v)).collect::<Vec<_>>();
    let rec = |fs: &[(String, T)], vs: &[V]| { let mut x: Vec<(String, D)> = fs.iter().zip(vs).map(|(f, v)| (f.0.clone(), ser(w, &f.1, v))).collect(); x.sort_by(|a, b| a.0.cmp(&b.0)); D::Rec(x) };
    match (t, v) {
        (_, V::Unit) => D::Unit, (_, V::Bool(b)) => D::Bool(*b), (_, V::Int(i)) => D::Int(*i), (_, V::Float(f)) => D::Float(*f), (_, V::Str(s)) => D::Str(s.clone()),
        (T::Tup(t), V::Tup(v)) => D::Tup(list(t, v)),
        (T::Rec(t), V::Rec(v)) => rec(t, v),
        (T::Arr(t), V::Arr(v)) => D::Arr(v.iter().map(|v| ser(w, t, v)).collect()),
        (T::Opt(_), V::Opt(None)) => D::Var("None".into(), Box::new(D::Unit)),
        (T::Opt(t), V::Opt(Some(v))) => D::Var("Some".into(), Box::new(D::Tup(vec![ser(w, t, v)]))),
        (T::Set(t), V::Set(v)) => D::Set(v.iter().map(|v| ser(w, t, v)).collect()),
        (T::Map(k, t), V::Map(v)) => D::Map(v.iter().map(|(a, b)| (ser(w, k, a), ser(w, t, b))).collect()),
        (T::Named(k, _), V::Named(c, v)) => {
            let d = &w.decls[*k];
            let x = match w.shape(t, *c) { Shape::Unit => D::Unit, Shape::Tup(ts) => D::Tup(list(&ts, v)), Shape::Rec(fs) => rec(&fs, v) };
            if d.is_enum { D::Var(d.cases[*c].0.clone(), Box::new(x)) } else { x }
        }
        _ => unreachable!(),
    }
}
/// Decoding guided by the expected type.
fn de(w: &World, t: &T, d: &D) -> Result<V, ()> {
    let tup = |ts: &[T], d: &D| -> Result<Vec<V>, ()> {
        let one;
        let xs = match d { D::Tup(x) | D::Arr(x) => x, D::Rec(_) => { one = vec![d.clone()]; &one } _ => return Err(()) };
        if xs.len() < ts.len() { return Err(()) }
        ts.iter().zip(xs).map(|(t, d)| de(w, t, d)).collect()
    };
    let rec = |fs: &[(String, T)], d: &D| -> Result<Vec<V>, ()> {
        let D::Rec(xs) = d else { return Err(()) };
        fs.iter().map(|f| de(w, &f.1, &xs.iter().find(|x| x.0 == f.0).ok_or(())?.1)).collect()
    };
    let var = |d: &D| -> Result<(String, D), ()> {
        match d {
            D::Var(n, p) => Ok((n.clone(), (**p).clone())),
            D::Rec(xs) => {
                let Some((_, D::Str(n))) = xs.iter().find(|x| x.0 == "type") else { return Err(()) };
                Ok((n.clone(), xs.iter().find(|x| x.0 == "data").map(|x| x.1.clone()).unwrap_or(D::Unit)))
            }
            _ => Err(()),
        }
    };
    Ok(match t {
        T::Unit => match d { D::Unit | D::Null => V::Unit, D::Arr(x) if x.is_empty() => V::Unit, _ => return Err(()) },
        T::Bool => if let D::Bool(b) = d { V::Bool(*b) } else { return Err(()) },
        T::Int => match d { D::Int(i) => V::Int(*i), D::Float(f) => V::Int(f.round() as i64), _ => return Err(()) },
        T::Float => match d { D::Float(f) => V::Float(*f), D::Int(i) => V::Float(*i as f64), _ => return Err(()) },
        T::Str => if let D::Str(s) = d { V::Str(s.clone()) } else { return Err(()) },
        T::Tup(ts) => V::Tup(tup(ts, d)?),
        T::Rec(fs) => V::Rec(rec(fs, d)?),
        T::Arr(t) => if let D::Arr(x) = d { V::Arr(x.iter().map(|d| de(w, t, d)).collect::<Result<_, _>>()?) } else { return Err(()) },
        T::Opt(t) => { let (n, p) = var(d)?; match n.as_str() { "None" => V::Opt(None), "Some" => V::Opt(Some(Box::new(tup(&[(**t).clone()], &p)?.remove(0)))), _ => return Err(()) } }
        T::Set(t) => match d { D::Set(x) | D::Arr(x) => { let mut s: Vec<V> = vec![]; for d in x { let v = de(w, t, d)?; if !s.iter().any(|e| w.eq(e, &v)) { s.push(v) } } V::Set(s) } _ => return Err(()) },
        T::Map(k, t) => {
            let mut s: Vec<(V, V)> = vec![];
            let mut put = |a: V, b: V| { match s.iter().position(|e| w.eq(&e.0, &a)) { Some(i) => s[i].1 = b, None => s.push((a, b)) } };
            match d {
                D::Map(x) => for (a, b) in x { put(de(w, k, a)?, de(w, t, b)?) },
                D::Arr(x) => for p in x { let (D::Tup(q) | D::Arr(q)) = p else { return Err(()) }; if q.len() < 2 { return Err(()) } put(de(w, k, &q[0])?, de(w, t, &q[1])?) },
                _ => return Err(()),
            }
            V::Map(s)
        }
        T::Named(k, _) => {
            let dd = &w.decls[*k];
            let (c, p) = if dd.is_enum { let (n, p) = var(d)?; (dd.cases.iter().position(|c| c.0 == n).ok_or(())?, p) } else { (0, d.clone()) };
            V::Named(c, match w.shape(t, c) { Shape::Unit => vec![], Shape::Tup(ts) => tup(&ts, &p)?, Shape::Rec(fs) => rec(&fs, &p)? })
        }
        T::Mk | T::Par(_) => unreachable!(),
    })
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), '\u{8}' => o.push_str("\\b"), '\u{c}' => o.push_str("\\f"), c if c.is_control() => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o + "\""
}
fn seq(o: &str, x: Vec<String>, sep: &str, c: &str) -> String { format!("{o}{}{c}", x.join(sep)) }
fn json(d: &D) -> String {
    match d {
        D::Null | D::Unit => "null".into(), D::Bool(b) => b.to_string(), D::Int(i) => i.to_string(), D::Float(f) => f.to_string(), D::Str(s) => jstr(s),
        D::Arr(x) | D::Tup(x) | D::Set(x) => seq("[", x.iter().map(json).collect(), ",", "]"),
        D::Rec(x) => seq("{", x.iter().map(|(n, d)| format!("{}:{}", jstr(n), json(d))).collect(), ",", "}"),
        D::Map(x) => seq("[", x.iter().map(|(a, b)| format!("[{},{}]", json(a), json(b))).collect(), ",", "]"),
        D::Var(n, p) => if **p == D::Unit { format!("{{\"type\":{}}}", jstr(n)) } else { format!("{{\"type\":{},\"data\":{}}}", jstr(n), json(p)) },
    }
}
fn text(d: &D) -> String {
    let kw = |k: &str, x: Vec<String>| if x.is_empty() { format!("{k}{{}}") } else { seq(&format!("{k}{{ "), x, ", ", " }") };
    match d {
        D::Null => "null".into(), D::Unit => "()".into(), D::Bool(b) => b.to_string(), D::Int(i) => i.to_string(), D::Float(f) => f.to_string(),
        D::Str(s) => quote(s),
        D::Arr(x) => seq("[", x.iter().map(text).collect(), ", ", "]"),
        D::Tup(x) => seq("(", x.iter().map(text).collect(), ", ", if x.len() == 1 { ",)" } else { ")" }),
        D::Set(x) => kw("set ", x.iter().map(text).collect()),
        D::Rec(x) => kw("", x.iter().map(|(n, d)| format!("{n}: {}", text(d))).collect()),
        D::Map(x) => kw("map ", x.iter().map(|(a, b)| format!("{} => {}", text(a), text(b))).collect()),
        D::Var(n, p) => match &**p { D::Unit => n.clone(), D::Tup(x) => seq(&format!("{n}("), x.iter().map(text).collect(), ", ", ")"), p => format!("{n}({})", text(p)) },
    }
}
/// Source text building the data value itself.
fn dlit(d: &D) -> String {
    let l = |x: &[D]| if x.is_empty() { "([]: [DataValue])".to_string() } else { seq("[", x.iter().map(dlit).collect(), ", ", "]") };
    match d {
        D::Null => "DataValue::Null".into(), D::Unit => "DataValue::Unit".into(), D::Bool(b) => format!("DataValue::Bool({b})"), D::Int(i) => format!("DataValue::Int({i})"),
        D::Float(f) => { let s = f.abs().to_string(); format!("DataValue::Float({}{}{})", if *f < 0.0 { "-" } else { "" }, s, if s.contains('.') { "" } else { ".0" }) }
        D::Str(s) => format!("DataValue::String({})", quote(s)),
        D::Arr(x) => format!("DataValue::Array({})", l(x)), D::Tup(x) => format!("DataValue::Tuple({})", l(x)), D::Set(x) => format!("DataValue::Set({})", l(x)),
        D::Rec(x) => format!("DataValue::Record({})", if x.is_empty() { "([]: [(string, DataValue)])".into() } else { seq("[", x.iter().map(|(n, d)| format!("({}, {})", quote(n), dlit(d))).collect(), ", ", "]") }),
        D::Map(x) => format!("DataValue::Map({})", if x.is_empty() { "([]: [(DataValue, DataValue)])".into() } else { seq("[", x.iter().map(|(a, b)| format!("({}, {})", dlit(a), dlit(b))).collect(), ", ", "]") }),
        D::Var(n, p) => format!("DataValue::Variant {{ name: {}, payload: {} }}", quote(n), dlit(p)),
    }
}
fn small(d: &D) -> usize { match d { D::Arr(x) | D::Tup(x) | D::Set(x) => 1 + x.iter().map(small).sum::<usize>(), D::Rec(x) => 1 + x.iter().map(|e| small(&e.1)).sum::<usize>(), D::Map(x) => 1 + x.iter().map(|e| small(&e.0) + small(&e.1)).sum::<usize>(), D::Var(_, p) => 1 + small(p), _ => 1 } }
fn has_big_float(d: &D) -> bool { match d { D::Float(f) => f.abs() >= 9.2e18 || f.abs() < 1e-30, D::Arr(x) | D::Tup(x) | D::Set(x) => x.iter().any(has_big_float), D::Rec(x) => x.iter().any(|e| has_big_float(&e.1)), D::Map(x) => x.iter().any(|e| has_big_float(&e.0) || has_big_float(&e.1)), D::Var(_, p) => has_big_float(p), _ => false } }
fn int_extreme(d: &D) -> bool { match d { D::Int(i) => *i == i64::MIN, D::Arr(x) | D::Tup(x) | D::Set(x) => x.iter().any(int_extreme), D::Rec(x) => x.iter().any(|e| int_extreme(&e.1)), D::Map(x) => x.iter().any(|e| int_extreme(&e.0) || int_extreme(&e.1)), D::Var(_, p) => int_extreme(p), _ => false } }

// ---- reference parsers ----
struct P<'a> { s: &'a [char], i: usize }
impl P<'_> {
    fn peek(&self) -> Option<char> { self.s.get(self.i).copied() }
    fn eat(&mut self, c: char) -> bool { if self.peek() == Some(c) { self.i += 1; true } else { false } }
    fn need(&mut self, c: char) -> Result<(), ()> { if self.eat(c) { Ok(()) } else { Err(()) } }
    fn word(&mut self, w: &str) -> bool { let w: Vec<char> = w.chars().collect(); if self.s[self.i..].starts_with(&w) { self.i += w.len(); true } else { false } }
    fn digits(&mut self) -> usize { let k = self.i; while self.peek().is_some_and(|c| c.is_ascii_digit()) { self.i += 1 } self.i - k }
    fn jws(&mut self) { while matches!(self.peek(), Some(' ' | '\n' | '\r' | '\t')) { self.i += 1 } }
    fn hex4(&mut self) -> Result<u32, ()> { let mut x = 0; for _ in 0..4 { x = x * 16 + self.peek().and_then(|c| c.to_digit(16)).ok_or(())?; self.i += 1 } Ok(x) }
    fn jstring(&mut self) -> Result<String, ()> {
        self.need('"')?;
        let mut o = String::new();
        loop {
            let c = self.peek().ok_or(())?;
            self.i += 1;
            match c {
                '"' => return Ok(o),
                c if (c as u32) < 32 => return Err(()),
                '\\' => {
                    let e = self.peek().ok_or(())?;
                    self.i += 1;
                    match e {
                        '"' | '\\' | '/' => o.push(e),
                        'b' => o.push('\u{8}'), 'f' => o.push('\u{c}'), 'n' => o.push('\n'), 'r' => o.push('\r'), 't' => o.push('\t'),
                        'u' => {
                            let x = self.hex4()?;
                            let x = if (0xD800..0xDC00).contains(&x) { if !self.word("\\u") { return Err(()) } let y = self.hex4()?; if !(0xDC00..0xE000).contains(&y) { return Err(()) } 0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00) } else { x };
                            o.push(char::from_u32(x).ok_or(())?);
                        }
                        _ => return Err(()),
                    }
                }
                c => o.push(c),
            }
        }
    }
    fn jvalue(&mut self) -> Result<D, ()> {
        self.jws();
        let d = match self.peek().ok_or(())? {
            '"' => D::Str(self.jstring()?),
            '[' => {
                self.i += 1;
                let mut x = vec![];
                self.jws();
                if !self.eat(']') { loop { x.push(self.jvalue()?); if self.eat(']') { break } self.need(',')?; } }
                D::Arr(x)
            }
            '{' => {
                self.i += 1;
                let mut x = vec![];
                self.jws();
                if !self.eat('}') { loop { self.jws(); let k = self.jstring()?; self.jws(); self.need(':')?; x.push((k, self.jvalue()?)); if self.eat('}') { break } self.need(',')?; } }
                D::Rec(x)
            }
            't' => if self.word("true") { D::Bool(true) } else { return Err(()) },
            'f' => if self.word("false") { D::Bool(false) } else { return Err(()) },
            'n' => if self.word("null") { D::Null } else { return Err(()) },
            '-' | '0'..='9' => {
                let k = self.i;
                self.eat('-');
                if !self.eat('0') && self.digits() == 0 { return Err(()) }
                if self.eat('.') && self.digits() == 0 { return Err(()) }
                if self.eat('e') || self.eat('E') { if !self.eat('+') { self.eat('-'); } if self.digits() == 0 { return Err(()) } }
                let t: String = self.s[k..self.i].iter().collect();
                if let Ok(i) = t.parse::<i64>() { D::Int(i) } else { let f = t.parse::<f64>().map_err(|_| ())?; if !f.is_finite() { return Err(()) } D::Float(f) }
            }
            _ => return Err(()),
        };
        self.jws();
        Ok(d)
    }
    // data text
    fn ws(&mut self) -> Result<(), ()> {
        loop {
            while self.peek().is_some_and(char::is_whitespace) { self.i += 1 }
            if self.word("//") { while self.peek().is_some_and(|c| c != '\n') { self.i += 1 } }
            else if self.word("/*") { while !self.word("*/") { if self.peek().is_none() { return Err(()) } self.i += 1 } }
            else { return Ok(()) }
        }
    }
    fn tstring(&mut self) -> Result<String, ()> {
        self.need('"')?;
        let mut o = String::new();
        loop {
            let c = self.peek().ok_or(())?;
            self.i += 1;
            match c {
                '"' => return Ok(o),
                '\\' => {
                    let e = self.peek().ok_or(())?;
                    self.i += 1;
                    o.push(match e {
                        '"' | '\\' => e, 'n' => '\n', 'r' => '\r', 't' => '\t',
                        'u' => {
                            self.need('{')?;
                            let k = self.i;
                            while self.peek().is_some_and(|c| c != '}') { self.i += 1 }
                            let t: String = self.s[k..self.i].iter().collect();
                            self.need('}')?;
                            char::from_u32(u32::from_str_radix(&t, 16).map_err(|_| ())?).ok_or(())?
                        }
                        _ => return Err(()),
                    })
                }
                c => o.push(c),
            }
        }
    }
    fn ident(&mut self) -> Result<String, ()> {
        let k = self.i;
        if !self.peek().is_some_and(|c| c == '_' || c.is_ascii_alphabetic()) { return Err(()) }
        while self.peek().is_some_and(|c| c == '_' || c.is_ascii_alphanumeric()) { self.i += 1 }
        Ok(self.s[k..self.i].iter().collect())
    }
    fn many(&mut self, close: char, f: &mut dyn FnMut(&mut Self) -> Result<(), ()>) -> Result<bool, ()> {
        loop {
            self.ws()?;
            if self.eat(close) { return Ok(true) }
            f(self)?;
            self.ws()?;
            if self.eat(',') { continue }
            self.need(close)?;
            return Ok(false)
        }
    }
    fn tvalue(&mut self) -> Result<D, ()> {
        self.ws()?;
        let c = self.peek().ok_or(())?;
        let mut xs = vec![];
        Ok(match c {
            '"' => D::Str(self.tstring()?),
            '[' => { self.i += 1; self.many(']', &mut |p| { xs.push(p.tvalue()?); Ok(()) })?; D::Arr(xs) }
            '(' => {
                self.i += 1;
                let comma = self.many(')', &mut |p| { xs.push(p.tvalue()?); Ok(()) })?;
                if xs.is_empty() { D::Unit } else if xs.len() == 1 && !comma { xs.pop().unwrap() } else { D::Tup(xs) }
            }
            '{' => {
                self.i += 1;
                let mut x = vec![];
                self.many('}', &mut |p| { let n = if p.peek() == Some('"') { p.tstring()? } else { p.ident()? }; p.ws()?; p.need(':')?; x.push((n, p.tvalue()?)); Ok(()) })?;
                D::Rec(x)
            }
            '-' | '0'..='9' => {
                let k = self.i;
                self.eat('-');
                self.digits();
                let mut fl = false;
                if self.eat('.') { fl = true; self.digits(); }
                if self.eat('e') || self.eat('E') { fl = true; if !self.eat('+') { self.eat('-'); } self.digits(); }
                let t: String = self.s[k..self.i].iter().collect();
                match t.parse::<i64>() { Ok(i) if !fl => D::Int(i), _ => { let f = t.parse::<f64>().map_err(|_| ())?; if !f.is_finite() { return Err(()) } D::Float(f) } }
            }
            _ => {
                let n = self.ident()?;
                match n.as_str() {
                    "null" => D::Null, "true" => D::Bool(true), "false" => D::Bool(false),
                    "set" => { self.ws()?; self.need('{')?; self.many('}', &mut |p| { xs.push(p.tvalue()?); Ok(()) })?; D::Set(xs) }
                    "map" => { self.ws()?; self.need('{')?; let mut x = vec![]; self.many('}', &mut |p| { let a = p.tvalue()?; p.ws()?; if !p.word("=>") { return Err(()) } x.push((a, p.tvalue()?)); Ok(()) })?; D::Map(x) }
                    _ => {
                        self.ws()?;
                        if !self.eat('(') { return Ok(D::Var(n, Box::new(D::Unit))) }
                        self.many(')', &mut |p| { xs.push(p.tvalue()?); Ok(()) })?;
                        D::Var(n, Box::new(if xs.is_empty() { D::Unit } else if xs.len() == 1 && matches!(xs[0], D::Rec(_)) { xs.pop().unwrap() } else { D::Tup(xs) }))
                    }
                }
            }
        })
    }
}
pub fn parse(s: &str, js: bool) -> Result<D, ()> {
    let c: Vec<char> = s.chars().collect();
    let mut p = P { s: &c, i: 0 };
    let d = if js { p.jvalue()? } else { let d = p.tvalue()?; p.ws()?; d };
    if p.i == c.len() { Ok(d) } else { Err(()) }
}

// ---- hostile text ----
/// The data value with one structural change.
fn wreck(r: &mut Rng, d: &D) -> D {
    if r.pct(25) {
        return match r.below(9) { 0 => D::Null, 1 => D::Unit, 2 => D::Bool(true), 3 => D::Int(r.range(-3, 3)), 4 => D::Float(r.range(-9, 9) as f64 / 4.0 + 0.125), 5 => D::Str(World::string(r)), 6 => D::Arr(vec![d.clone()]), 7 => D::Tup(vec![d.clone()]), _ => D::Arr(vec![]) }
    }
    let mut d = d.clone();
    match &mut d {
        D::Arr(x) | D::Tup(x) | D::Set(x) => { if x.is_empty() { return D::Arr(vec![D::Int(1)]) } let i = r.below(x.len()); match r.below(4) { 0 => { x.remove(i); } _ => x[i] = wreck(r, &x[i]) } }
        D::Rec(x) => { if x.is_empty() { return D::Null } let i = r.below(x.len()); match r.below(5) { 0 => { x.remove(i); } 1 => r.shuffle(x), 2 => x.push(("extra".into(), D::Int(1))), _ => x[i].1 = wreck(r, &x[i].1) } }
        D::Map(x) => { if x.is_empty() { return D::Arr(vec![]) } let i = r.below(x.len()); if r.pct(50) { x[i].1 = wreck(r, &x[i].1) } else { x[i].0 = wreck(r, &x[i].0) } }
        D::Var(n, p) => match r.below(5) { 0 => *n = ["Some", "None", "Aa", "Bee", "Cc", "Zzz"][r.below(6)].into(), _ => **p = wreck(r, p) },
        _ => return D::Arr(vec![d]),
    }
    d
}
fn pretty(r: &mut Rng, d: &D, js: bool, o: &mut String) {
    fn gap(r: &mut Rng, js: bool, o: &mut String) {
        if r.pct(75) { return }
        if js || r.pct(60) { o.push_str(*r.pick(&[" ", "\n", "\t", "  \r\n"])) } else { o.push_str(*r.pick(&["/* ] } */", "// x\n", "/**/", "\u{a0}"])) }
    }
    fn string(r: &mut Rng, s: &str, js: bool, o: &mut String) {
        o.push('"');
        for c in s.chars() {
            let must = c == '"' || c == '\\' || (js && (c as u32) < 32);
            if !must && r.pct(80) { o.push(c); continue }
            if js {
                if r.pct(30) { match c { '\n' => { o.push_str("\\n"); continue } '/' => { o.push_str("\\/"); continue } '"' => { o.push_str("\\\""); continue } '\\' => { o.push_str("\\\\"); continue } _ => {} } }
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) { if r.pct(50) { o.push_str(&format!("\\u{u:04x}")) } else { o.push_str(&format!("\\u{u:04X}")) } }
            } else { o.push_str(&format!("\\u{{{:x}}}", c as u32)) }
        }
        o.push('"');
    }
    gap(r, js, o);
    let trail = |r: &mut Rng, n: usize| !js && n > 0 && r.pct(25);
    match d {
        D::Null => o.push_str("null"),
        D::Unit => o.push_str(if js { "null" } else { "()" }),
        D::Bool(b) => o.push_str(&b.to_string()),
        D::Int(i) => { if r.pct(10) { o.push_str(&format!("{i}.0")) } else if r.pct(10) { o.push_str(&format!("{i}e0")) } else { o.push_str(&i.to_string()) } }
        D::Float(f) => { if r.pct(25) { o.push_str(&format!("{f:e}")) } else { o.push_str(&f.to_string()) } }
        D::Str(s) => string(r, s, js, o),
        D::Arr(x) | D::Tup(x) | D::Set(x) => {
            let (a, b) = match d { _ if js => ("[", "]"), D::Tup(_) => ("(", ")"), D::Set(_) => ("set {", "}"), _ => ("[", "]") };
            o.push_str(a);
            for (i, d) in x.iter().enumerate() { if i > 0 { o.push(',') } pretty(r, d, js, o) }
            if trail(r, x.len()) || (!js && x.len() == 1 && matches!(d, D::Tup(_))) { o.push(',') }
            gap(r, js, o);
            o.push_str(b);
        }
        D::Rec(x) => {
            o.push('{');
            for (i, (n, d)) in x.iter().enumerate() {
                if i > 0 { o.push(',') }
                gap(r, js, o);
                if js || r.pct(20) { string(r, n, js, o) } else { o.push_str(n) }
                gap(r, js, o);
                o.push(':');
                pretty(r, d, js, o);
            }
            if trail(r, x.len()) { o.push(',') }
            gap(r, js, o);
            o.push('}');
        }
        D::Map(x) => {
            o.push_str(if js { "[" } else { "map {" });
            for (i, (a, b)) in x.iter().enumerate() {
                if i > 0 { o.push(',') }
                if js { o.push('[') }
                pretty(r, a, js, o);
                gap(r, js, o);
                o.push_str(if js { "," } else { "=>" });
                pretty(r, b, js, o);
                if js { o.push(']') }
            }
            if trail(r, x.len()) { o.push(',') }
            o.push_str(if js { "]" } else { "}" });
        }
        D::Var(n, p) => {
            if js {
                let ty = |r: &mut Rng, o: &mut String| { o.push_str("\"type\":"); string(r, n, js, o) };
                o.push('{');
                if **p == D::Unit { ty(r, o) } else if r.pct(30) { o.push_str("\"data\":"); pretty(r, p, js, o); o.push(','); ty(r, o) } else { ty(r, o); o.push_str(",\"data\":"); pretty(r, p, js, o) }
                o.push('}');
            } else {
                o.push_str(n);
                gap(r, js, o);
                match &**p {
                    D::Unit => {}
                    D::Tup(x) => { o.push('('); for (i, d) in x.iter().enumerate() { if i > 0 { o.push(',') } pretty(r, d, js, o) } if trail(r, x.len()) { o.push(',') } o.push(')') }
                    p => { o.push('('); pretty(r, p, js, o); o.push(')') }
                }
            }
        }
    }
    gap(r, js, o);
}
fn corrupt(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(2) {
        let i = r.below(c.len() + 1);
        let x = *r.pick(&['{', '}', '[', ']', '(', ')', ',', ':', '"', '\\', '0', '1', '-', '.', 'e', '+', ' ', 'n', 't', 'u', '/', '*', '=', '\u{1}', 'é', '\u{feff}', 'S', '_']);
        match r.below(5) { 0 => c.truncate(i), 1 if i < c.len() => { c.remove(i); } 2 if i < c.len() => c[i] = x, 3 if i < c.len() => { let y = c[i]; c.insert(i, y) } _ => c.insert(i.min(c.len()), x) }
    }
    c.into_iter().collect()
}
pub fn generate(r: &mut Rng) -> Case {
    let mut k = Case::default();
    let o = Opts { floats: true, colls: true, unit: true, mk: false, keys: false };
    let w = World::generate(r, &o);
    let mut body = String::new();
    let mut ob = |k: &mut Case, body: &mut String, x: String, want: String| { body.push_str(&format!("host::emits({x});\n")); k.want.push(want) };
    let n = 1 + r.below(3);
    for j in 0..n {
        let t = w.ty(r, &o, 3);
        let v = w.value(r, &t);
        let d = ser(&w, &t, &v);
        let tt = w.ty_text(&t);
        let lit = { let f = &mut k.feed; let mut leaf = |v: &V| leaf(v, f, r.pct(20)); w.lit(&t, &v, &mut leaf) };
        body.push_str(&format!("let v{j}: {tt} = {lit};\n"));
        let ordered = w.show(&t, &v).is_some();
        for js in [true, false] {
            let m = if js { "json" } else { "data_text" };
            if r.pct(75) {
                let e = if js { json(&d) } else { text(&d) };
                body.push_str(&format!("let e{j}{m} = {m}_encode(v{j});\n"));
                if ordered { ob(&mut k, &mut body, format!("e{j}{m}"), e) }
                body.push_str(&format!("let w{j}{m}: {tt} = {m}_decode(e{j}{m});\n"));
                if let Some(s) = w.show(&t, &v) { ob(&mut k, &mut body, format!("to_string(w{j}{m})"), s) }
                ob(&mut k, &mut body, format!("to_string(w{j}{m} == v{j})"), "true".into());
                k.tags.push(if js { "json_round_trip" } else { "data_text_round_trip" });
            }
        }
        if r.pct(35) && small(&d) < 14 && !has_big_float(&d) && !int_extreme(&d) {
            if ordered { ob(&mut k, &mut body, format!("to_string(serialize(v{j}) == {})", dlit(&d)), "true".into()) }
            ob(&mut k, &mut body, format!("to_string((deserialize({}): {tt}) == v{j})", dlit(&d)), "true".into());
            k.tags.push("data_value_round_trip");
        }
    }
    // text from elsewhere
    for j in 0..1 + r.below(4) {
        let t = w.ty(r, &o, 3);
        let v = w.value(r, &t);
        let mut d = ser(&w, &t, &v);
        let js = r.pct(50);
        for _ in 0..r.below(3) { d = wreck(r, &d) }
        let mut s = String::new();
        pretty(r, &d, js, &mut s);
        if r.pct(30) { s = corrupt(r, &s) }
        let got = parse(&s, js).and_then(|d| de(&w, &t, &d));
        k.feed.2.push(s);
        let (tt, m) = (w.ty_text(&t), if js { "json" } else { "data_text" });
        body.push_str(&format!("let h{j}: {tt} = {m}_decode(host::feeds({}));\n", k.feed.2.len() - 1));
        match got {
            Err(()) => { k.failure = Some("*".into()); k.hir_only = !plain(&t); k.tags.push(if js { "json_refused" } else { "data_text_refused" }); break }
            Ok(v) => {
                k.tags.push(if js { "json_accepted" } else { "data_text_accepted" });
                if let Some(s) = w.show(&t, &v) { ob(&mut k, &mut body, format!("to_string(h{j})"), s) }
                if !has_nan(&v) { let lit = { let f = &mut k.feed; let mut l = |v: &V| leaf(v, f, true); w.lit(&t, &v, &mut l) }; ob(&mut k, &mut body, format!("to_string(h{j} == {lit})"), "true".into()) }
            }
        }
    }
    k.src = format!("{}{body}()\n", w.decls_text());
    k
}
/// A refused value of this type leaves nothing half built behind.
fn plain(t: &T) -> bool { match t { T::Unit | T::Bool | T::Int | T::Float | T::Str => true, T::Arr(t) => matches!(**t, T::Unit | T::Bool | T::Int | T::Float | T::Str), _ => false } }
fn has_nan(_: &V) -> bool { false }
/// Scalar text: a literal, or an input.
pub fn leaf(v: &V, f: &mut (Vec<i64>, Vec<f64>, Vec<String>), input: bool) -> String {
    match v {
        V::Bool(b) => b.to_string(),
        V::Int(i) if input || *i == i64::MIN => { f.0.push(*i); format!("host::feed({})", f.0.len() - 1) }
        V::Int(i) => if *i < 0 { format!("({i})") } else { i.to_string() },
        V::Float(x) if input || x.abs() >= 9.2e18 || (*x == 0.0 && x.is_sign_negative()) => { f.1.push(*x); format!("host::feedf({})", f.1.len() - 1) }
        V::Float(x) => { let s = x.abs().to_string(); let s = if s.contains('.') { s } else { format!("{s}.0") }; if *x < 0.0 { format!("(-{s})") } else { s } }
        V::Str(s) if input => { f.2.push(s.clone()); format!("host::feeds({})", f.2.len() - 1) }
        V::Str(s) => quote(s),
        _ => unreachable!(),
    }
}
