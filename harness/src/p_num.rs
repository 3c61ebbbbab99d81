//! A14: arithmetic on `int`, `float` and `bool` against Rust's own.
use crate::obs::*;
use crate::sup::*;
use crate::util::*;

pub fn prop() -> Prop {
    Prop {
        id: "A14",
        level: "exploration",
        rule: "a case is a generated program evaluating a dozen arithmetic expressions over literals, run-time inputs, variables and parameters; non-trivial when all execution paths ran it and every result was compared with the reference; distinct by program text",
        secs: (90, 840),
        cases: (9000, 1 << 40),
        crash: true,
        hang: false,
        assumptions: &["the elementary functions of the host's mathematical library are the reference for the standard library's", "expressions whose exact result involves a negative zero, and shifts by more than the width, are left out"],
        worker: |c| worker_with(c, FIXED, generate),
        floor: 300,
    }
}
const FIXED: &[(&str, &str, &[&str])] = &[
    ("float literals whose integer part needs more than 63 bits", "host::emits(to_string(9223372036854775808.5));\nhost::emits(to_string(100000000000000000000.0))", &["9223372036854775808", "100000000000000000000"]),
    ("plain float literals", "host::emits(to_string(255.5));\nhost::emits(to_string(1.05))", &["255.5", "1.05"]),
];
#[derive(Clone, Copy, PartialEq, Debug)]
enum T { I, F, B }
#[derive(Clone, Copy, PartialEq, Debug)]
enum V { I(i64), F(f64), B(bool) }
type Ev = Result<V, String>;
struct G<'a> { r: &'a mut Rng, k: Case, vars: Vec<(String, T, V)>, n: usize, funs: String }
/// Expression text with its value; `None` value: not expressible (retry).
type X = (String, Ev);
struct Retry;
fn fin(x: f64) -> Result<V, Retry> { if x.is_nan() { Err(Retry) } else { let x = x.clamp(-f64::MAX, f64::MAX); if x == 0.0 && x.is_sign_negative() { Err(Retry) } else { Ok(V::F(x)) } } }
fn show(v: V) -> String { match v { V::I(i) => i.to_string(), V::F(f) => f.to_string(), V::B(b) => b.to_string() } }
fn ord(o: std::cmp::Ordering) -> &'static str { match o { std::cmp::Ordering::Less => "Less", std::cmp::Ordering::Equal => "Equal", _ => "Greater" } }
impl G<'_> {
    fn int(&mut self) -> i64 {
        match self.r.below(10) {
            0 => *self.r.pick(&[i64::MAX, -i64::MAX, i64::MIN, i64::MAX - 1, 1 << 32, 1 << 62, -(1 << 62), 1 << 53, (1 << 53) + 1, u32::MAX as i64]),
            1 => self.r.next() as i64,
            2 => (self.r.next() >> self.r.below(63)) as i64,
            3 => 0, 4 => 1, 5 => -1,
            _ => self.r.range(-12, 40),
        }
    }
    fn float(&mut self) -> f64 {
        let x = match self.r.below(10) {
            0 => *self.r.pick(&[f64::MAX, -f64::MAX, 1e300, -1e300, 1e-300, f64::MIN_POSITIVE, 9007199254740993.0, 9223372036854775807.0, -9223372036854775808.0, 1e19, 0.1, 0.30000000000000004, 2.5, -2.5, 0.5, -0.5, 1.5, -1.5]),
            1 => f64::from_bits(self.r.next()),
            2 => 0.0, 3 => 1.0, 4 => -1.0,
            5 => self.r.range(-100, 100) as f64,
            _ => self.r.range(-4000, 4000) as f64 / *self.r.pick(&[2.0, 4.0, 8.0, 10.0, 3.0, 7.0]),
        };
        if x.is_finite() && !(x == 0.0 && x.is_sign_negative()) { x } else { 3.25 }
    }
    fn leaf(&mut self, t: T) -> X {
        let vs: Vec<usize> = (0..self.vars.len()).filter(|i| self.vars[*i].1 == t).collect();
        if !vs.is_empty() && self.r.pct(45) { let i = *self.r.pick(&vs); return (self.vars[i].0.clone(), Ok(self.vars[i].2)) }
        match t {
            T::I => {
                let v = self.int();
                if v == i64::MIN || self.r.pct(35) { self.k.feed.0.push(v); return (format!("host::feed({})", self.k.feed.0.len() - 1), Ok(V::I(v))) }
                let m = v.unsigned_abs();
                let l = match self.r.below(6) { 0 => format!("0x{m:x}"), 1 => format!("0b{m:b}"), 2 => format!("0x{m:X}"), _ => m.to_string() };
                (if v < 0 { format!("(-{l})") } else { l }, Ok(V::I(v)))
            }
            T::F => {
                let v = self.float();
                let l = format!("{}", v.abs());
                if self.r.pct(40) || v.abs() >= 9.2e18 { self.k.feed.1.push(v); return (format!("host::feedf({})", self.k.feed.1.len() - 1), Ok(V::F(v))) }
                let l = if l.contains('.') { l } else { format!("{l}.0") };
                (if v < 0.0 { format!("(-{l})") } else { l }, Ok(V::F(v)))
            }
            T::B => {
                let v = self.r.pct(50);
                if self.r.pct(40) { self.k.feed.0.push(v as i64); return (format!("(host::feed({}) == 1)", self.k.feed.0.len() - 1), Ok(V::B(v))) }
                (v.to_string(), Ok(V::B(v)))
            }
        }
    }
    /// Two strictly evaluated operands: the first failure is the result.
    fn two(&mut self, t: T, d: u32) -> Result<(String, String, Result<(V, V), String>), Retry> {
        let (a, x) = self.e(t, d - 1)?;
        let (b, y) = self.e(t, d - 1)?;
        Ok((a, b, x.and_then(|x| y.map(|y| (x, y)))))
    }
    fn e(&mut self, t: T, d: u32) -> Result<X, Retry> {
        if d == 0 || self.r.pct(12) { return Ok(self.leaf(t)) }
        if self.r.pct(9) {
            let (c, b) = self.e(T::B, d - 1)?;
            let (x, v) = self.e(t, d - 1)?;
            let (y, w) = self.e(t, d - 1)?;
            let r = match b { Err(e) => Err(e), Ok(V::B(true)) => v, _ => w };
            return Ok((format!("(if {c} {{ {x} }} else {{ {y} }})"), r))
        }
        match t {
            T::I => self.ei(d),
            T::F => self.ef(d),
            T::B => self.eb(d),
        }
    }
    fn ei(&mut self, d: u32) -> Result<X, Retry> {
        const W: fn(&str) -> Ev = |k| Err(k.to_string());
        Ok(match self.r.below(28) {
            0..=11 => {
                let op = self.r.below(11);
                let (a, b, v) = self.two(T::I, d)?;
                let s = match op {
                    0 | 1 => format!("({a} + {b})"), 2 => format!("({a} - {b})"), 3 => format!("({a} * {b})"),
                    4 => format!("idiv({a}, {b})"), 5 => format!("rem({a}, {b})"), 6 => format!("mod({a}, {b})"), 7 => format!("idiv_euclid({a}, {b})"),
                    8 => format!("min({a}, {b})"), 9 => format!("max({a}, {b})"), _ => format!("bit_xor({a}, {b})"),
                };
                let v = v.and_then(|v| { let (V::I(a), V::I(b)) = v else { unreachable!() }; match op {
                    0 | 1 => Ok(V::I(a.wrapping_add(b))), 2 => Ok(V::I(a.wrapping_sub(b))), 3 => Ok(V::I(a.wrapping_mul(b))),
                    4 => if b == 0 { W("DivisionByZero") } else { Ok(V::I(a.wrapping_div(b))) },
                    5 => if b == 0 { W("RemainderByZero") } else { Ok(V::I(a.wrapping_rem(b))) },
                    6 => if b == 0 { W("RemainderByZero") } else { Ok(V::I(a.wrapping_rem_euclid(b))) },
                    7 => if b == 0 { W("DivisionByZero") } else { Ok(V::I(a.wrapping_div_euclid(b))) },
                    8 => Ok(V::I(a.min(b))), 9 => Ok(V::I(a.max(b))), _ => Ok(V::I(a ^ b)) } });
                (s, v)
            }
            12..=15 => {
                let op = self.r.below(8);
                let (a, v) = self.e(T::I, d - 1)?;
                let s = match op { 0 | 7 => format!("(-{a})"), 1 => format!("abs({a})"), 2 => format!("signum({a})"), 3 => format!("bit_not({a})"), 4 => format!("count_ones({a})"), 5 => format!("count_zeros({a})"), _ => format!("(({a} as float) as int)") };
                (s, v.map(|v| { let V::I(a) = v else { unreachable!() }; V::I(match op { 0 | 7 => a.wrapping_neg(), 1 => a.wrapping_abs(), 2 => a.signum(), 3 => !a, 4 => a.count_ones() as i64, 5 => a.count_zeros() as i64, _ => (a as f64) as i64 }) }))
            }
            16..=19 => {
                let op = self.r.below(8);
                let (a, v) = self.e(T::I, d - 1)?;
                let n = if op >= 4 { self.r.range(-70, 130) } else { self.r.range(-63, 63) };
                let ns = if self.r.pct(30) { self.k.feed.0.push(n); format!("host::feed({})", self.k.feed.0.len() - 1) } else if n < 0 { format!("({n})") } else { n.to_string() };
                let f = match op { 0 | 1 => "shift_left", 2 | 3 => "shift_right", 4 => "rotate_left", 5 => "rotate_right", 6 => "set_bit", _ => "clear_bit" };
                let bit = |n: i64| if (0..64).contains(&n) { 1i64.wrapping_shl(n as u32) } else { 0 };
                (format!("{f}({a}, {ns})"), v.map(|v| { let V::I(a) = v else { unreachable!() }; V::I(match op {
                    0 | 1 => if n < 0 { a >> -n } else { a.wrapping_shl(n as u32) },
                    2 | 3 => if n < 0 { a.wrapping_shl(-n as u32) } else { a >> n },
                    4 => a.rotate_left(n.rem_euclid(64) as u32), 5 => a.rotate_right(n.rem_euclid(64) as u32),
                    6 => a | bit(n), _ => a & !bit(n) }) }))
            }
            20 => { let (a, b, v) = self.two(T::I, d)?; let and = self.r.pct(50); (format!("{}({a}, {b})", if and { "bit_and" } else { "bit_or" }), v.map(|v| { let (V::I(a), V::I(b)) = v else { unreachable!() }; V::I(if and { a & b } else { a | b }) })) }
            21 => { let n = self.r.range(-3, 70); (format!("(bit({n}): int)"), Ok(V::I(if (0..64).contains(&n) { 1i64.wrapping_shl(n as u32) } else { 0 }))) }
            22..=24 => {
                let op = self.r.below(4);
                let (a, v) = self.e(T::F, d - 1)?;
                (match op { 0 => format!("({a} as int)"), 1 => format!("round({a})"), 2 => format!("floor({a})"), _ => format!("ceil({a})") },
                 v.map(|v| { let V::F(a) = v else { unreachable!() }; V::I(match op { 0 => a as i64, 1 => a.round() as i64, 2 => a.floor() as i64, _ => a.ceil() as i64 }) }))
            }
            25 => {
                let (lo, hi) = (self.int(), self.int());
                let (lo, hi) = (lo.min(hi).max(-i64::MAX), lo.max(hi).max(-i64::MAX));
                let (a, v) = self.e(T::I, d - 1)?;
                (format!("clamp({a}, ({lo}), ({hi}))"), v.map(|v| { let V::I(a) = v else { unreachable!() }; V::I(a.clamp(lo, hi)) }))
            }
            26 => {
                // Sums over ranges, in both directions.
                let (a, b) = (self.r.range(-9, 12), self.r.range(-9, 12));
                let inc = self.r.pct(40);
                let s = format!("fold(({a}){}({b}), 0, |x, y| x * 3 + y)", if inc { "..=" } else { ".." });
                let mut acc = 0i64;
                let mut i = a;
                loop {
                    if !inc && i == b { break }
                    acc = acc.wrapping_mul(3).wrapping_add(i);
                    if i == b { break }
                    i += if b > a { 1 } else { -1 };
                }
                (s, Ok(V::I(acc)))
            }
            _ => {
                // A call: the operands are parameters in the callee.
                let t = *self.r.pick(&[T::I, T::F]);
                self.n += 1;
                let f = format!("f{}", self.n);
                let (a, x) = self.e(T::I, d - 1)?;
                let (b, y) = self.e(t, d - 1)?;
                if x.is_err() || y.is_err() { return Ok((a, x)) }
                let (x, y) = (x.unwrap(), y.unwrap());
                let saved = std::mem::replace(&mut self.vars, vec![("p".into(), T::I, x), ("q".into(), t, y)]);
                let body = self.e(T::I, (d - 1).min(3));
                self.vars = saved;
                let (body, v) = body?;
                self.funs.push_str(&format!("fn {f}(p: int, q: {}) -> int {{ {body} }}\n", if t == T::I { "int" } else { "float" }));
                (format!("{f}({a}, {b})"), v)
            }
        })
    }
    fn ef(&mut self, d: u32) -> Result<X, Retry> {
        Ok(match self.r.below(16) {
            0..=7 => {
                let op = self.r.below(9);
                let (a, b, v) = self.two(T::F, d)?;
                let s = match op { 0 | 1 => format!("({a} + {b})"), 2 => format!("({a} - {b})"), 3 | 4 => format!("({a} * {b})"), 5 | 6 => format!("({a} / {b})"), 7 => format!("min({a}, {b})"), _ => format!("max({a}, {b})") };
                let v = match v { Err(e) => Err(e), Ok(v) => { let (V::F(a), V::F(b)) = v else { unreachable!() }; match op {
                    5 | 6 if b == 0.0 => Err("DivisionByZero".into()),
                    _ => Ok(fin(match op { 0 | 1 => a + b, 2 => a - b, 3 | 4 => a * b, 5 | 6 => a / b, 7 => a.min(b), _ => a.max(b) })?) } } };
                (s, v)
            }
            8 | 9 => {
                let (a, v) = self.e(T::I, d - 1)?;
                (format!("({a} as float)"), v.map(|v| { let V::I(a) = v else { unreachable!() }; V::F(a as f64) }))
            }
            10..=14 => {
                let (a, v) = self.e(T::F, d - 1)?;
                let f = *self.r.pick(&["-", "abs", "signum", "sqrt", "exp", "log", "sin", "cos", "tan", "atan", "asin", "acos", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"]);
                let s = if f == "-" { format!("(-{a})") } else { format!("{f}({a})") };
                let v = match v { Err(e) => Err(e), Ok(V::F(a)) => {
                    let r = match f { "-" => -a, "abs" => a.abs(), "signum" => a.signum(), "sqrt" => a.sqrt(), "exp" => a.exp(), "log" => a.ln(), "sin" => a.sin(), "cos" => a.cos(), "tan" => a.tan(), "atan" => a.atan(), "asin" => a.asin(), "acos" => a.acos(), "sinh" => a.sinh(), "cosh" => a.cosh(), "tanh" => a.tanh(), "asinh" => a.asinh(), "acosh" => a.acosh(), _ => a.atanh() };
                    let domain = matches!(f, "sqrt" | "log" | "asin" | "acos" | "acosh" | "atanh");
                    if domain && !r.is_finite() { Err("InvalidArgument(*".into()) } else { Ok(fin(r)?) }
                }
                _ => unreachable!() };
                (s, v)
            }
            _ => {
                let pow = self.r.pct(50);
                let (a, b, v) = self.two(T::F, d)?;
                let v = match v { Err(e) => Err(e), Ok(v) => { let (V::F(a), V::F(b)) = v else { unreachable!() };
                    if pow { let r = a.powf(b); if r.is_nan() { Err("InvalidArgument(*".into()) } else { Ok(fin(r)?) } } else { Ok(fin(a.atan2(b))?) } } };
                (format!("{}({a}, {b})", if pow { "pow" } else { "atan2" }), v)
            }
        })
    }
    fn eb(&mut self, d: u32) -> Result<X, Retry> {
        Ok(match self.r.below(12) {
            0..=6 => {
                let t = *self.r.pick(&[T::I, T::I, T::F, T::F, T::B]);
                let op = if t == T::B { self.r.below(2) } else { self.r.below(6) };
                let (a, b, v) = self.two(t, d)?;
                // Comparing equal values is as interesting as comparing different ones.
                let (b, v) = if self.r.pct(15) && v.is_ok() && !a.contains("host::feed") { (a.clone(), v.map(|(x, _)| (x, x))) } else { (b, v) };
                let o = match v { Ok((V::I(a), V::I(b))) => Ok(a.cmp(&b)), Ok((V::F(a), V::F(b))) => Ok(a.partial_cmp(&b).unwrap()), Ok((V::B(a), V::B(b))) => Ok(a.cmp(&b)), Err(e) => Err(e), _ => unreachable!() };
                (format!("({a} {} {b})", ["==", "!=", "<", "<=", ">", ">="][op]), o.map(|o| V::B(match op { 0 => o.is_eq(), 1 => o.is_ne(), 2 => o.is_lt(), 3 => o.is_le(), 4 => o.is_gt(), _ => o.is_ge() })))
            }
            7 | 8 => {
                let and = self.r.pct(50);
                let (a, x) = self.e(T::B, d - 1)?;
                let (b, y) = self.e(T::B, d - 1)?;
                let v = match x { Err(e) => Err(e), Ok(V::B(x)) if x != and => Ok(V::B(x)), _ => y };
                (format!("({a} {} {b})", if and { "and" } else { "or" }), v)
            }
            9 => { let (a, v) = self.e(T::B, d - 1)?; (format!("(not {a})"), v.map(|v| { let V::B(a) = v else { unreachable!() }; V::B(!a) })) }
            10 => {
                let n = self.r.range(-3, 70);
                let (a, v) = self.e(T::I, d - 1)?;
                (format!("test_bit({a}, ({n}))"), v.map(|v| { let V::I(a) = v else { unreachable!() }; V::B((0..64).contains(&n) && a >> n & 1 == 1) }))
            }
            _ => {
                let f = *self.r.pick(&["bit_and", "bit_or", "bit_xor"]);
                let (a, b, v) = self.two(T::B, d)?;
                (format!("{f}({a}, {b})"), v.map(|v| { let (V::B(a), V::B(b)) = v else { unreachable!() }; V::B(match f { "bit_and" => a & b, "bit_or" => a | b, _ => a ^ b }) }))
            }
        })
    }
}
pub fn generate(r: &mut Rng) -> Case {
    let n = 6 + r.below(10);
    let mut g = G { r, k: Case::default(), vars: vec![], n: 0, funs: String::new() };
    let mut body = String::new();
    let mut bad = 0;
    let mut i = 0;
    while i < n && bad < 200 {
        let t = *g.r.pick(&[T::I, T::I, T::I, T::F, T::F, T::B]);
        let d = g.r.range(1, 5) as u32;
        let funs = g.funs.len();
        let Ok((s, v)) = g.e(t, d) else { bad += 1; g.funs.truncate(funs); continue };
        let tn = match t { T::I => "int", T::F => "float", T::B => "bool" };
        i += 1;
        match v {
            Err(f) => {
                // Failures end a program: allow one now and then, as the last statement.
                if g.r.pct(85) { g.funs.truncate(funs); i -= 1; bad += 1; continue }
                body.push_str(&format!("host::emits(to_string(({s}: {tn})));\n"));
                g.k.failure = Some(f);
                break
            }
            Ok(v) => match g.r.below(4) {
                0 if g.vars.len() < 8 => {
                    g.n += 1;
                    let x = format!("v{}", g.n);
                    body.push_str(&format!("let {x}: {tn} = {s};\n"));
                    g.vars.push((x, t, v));
                }
                1 if t != T::B => {
                    let w = if t == T::I { V::I(g.int()) } else { V::F(g.float()) };
                    let (l, V::I(_) | V::F(_)) = (match w { V::I(x) => { g.k.feed.0.push(x); format!("host::feed({})", g.k.feed.0.len() - 1) } V::F(x) => { g.k.feed.1.push(x); format!("host::feedf({})", g.k.feed.1.len() - 1) } _ => unreachable!() }, w) else { unreachable!() };
                    let o = match (v, w) { (V::I(a), V::I(b)) => a.cmp(&b), (V::F(a), V::F(b)) => a.partial_cmp(&b).unwrap(), _ => unreachable!() };
                    body.push_str(&format!("host::emits(to_string((({s}: {tn}), cmp(({s}: {tn}), {l}))));\n"));
                    g.k.want.push(format!("({}, {})", show(v), ord(o)));
                }
                _ => { body.push_str(&format!("host::emits(to_string(({s}: {tn})));\n")); g.k.want.push(show(v)); }
            },
        }
    }
    g.k.src = format!("{}{body}()\n", g.funs);
    g.k
}
