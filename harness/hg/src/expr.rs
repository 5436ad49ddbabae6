//! Expression oracle: a random expression generator, an independent evaluator, and an independent
//! recursive-descent recogniser over words.
use hcore::Rng;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Ex { Num(f64, String), Name(String), Bin(char, Box<Ex>, Box<Ex>), Neg(Box<Ex>), Par(Box<Ex>), Call(String, Vec<Ex>) }

pub struct Env { pub names: HashMap<String, f64>, pub funcs: HashMap<String, (usize, fn(&[f64]) -> f64)> }

/// functions take their arguments in source order here
fn o_if(x: &[f64]) -> f64 {
    let (a, b) = (x[0], x[2]);
    let c = match x[1] { v if v == 1.0 => a == b, v if v == 2.0 => a <= b, v if v == 3.0 => a >= b, v if v == 4.0 => a < b, v if v == 5.0 => a > b, _ => a != b };
    if c { x[3] } else { x[4] }
}
pub fn builtins() -> HashMap<String, (usize, fn(&[f64]) -> f64)> {
    let v: Vec<(&str, usize, fn(&[f64]) -> f64)> = vec![
        ("sin", 1, |x| x[0].sin()), ("cos", 1, |x| x[0].cos()), ("tan", 1, |x| x[0].tan()), ("arcsin", 1, |x| x[0].asin()), ("arccos", 1, |x| x[0].acos()), ("arctan", 1, |x| x[0].atan()),
        ("sinh", 1, |x| x[0].sinh()), ("cosh", 1, |x| x[0].cosh()), ("tanh", 1, |x| x[0].tanh()), ("ln", 1, |x| x[0].ln()), ("log10", 1, |x| x[0].log10()), ("abs", 1, |x| x[0].abs()),
        ("log", 2, |x| x[1].log(x[0])), ("if", 5, o_if)];
    v.into_iter().map(|(n, k, f)| (n.to_string(), (k, f))).collect()
}

impl Ex {
    /// None: a division by exactly zero happened
    pub fn eval(&self, e: &Env) -> Option<f64> {
        Some(match self {
            Ex::Num(v, _) => *v,
            Ex::Name(n) => e.names[n],
            Ex::Par(x) => x.eval(e)?,
            Ex::Neg(x) => -x.eval(e)?,
            Ex::Call(n, a) => { let v: Option<Vec<f64>> = a.iter().map(|x| x.eval(e)).collect(); (e.funcs[n].1)(&v?) }
            Ex::Bin(o, a, b) => {
                let (a, b) = (a.eval(e)?, b.eval(e)?);
                match o { '+' => a + b, '-' => a - b, '*' => a * b, '/' => { if b == 0.0 { return None } a / b } _ => a.powf(b) }
            }
        })
    }
    pub fn words(&self, o: &mut Vec<String>) {
        match self {
            Ex::Num(_, s) => o.push(s.clone()),
            Ex::Name(n) => o.push(n.clone()),
            Ex::Par(x) => { o.push("(".into()); x.words(o); o.push(")".into()); }
            Ex::Neg(x) => { o.push("-".into()); x.words(o); }
            Ex::Bin(c, a, b) => { a.words(o); o.push(c.to_string()); b.words(o); }
            Ex::Call(n, a) => { o.push(n.clone()); o.push("(".into()); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(",".into()); } x.words(o); } o.push(")".into()); }
        }
    }
    pub fn vars(&self, o: &mut Vec<String>) {
        match self {
            Ex::Num(..) => {}
            Ex::Name(n) => if !o.contains(n) { o.push(n.clone()) },
            Ex::Par(x) | Ex::Neg(x) => x.vars(o),
            Ex::Bin(_, a, b) => { a.vars(o); b.vars(o); }
            Ex::Call(_, a) => a.iter().for_each(|x| x.vars(o)),
        }
    }
}

pub fn is_op(w: &str) -> bool { matches!(w, "(" | ")" | "^" | "*" | "/" | "+" | "-" | ",") }

/// Join words with random spacing; adjacent operands always get a space.
pub fn join(r: &mut Rng, w: &[String]) -> String {
    let mut s = String::new();
    let style = r.below(3);
    for (i, x) in w.iter().enumerate() {
        let need = i > 0 && !is_op(x) && !is_op(&w[i - 1]);
        if need || (i > 0 && (style == 1 || style == 2 && r.chance(30))) { s.push(' '); if r.chance(5) { s.push(' '); } }
        s += x;
    }
    if r.chance(5) { s = format!(" {s} "); }
    s
}

pub fn num(r: &mut Rng) -> Ex {
    let s = match r.below(6) { 0 => "0".into(), 1 => "1".into(), 2 | 3 => format!("{}", r.range(0, 12)), 4 => format!("{}.{}", r.range(0, 20), r.range(0, 99)), _ => format!("{:.3}", r.unit() * 10.0) };
    Ex::Num(s.parse().unwrap(), s)
}

/// level 0: sum, 1: product, 2: unary/power, 3: atom
pub fn gen(r: &mut Rng, e: &Env, depth: usize, level: u8) -> Ex {
    if depth == 0 { return atom(r, e, 0); }
    match level {
        0 => {
            if r.chance(55) { let mut x = gen(r, e, depth - 1, 1); for _ in 0..r.us(1, 2) { let o = if r.chance(50) { '+' } else { '-' }; x = Ex::Bin(o, Box::new(x), Box::new(gen(r, e, depth - 1, 1))); } x } else { gen(r, e, depth, 1) }
        }
        1 => {
            if r.chance(50) { let mut x = gen(r, e, depth - 1, 2); for _ in 0..r.us(1, 2) { let o = if r.chance(50) { '*' } else { '/' }; x = Ex::Bin(o, Box::new(x), Box::new(gen(r, e, depth - 1, 2))); } x } else { gen(r, e, depth, 2) }
        }
        2 => {
            if r.chance(20) { Ex::Neg(Box::new(gen(r, e, depth - 1, 2))) }
            else if r.chance(30) { let b = atom(r, e, depth - 1); Ex::Bin('^', Box::new(b), Box::new(gen(r, e, depth - 1, 2))) }
            else { atom(r, e, depth) }
        }
        _ => atom(r, e, depth),
    }
}
fn atom(r: &mut Rng, e: &Env, depth: usize) -> Ex {
    let k = r.below(100);
    if depth > 0 && k < 25 { return Ex::Par(Box::new(gen(r, e, depth - 1, 0))); }
    if depth > 0 && k < 45 && !e.funcs.is_empty() {
        let mut n: Vec<&String> = e.funcs.keys().collect(); n.sort();
        let f = (*r.pick(&n)).clone();
        let a = (0..e.funcs[&f].0).map(|i| if f == "if" && i == 1 { let k = r.range(0, 6); Ex::Num(k as f64, k.to_string()) } else { gen(r, e, depth - 1, 0) }).collect();
        return Ex::Call(f, a);
    }
    if k < 70 && !e.names.is_empty() { let mut n: Vec<&String> = e.names.keys().collect(); n.sort(); return Ex::Name((*r.pick(&n)).clone()); }
    num(r)
}

/// Independent parser over words: sum := prod (('+'|'-') prod)*, prod := un (('*'|'/') un)*, un := '-' un | pow, pow := atom ('^' un)?
pub struct P<'a> { pub w: &'a [String], pub i: usize, pub e: &'a Env }
impl<'a> P<'a> {
    fn peek(&self) -> &str { self.w.get(self.i).map(|s| s.as_str()).unwrap_or("") }
    pub fn all(w: &[String], e: &Env) -> Option<Ex> { let mut p = P { w, i: 0, e }; let x = p.sum()?; if p.i == w.len() { Some(x) } else { None } }
    fn sum(&mut self) -> Option<Ex> { let mut x = self.prod()?; while matches!(self.peek(), "+" | "-") { let o = self.peek().chars().next().unwrap(); self.i += 1; x = Ex::Bin(o, Box::new(x), Box::new(self.prod()?)); } Some(x) }
    fn prod(&mut self) -> Option<Ex> { let mut x = self.un()?; while matches!(self.peek(), "*" | "/") { let o = self.peek().chars().next().unwrap(); self.i += 1; x = Ex::Bin(o, Box::new(x), Box::new(self.un()?)); } Some(x) }
    fn un(&mut self) -> Option<Ex> { if self.peek() == "-" { self.i += 1; return Some(Ex::Neg(Box::new(self.un()?))); } let b = self.atom()?; if self.peek() == "^" { self.i += 1; let p = self.un()?; return Some(Ex::Bin('^', Box::new(b), Box::new(p))); } Some(b) }
    fn atom(&mut self) -> Option<Ex> {
        let w = self.peek().to_string();
        if w.is_empty() { return None; }
        if w == "(" { self.i += 1; let x = self.sum()?; if self.peek() != ")" { return None; } self.i += 1; return Some(Ex::Par(Box::new(x))); }
        if is_op(&w) { return None; }
        self.i += 1;
        if let Some((n, _)) = self.e.funcs.get(&w) {
            if self.peek() != "(" { return None; }
            self.i += 1;
            let mut a = vec![];
            if self.peek() == ")" { self.i += 1; } else {
                loop { a.push(self.sum()?); match self.peek() { "," => self.i += 1, ")" => { self.i += 1; break } _ => return None } }
            }
            return if a.len() == *n { Some(Ex::Call(w, a)) } else { None };
        }
        if self.e.names.contains_key(&w) { return Some(Ex::Name(w)); }
        if w.chars().next().unwrap().is_ascii_digit() || w.starts_with('.') { if let Ok(v) = w.parse::<f64>() { return Some(Ex::Num(v, w)); } }
        None
    }
}
pub fn same(a: f64, b: f64) -> bool { a == b || a.is_nan() && b.is_nan() }
