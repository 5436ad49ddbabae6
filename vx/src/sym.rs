// Symbolic execution of straight-line/branching matrix code with constant indices.  Its output is a
// *proposal*: the Verus contract makes the code prove it, and the SMT obligations are about it.
use std::collections::BTreeMap;
use std::rc::Rc;
use syn::{BinOp, Expr, Pat, Stmt, UnOp};

#[derive(Debug)]
pub enum E { At(usize, usize), Zero, One, Add(R, R), Sub(R, R), Mul(R, R), Div(R, R), Neg(R), Named(String, R) }
pub type R = Rc<E>;
#[derive(Clone, Debug)]
pub enum C { Eq(R, R), Not(Box<C>), And(Box<C>, Box<C>), Or(Box<C>, Box<C>), True }
#[derive(Clone)]
struct St { vars: BTreeMap<String, R>, mat: BTreeMap<(usize, usize), R> }
pub struct Path { pub cond: C, pub ok: bool, pub mat: BTreeMap<(usize, usize), R> }
pub struct Sym { pub n: usize, pub names: Vec<(String, R)>, pub paths: Vec<Path>, prefix: String }

fn tok<T: quote::ToTokens>(t: &T) -> String { quote::quote!(#t).to_string().split_whitespace().collect() }

impl Sym {
    pub fn new(n: usize, prefix: &str) -> Sym { Sym { n, names: vec![], paths: vec![], prefix: prefix.into() } }
    fn lit(e: &Expr) -> Result<usize, String> {
        match e {
            Expr::Lit(l) => match &l.lit { syn::Lit::Int(i) => i.base10_parse().map_err(|e| e.to_string()), _ => Err("index".into()) },
            Expr::Paren(p) => Self::lit(&p.expr),
            _ => Err(format!("non-constant index {}", tok(e))),
        }
    }
    fn cell(&self, e: &Expr) -> Result<(usize, usize), String> {
        if let Expr::Index(ix) = e {
            if tok(&*ix.expr) == "self" {
                if let Expr::Tuple(t) = &*ix.index {
                    if t.elems.len() == 2 {
                        let c = (Self::lit(&t.elems[0])?, Self::lit(&t.elems[1])?);
                        if c.0 < self.n && c.1 < self.n { return Ok(c); }
                    }
                }
            }
            if tok(&*ix.expr) == "self.vals" {
                let k = Self::lit(&ix.index)?;
                if k < self.n * self.n { return Ok((k / self.n, k % self.n)); }
            }
        }
        Err(format!("not a cell: {}", tok(e)))
    }
    fn ev(&self, e: &Expr, st: &St) -> Result<R, String> {
        Ok(match e {
            Expr::Paren(p) => self.ev(&p.expr, st)?,
            Expr::Group(p) => self.ev(&p.expr, st)?,
            Expr::Block(b) => {
                let mut st2 = st.clone();
                let (last, init) = b.block.stmts.split_last().ok_or("empty block")?;
                for s in init {
                    let Stmt::Local(l) = s else { return Err("block statement".into()) };
                    let e = &l.init.as_ref().ok_or("let")?.expr;
                    let mut p = &l.pat;
                    if let Pat::Type(t) = p { p = &t.pat; }
                    match (p, &**e) {
                        (Pat::Ident(id), e) => { let v = self.ev(e, &st2)?; st2.vars.insert(id.ident.to_string(), v); }
                        (Pat::Tuple(pt), Expr::Tuple(et)) if pt.elems.len() == et.elems.len() => {
                            let vs: Result<Vec<R>, String> = et.elems.iter().map(|e| self.ev(e, &st2)).collect();
                            for (p, v) in pt.elems.iter().zip(vs?) {
                                if let Pat::Ident(id) = p { st2.vars.insert(id.ident.to_string(), v); } else { return Err("pattern".into()) }
                            }
                        }
                        _ => return Err("block let".into()),
                    }
                }
                match last { Stmt::Expr(e, None) => self.ev(e, &st2)?, _ => return Err("block value".into()) }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => Rc::new(E::Neg(self.ev(&u.expr, st)?)),
            Expr::Binary(b) => {
                let (l, r) = (self.ev(&b.left, st)?, self.ev(&b.right, st)?);
                Rc::new(match b.op {
                    BinOp::Add(_) => E::Add(l, r), BinOp::Sub(_) => E::Sub(l, r),
                    BinOp::Mul(_) => E::Mul(l, r), BinOp::Div(_) => E::Div(l, r),
                    _ => return Err("operator".into()),
                })
            }
            Expr::Call(c) => match tok(&*c.func).as_str() { "T::zero" => Rc::new(E::Zero), "T::one" => Rc::new(E::One), s => return Err(format!("call {s}")) },
            Expr::Path(p) => st.vars.get(&tok(p)).cloned().ok_or(format!("unknown {}", tok(p)))?,
            Expr::Index(_) => { let c = self.cell(e)?; st.mat[&c].clone() }
            _ => return Err(format!("unsupported expression {}", tok(e))),
        })
    }
    fn cond(&self, e: &Expr, st: &St) -> Result<C, String> {
        Ok(match e {
            Expr::Paren(p) => self.cond(&p.expr, st)?,
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => C::Not(Box::new(self.cond(&u.expr, st)?)),
            Expr::Binary(b) => match b.op {
                BinOp::Eq(_) => C::Eq(self.ev(&b.left, st)?, self.ev(&b.right, st)?),
                BinOp::Ne(_) => C::Not(Box::new(C::Eq(self.ev(&b.left, st)?, self.ev(&b.right, st)?))),
                BinOp::And(_) => C::And(Box::new(self.cond(&b.left, st)?), Box::new(self.cond(&b.right, st)?)),
                BinOp::Or(_) => C::Or(Box::new(self.cond(&b.left, st)?), Box::new(self.cond(&b.right, st)?)),
                _ => return Err("condition".into()),
            },
            Expr::MethodCall(m) if m.method == "is_zero" && m.args.is_empty() => C::Eq(self.ev(&m.receiver, st)?, Rc::new(E::Zero)),
            _ => return Err(format!("condition {}", tok(e))),
        })
    }
    fn name(&mut self, v: R) -> R {
        match &*v {
            E::At(..) | E::Zero | E::One | E::Named(..) => v,
            _ => { let n = format!("{}_v{}", self.prefix, self.names.len()); self.names.push((n.clone(), v.clone())); Rc::new(E::Named(n, v)) }
        }
    }
    /// touches no element (the result of this execution is a proposal that is proved afterwards)
    fn inert(e: &Expr) -> bool {
        match e {
            Expr::Lit(_) | Expr::Path(_) | Expr::Field(_) => true,
            Expr::Tuple(t) => t.elems.iter().all(Self::inert),
            Expr::Reference(r) => r.mutability.is_none() && Self::inert(&r.expr),
            Expr::Call(c) => c.args.iter().all(|a| Self::inert(a) && tok(a) != "self"),
            Expr::Block(b) => b.block.stmts.is_empty(),
            Expr::Binary(b) => Self::inert(&b.left) && Self::inert(&b.right) && !matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_)),
            Expr::Paren(p) => Self::inert(&p.expr),
            _ => false,
        }
    }
    fn fin(&mut self, e: &Expr, st: &St, pc: &C) -> Result<(), String> {
        let s = tok(e);
        let ok = if s == "Ok(())" { true } else if s.starts_with("Err(") { false } else { return Err(format!("result {s}")) };
        self.paths.push(Path { cond: pc.clone(), ok, mat: st.mat.clone() });
        Ok(())
    }
    fn run(&mut self, stmts: &[Stmt], mut st: St, pc: C) -> Result<(), String> {
        for (i, s) in stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    let init = &l.init.as_ref().ok_or("uninitialised let")?.expr;
                    let mut p = &l.pat;
                    if let Pat::Type(t) = p { p = &t.pat; }
                    match (p, &**init) {
                        (Pat::Ident(id), e) => match self.ev(e, &st) {
                            Ok(v) => { let v = self.name(v); st.vars.insert(id.ident.to_string(), v); }
                            // (what it binds must not matter: a later use fails)
                            Err(m) => if Self::inert(e) { st.vars.remove(&id.ident.to_string()); } else { return Err(m) }
                        },
                        (Pat::Wild(_), e) if Self::inert(e) => {}
                        (Pat::Tuple(pt), Expr::Tuple(et)) if pt.elems.len() == et.elems.len() => {
                            let vs: Result<Vec<R>, String> = et.elems.iter().map(|e| self.ev(e, &st)).collect();
                            for (p, v) in pt.elems.iter().zip(vs?) {
                                if let Pat::Ident(id) = p { let v = self.name(v); st.vars.insert(id.ident.to_string(), v); } else { return Err("pattern".into()) }
                            }
                        }
                        _ => return Err("let pattern".into()),
                    }
                }
                Stmt::Expr(Expr::If(ife), _) => {
                    let c = self.cond(&ife.cond, &st)?;
                    let rest = &stmts[i + 1..];
                    let t: Vec<Stmt> = ife.then_branch.stmts.iter().cloned().chain(rest.iter().cloned()).collect();
                    self.run(&t, st.clone(), C::And(Box::new(pc.clone()), Box::new(c.clone())))?;
                    let e: Vec<Stmt> = match &ife.else_branch {
                        None => rest.to_vec(),
                        Some((_, b)) => match &**b {
                            Expr::Block(b) => b.block.stmts.iter().cloned().chain(rest.iter().cloned()).collect(),
                            other => std::iter::once(Stmt::Expr(other.clone(), None)).chain(rest.iter().cloned()).collect(),
                        },
                    };
                    return self.run(&e, st, C::And(Box::new(pc), Box::new(C::Not(Box::new(c)))));
                }
                Stmt::Expr(Expr::Return(r), _) => return self.fin(r.expr.as_ref().ok_or("return")?, &st, &pc),
                Stmt::Expr(Expr::Block(b), semi) => {
                    // inlined helper in statement or tail position
                    let mut t: Vec<Stmt> = b.block.stmts.clone();
                    if semi.is_some() || i + 1 < stmts.len() { if let Some(Stmt::Expr(_, None)) = t.last() { t.pop(); } }
                    t.extend(stmts[i + 1..].iter().cloned());
                    return self.run(&t, st, pc);
                }
                Stmt::Expr(Expr::Assign(a), _) => {
                    let v = self.ev(&a.right, &st)?;
                    match &*a.left {
                        Expr::Path(p) => { let v = self.name(v); st.vars.insert(tok(p), v); }
                        e => { let c = self.cell(e)?; st.mat.insert(c, v); }
                    }
                }
                Stmt::Expr(Expr::Binary(b), Some(_)) if !Self::inert(&Expr::Binary(b.clone())) => {
                    let r = self.ev(&b.right, &st)?;
                    let l = self.ev(&b.left, &st)?;
                    let v = Rc::new(match b.op {
                        BinOp::AddAssign(_) => E::Add(l, r), BinOp::SubAssign(_) => E::Sub(l, r), BinOp::MulAssign(_) => E::Mul(l, r),
                        _ => return Err("op-assign".into()),
                    });
                    match &*b.left {
                        Expr::Path(p) => { let v = self.name(v); st.vars.insert(tok(p), v); }
                        e => { let c = self.cell(e)?; st.mat.insert(c, v); }
                    }
                }
                Stmt::Expr(e, Some(_)) if Self::inert(e) => {}
                Stmt::Item(_) => {}
                Stmt::Macro(m) if tok(&m.mac.path).contains("debug_assert") => {}
                Stmt::Expr(e, None) => return self.fin(e, &st, &pc),
                _ => return Err(format!("statement {}", tok(s))),
            }
        }
        Err("fell off the end".into())
    }
    pub fn exec(&mut self, b: &syn::Block) -> Result<(), String> {
        let mut mat = BTreeMap::new();
        for i in 0..self.n { for j in 0..self.n { mat.insert((i, j), Rc::new(E::At(i, j))); } }
        self.run(&b.stmts, St { vars: BTreeMap::new(), mat }, C::True)
    }
    // ---- Verus text
    pub fn v(&self, e: &E) -> String {
        match e {
            E::At(i, j) => format!("m.at({i}, {j})"), E::Zero => "T::spec_zero()".into(), E::One => "T::spec_one()".into(),
            E::Add(a, b) => format!("{}.add_spec({})", self.v(a), self.v(b)), E::Sub(a, b) => format!("{}.sub_spec({})", self.v(a), self.v(b)),
            E::Mul(a, b) => format!("{}.mul_spec({})", self.v(a), self.v(b)), E::Div(a, b) => format!("{}.div_spec({})", self.v(a), self.v(b)),
            E::Neg(a) => format!("{}.neg_spec()", self.v(a)), E::Named(n, _) => format!("{n}(m)"),
        }
    }
    pub fn vc(&self, c: &C) -> String {
        match c {
            C::True => "true".into(), C::Eq(a, b) => format!("({} == {})", self.v(a), self.v(b)), C::Not(c) => format!("!{}", self.vc(c)),
            C::And(a, b) => format!("({} && {})", self.vc(a), self.vc(b)), C::Or(a, b) => format!("({} || {})", self.vc(a), self.vc(b)),
        }
    }
    pub fn verus(&self) -> String {
        let p = &self.prefix;
        let mut o = String::new();
        for (n, e) in &self.names { o += &format!("pub open spec fn {n}<T: Element<T>>(m: Matrix<T>) -> T {{ {} }}\n", self.v(e)); }
        let ok: Vec<String> = self.paths.iter().filter(|p| p.ok).map(|p| self.vc(&p.cond)).collect();
        o += &format!("pub open spec fn {p}_ok<T: Element<T>>(m: Matrix<T>) -> bool {{ {} }}\n", if ok.is_empty() { "false".into() } else { ok.join(" || ") });
        let mut post = vec![];
        for i in 0..self.n { for j in 0..self.n {
            let mut b = "m.at(0, 0)".to_string();
            for pa in self.paths.iter().filter(|p| p.ok).rev() {
                let x = self.v(&pa.mat[&(i, j)]);
                b = if self.paths.iter().filter(|p| p.ok).count() == 1 { x } else { format!("if {} {{ {x} }} else {{ {b} }}", self.vc(&pa.cond)) };
            }
            o += &format!("pub open spec fn {p}_e{i}{j}<T: Element<T>>(m: Matrix<T>) -> T {{ {b} }}\n");
            post.push(format!("f.at({i}, {j}) == {p}_e{i}{j}(m)"));
        } }
        o += &format!("pub open spec fn {p}_post<T: Element<T>>(m: Matrix<T>, f: Matrix<T>) -> bool {{ {} }}\n", post.join(" && "));
        o
    }
    // ---- SMT text (reals)
    pub fn s(&self, e: &E) -> String {
        match e {
            E::At(i, j) => format!("a{i}{j}"), E::Zero => "0.0".into(), E::One => "1.0".into(),
            E::Add(a, b) => format!("(+ {} {})", self.s(a), self.s(b)), E::Sub(a, b) => format!("(- {} {})", self.s(a), self.s(b)),
            E::Mul(a, b) => format!("(* {} {})", self.s(a), self.s(b)), E::Div(a, b) => format!("(/ {} {})", self.s(a), self.s(b)),
            E::Neg(a) => format!("(- {})", self.s(a)), E::Named(n, _) => n.clone(),
        }
    }
    pub fn sc(&self, c: &C) -> String {
        match c {
            C::True => "true".into(), C::Eq(a, b) => format!("(= {} {})", self.s(a), self.s(b)), C::Not(c) => format!("(not {})", self.sc(c)),
            C::And(a, b) => format!("(and {} {})", self.sc(a), self.sc(b)), C::Or(a, b) => format!("(or {} {})", self.sc(a), self.sc(b)),
        }
    }
    fn divs(&self, e: &E, out: &mut Vec<String>) {
        match e {
            E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) => { self.divs(a, out); self.divs(b, out) }
            E::Div(a, b) => { self.divs(a, out); self.divs(b, out); out.push(self.s(b)) }
            E::Neg(a) => self.divs(a, out),
            _ => {}
        }
    }
    pub fn report(&self) -> serde_json::Value {
        let names: Vec<_> = self.names.iter().map(|(n, e)| { let mut d = vec![]; self.divs(e, &mut d); serde_json::json!({"name": n, "smt": self.s(e), "divs": d}) }).collect();
        let paths: Vec<_> = self.paths.iter().map(|p| {
            let cells: Vec<Vec<serde_json::Value>> = (0..self.n).map(|i| (0..self.n).map(|j| {
                let e = &p.mat[&(i, j)];
                // top-level quotient exposed so that the checker can clear denominators
                let (num, den) = match &**e { E::Div(a, b) => (self.s(a), self.s(b)), _ => (self.s(e), "1.0".to_string()) };
                let mut d = vec![]; self.divs(e, &mut d);
                serde_json::json!({"smt": self.s(e), "num": num, "den": den, "divs": d})
            }).collect()).collect();
            serde_json::json!({"ok": p.ok, "cond": self.sc(&p.cond), "cells": cells})
        }).collect();
        serde_json::json!({"prefix": self.prefix, "n": self.n, "names": names, "paths": paths})
    }
}
