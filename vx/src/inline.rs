// Calls to functions of the same file that carry no contract in the template are inlined, so that
// extracting a helper does not move code out of the verifier's sight.
use crate::item::Fun;
use syn::spanned::Spanned;
use syn::visit::Visit;

pub struct Helper { pub ty: Option<String>, pub fun: Fun, pub text: String }

struct Calls<'a> {
    helpers: &'a [Helper],
    known: &'a [String],
    self_ty: Option<String>,
    hit: Option<(std::ops::Range<usize>, usize, Vec<std::ops::Range<usize>>, bool, bool)>, // span, helper, args, followed by ?, tail
    in_try: bool,
    tail: Option<std::ops::Range<usize>>,
    err: Option<String>,
}

impl<'a> Calls<'a> {
    fn find(&self, ty: Option<&str>, name: &str) -> Option<usize> {
        self.helpers.iter().position(|h| {
            h.fun.sig.ident == name && h.ty.as_deref() == ty && !self.known.contains(&match &h.ty {
                Some(t) => format!("{t}::{name}"),
                None => name.to_string(),
            })
        })
    }
}

impl<'a, 'ast> Visit<'ast> for Calls<'a> {
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        self.in_try = true;
        self.visit_expr(&t.expr);
        self.in_try = false;
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let tr = std::mem::replace(&mut self.in_try, false);
        syn::visit::visit_expr_method_call(self, m);
        if self.hit.is_some() { return; }
        let Some(ty) = self.self_ty.clone() else { return };
        let recv = quote::ToTokens::to_token_stream(&m.receiver).to_string();
        if recv == "self" {
            if let Some(k) = self.find(Some(&ty), &m.method.to_string()) {
                let r = m.span().byte_range();
                let tail = self.tail.as_ref() == Some(&r);
                self.hit = Some((r, k, m.args.iter().map(|a| a.span().byte_range()).collect(), tr, tail));
            }
        }
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        let tr = std::mem::replace(&mut self.in_try, false);
        syn::visit::visit_expr_call(self, c);
        if self.hit.is_some() { return; }
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let k = match segs.len() {
                1 => self.find(None, &segs[0]),
                2 => {
                    let t = if segs[0] == "Self" { self.self_ty.clone() } else { Some(segs[0].clone()) };
                    t.and_then(|t| self.find(Some(&t), &segs[1]))
                }
                _ => None,
            };
            if let Some(k) = k {
                if self.helpers[k].fun.sig.receiver().is_some() { return; }
                let r = c.span().byte_range();
                let tail = self.tail.as_ref() == Some(&r);
                self.hit = Some((r, k, c.args.iter().map(|a| a.span().byte_range()).collect(), tr, tail));
            }
        }
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if !matches!(e, syn::Expr::MethodCall(_) | syn::Expr::Call(_)) { 
            let keep = self.in_try;
            self.in_try = false;
            if matches!(e, syn::Expr::Try(_)) { self.in_try = keep; }
            syn::visit::visit_expr(self, e);
            return;
        }
        syn::visit::visit_expr(self, e);
    }
}

#[derive(Default)]
struct Exits { ret_ok: bool, ret_err: bool, question: bool }
impl<'ast> Visit<'ast> for Exits {
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        let s = r.expr.as_ref().map(|e| quote::ToTokens::to_token_stream(e).to_string()).unwrap_or_default();
        if s.starts_with("Err (") || s.starts_with("Err(") { self.ret_err = true } else { self.ret_ok = true }
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) { self.question = true; syn::visit::visit_expr_try(self, t); }
}

/// Inline repeatedly (bounded); returns new text and a list of what was inlined.
pub fn inline(mut text: String, self_ty: Option<String>, helpers: &[Helper], known: &[String]) -> Result<(String, Vec<String>), String> {
    let mut log = vec![];
    for _ in 0..40 {
        if let Some((t, n)) = beta(&text)? { text = t; log.push(format!("inlined the local closure `{n}`")); continue; }
        let f: syn::ItemFn = syn::parse_str(&text).map_err(|e| format!("reparse: {e}"))?;
        let tail = match f.block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => Some(e.span().byte_range()),
            _ => None,
        };
        let mut c = Calls { helpers, known, self_ty: self_ty.clone(), hit: None, in_try: false, tail, err: None };
        c.visit_block(&f.block);
        if let Some(e) = c.err { return Err(e); }
        let Some((span, k, args, tr, tail)) = c.hit else { return Ok((text, log)) };
        let h = &helpers[k];
        if h.fun.sig.ident == f.sig.ident { return Ok((text, log)); } // recursion: leave alone
        let mut ex = Exits::default();
        ex.visit_block(&h.fun.block);
        // `if C { ..; return E; } rest` is `if C { ..; E } else { rest }`
        let flat = structured(&h.fun.block.stmts, &h.text).map(|s| format!("{{ {s} }}"));
        if let Some(Ok(b)) = flat.as_ref().map(|s| syn::parse_str::<syn::Block>(s)) { ex = Exits::default(); ex.visit_block(&b); }
        let same_ret = quote::ToTokens::to_token_stream(&h.fun.sig.output).to_string() == quote::ToTokens::to_token_stream(&f.sig.output).to_string();
        let ok = if tail && same_ret { true } else if tr { !ex.ret_ok } else { !(ex.ret_ok || ex.ret_err || ex.question) };
        if !ok { return Err(format!("cannot inline `{}`: early exits", h.fun.sig.ident)); }
        let mut pats = String::new();
        let mut argt = String::new();
        let mut body = flat.clone().unwrap_or_else(|| h.text[h.fun.block.span().byte_range()].to_string());
        let typed: Vec<_> = h.fun.sig.inputs.iter().filter_map(|i| if let syn::FnArg::Typed(p) = i { Some(p) } else { None }).collect();
        for (p, r) in typed.iter().zip(&args) {
            let a = &text[r.clone()];
            // a closure takes the place of the parameter it is passed for
            if let (syn::Pat::Ident(i), Ok(c)) = (&*p.pat, syn::parse_str::<syn::ExprClosure>(a)) {
                body = subst_closure(&body, &i.ident.to_string(), &c, a)?;
                continue;
            }
            pats += &h.text[p.pat.span().byte_range()];
            pats += ", ";
            // a mutable reference that is passed on is lent
            if matches!(&*p.ty, syn::Type::Reference(t) if t.mutability.is_some()) && (a.trim() == "self" || syn::parse_str::<syn::Ident>(a.trim()).is_ok()) { argt += "&mut *"; }
            argt += a;
            argt += ", ";
        }
        let body = &body;
        let inner = body.trim().trim_start_matches('{').trim_end().strip_suffix('}').unwrap_or("");
        let bind = if pats.is_empty() { String::new() } else { format!("let ({pats}) = ({argt}); ") };
        // the type of a result whose errors are passed on, or that is collected, does not follow from the caller
        let rep = match &h.fun.sig.output {
            syn::ReturnType::Type(_, t) if (tr || ["collect()", ".into()", ".parse()"].iter().any(|x| inner.contains(x))) && h.fun.sig.generics.params.is_empty() => {
                let t = &h.text[t.span().byte_range()];
                format!("{{ {bind}let vx_r: {t} = {{ {inner} }}; vx_r }}")
            }
            _ => format!("{{ {bind}{inner} }}"),
        };
        // a block in statement position followed by an operator would parse differently; parenthesise unless whole statement
        let rep = if tail || text[span.end..].trim_start().starts_with(';') && is_stmt_start(&text, span.start) { rep } else { format!("({rep})") };
        log.push(format!("inlined `{}`", h.fun.sig.ident));
        text.replace_range(span, &rep);
    }
    Err("inlining did not terminate".into())
}

// the statements with the `return`s at the ends of the branches of `if` statements made values (None: nothing to do, or not of this form)
fn structured(stmts: &[syn::Stmt], text: &str) -> Option<String> {
    let returns = |s: &syn::Stmt| { let mut e = Exits::default(); e.visit_stmt(s); e.ret_ok || e.ret_err };
    let k = stmts.iter().position(returns)?;
    let before: String = stmts[..k].iter().map(|s| format!("{} ", &text[s.span().byte_range()])).collect();
    match &stmts[k] {
        syn::Stmt::Expr(syn::Expr::Return(r), _) if k + 1 == stmts.len() => Some(format!("{before}{}", &text[r.expr.as_ref()?.span().byte_range()])),
        syn::Stmt::Expr(syn::Expr::If(i), _) if i.else_branch.is_none() && k + 1 < stmts.len() => {
            if !matches!(i.then_branch.stmts.last()?, syn::Stmt::Expr(syn::Expr::Return(_), _)) { return None; }
            let then = structured(&i.then_branch.stmts, text)?;
            let rest = &stmts[k + 1..];
            let rest = if rest.iter().any(returns) { structured(rest, text)? } else { text[rest[0].span().byte_range().start..rest.last()?.span().byte_range().end].to_string() };
            Some(format!("{before}if {} {{ {then} }} else {{ {rest} }}", &text[i.cond.span().byte_range()]))
        }
        _ => None,
    }
}

fn is_stmt_start(t: &str, p: usize) -> bool {
    matches!(t[..p].trim_end().chars().last(), Some('{') | Some(';') | Some('}'))
}

/// every use of `name` in the block becomes the closure; calls of it become its body
fn subst_closure(body: &str, name: &str, c: &syn::ExprClosure, text: &str) -> Result<String, String> {
    struct U<'a> { name: &'a str, calls: Vec<(std::ops::Range<usize>, Vec<std::ops::Range<usize>>)>, uses: Vec<std::ops::Range<usize>> }
    impl<'a, 'ast> Visit<'ast> for U<'a> {
        fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
            let mut f = &*c.func;
            while let syn::Expr::Paren(p) = f { f = &p.expr; }
            if matches!(f, syn::Expr::Path(p) if p.path.is_ident(self.name)) { self.calls.push((c.span().byte_range(), c.args.iter().map(|a| a.span().byte_range()).collect())); return; }
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) { if p.path.is_ident(self.name) { self.uses.push(p.span().byte_range()); } }
    }
    let b: syn::Block = syn::parse_str(body).map_err(|e| format!("reparse: {e}"))?;
    let mut u = U { name, calls: vec![], uses: vec![] };
    u.visit_block(&b);
    let mut ed: Vec<(std::ops::Range<usize>, String)> = u.uses.into_iter().map(|r| (r, text.to_string())).collect();
    if !u.calls.is_empty() {
        let mut ex = Exits::default();
        ex.visit_expr(&c.body);
        if ex.ret_ok || ex.ret_err || ex.question { return Err(format!("cannot inline the closure passed for `{name}`: early exits")); }
        let inner = &text[c.body.span().byte_range()];
        for (r, args) in u.calls {
            let pats: String = c.inputs.iter().map(|p| format!("{}, ", &text[p.span().byte_range()].split(':').next().unwrap())).collect();
            let argt: String = args.iter().map(|a| format!("{}, ", &body[a.clone()])).collect();
            ed.push((r, if pats.is_empty() { format!("({{ {inner} }})") } else { format!("({{ let ({pats}) = ({argt}); {inner} }})") }));
        }
    }
    ed.sort_by_key(|e| std::cmp::Reverse(e.0.start));
    let mut out = body.to_string();
    for (r, s) in ed { out.replace_range(r, &s); }
    Ok(out)
}

/// `let f = |..| body;` where `f` is only ever called: the calls become the body
fn beta(text: &str) -> Result<Option<(String, String)>, String> {
    let f: syn::ItemFn = syn::parse_str(text).map_err(|e| format!("reparse: {e}"))?;
    struct Find<'a> { out: Vec<(&'a syn::Local, &'a syn::ExprClosure, String)> }
    impl<'a> Visit<'a> for Find<'a> {
        fn visit_local(&mut self, l: &'a syn::Local) {
            let mut p = &l.pat;
            while let syn::Pat::Type(t) = p { p = &t.pat; }
            if let (syn::Pat::Ident(i), Some(init)) = (p, &l.init) {
                if let syn::Expr::Closure(c) = &*init.expr {
                    if i.mutability.is_none() && c.capture.is_none() { self.out.push((l, c, i.ident.to_string())); }
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    struct Names { path: Vec<(usize, String)>, bound: Vec<(usize, String)>, call: Vec<(usize, String)> }
    impl<'a> Visit<'a> for Names {
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            if let syn::Expr::Path(p) = &*c.func { if let Some(i) = p.path.get_ident() { self.call.push((c.span().byte_range().start, i.to_string())); } }
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) { if let Some(i) = p.path.get_ident() { self.path.push((p.span().byte_range().start, i.to_string())); } }
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.bound.push((p.span().byte_range().start, p.ident.to_string())); syn::visit::visit_pat_ident(self, p); }
    }
    let mut fd = Find { out: vec![] };
    fd.visit_block(&f.block);
    let mut ns = Names { path: vec![], bound: vec![], call: vec![] };
    ns.visit_block(&f.block);
    for (l, c, n) in fd.out {
        let (s, e) = (l.span().byte_range().start, l.span().byte_range().end);
        let calls = ns.call.iter().filter(|x| x.1 == n).count();
        if calls == 0 || ns.path.iter().filter(|x| x.1 == n).count() != calls || ns.bound.iter().filter(|x| x.1 == n).count() != 1 { continue; }
        let mut ex = Exits::default();
        ex.visit_expr(&c.body);
        if ex.ret_ok || ex.ret_err || ex.question { continue; }
        let mut inb = Names { path: vec![], bound: vec![], call: vec![] };
        inb.visit_expr(&c.body);
        if ns.bound.iter().any(|(at, b)| *at > e && inb.path.iter().any(|x| x.1 == *b)) { continue; }
        if inb.path.iter().any(|x| x.1 == n) { continue; }
        let mut t = text.to_string();
        let k = &text[c.span().byte_range()];
        t.replace_range(s..e, "");
        let b = f.block.span().byte_range();
        let at = b.start..b.end - (e - s);
        let k2: syn::ExprClosure = syn::parse_str(k).map_err(|e| format!("reparse: {e}"))?;
        let body = subst_closure(&t[at.clone()], &n, &k2, k)?;
        t.replace_range(at, &body);
        return Ok(Some((t, n)));
    }
    Ok(None)
}
