// `//@lift PATH CALL NAME RET` + lines `role: TYPE = REGEX` + `//@end`
//   the one `move` closure that PATH passes to CALL becomes a function (extracted by `//@fn FILE PATH!lift`): what it
//   captures come first, in the order of the roles, then its own parameters.  In PATH itself the closure is replaced by
//   NAME(captures).  A captured local is recognised by what it is bound to (initialiser or loop source, no whitespace).
// `for P in X.filter(|Q| C) { B }` is read as `for P in X { if C { B } }` (filters are lazy).
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Default, Clone)]
pub struct Lift { pub path: String, pub call: String, pub name: String, pub ret: String, pub caps: Vec<(String, String, String)> }

struct Find<'a> { call: &'a str, out: Vec<&'a syn::ExprClosure> }
impl<'a> Visit<'a> for Find<'a> {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        if m.method == self.call && m.args.len() == 1 { if let syn::Expr::Closure(c) = &m.args[0] { if c.capture.is_some() { self.out.push(c); } } }
        syn::visit::visit_expr_method_call(self, m);
    }
}
#[derive(Default)]
struct Names { used: Vec<String>, bound: Vec<String> }
impl<'a> Visit<'a> for Names {
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) { if let Some(i) = p.path.get_ident() { self.used.push(i.to_string()); } }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.bound.push(p.ident.to_string()); syn::visit::visit_pat_ident(self, p); }
}
struct Binds<'a> { text: &'a str, stop: usize, out: Vec<(String, String)> }
impl<'a> Binds<'a> {
    fn add(&mut self, p: &syn::Pat, src: &syn::Expr) {
        let mut n = Names::default(); n.visit_pat(p);
        let s: String = self.text[src.span().byte_range()].split_whitespace().collect();
        for b in n.bound { self.out.retain(|x| x.0 != b); self.out.push((b, s.clone())); }
    }
}
impl<'a> Visit<'a> for Binds<'a> {
    fn visit_local(&mut self, l: &'a syn::Local) {
        if l.span().byte_range().start < self.stop { if let Some(i) = &l.init { self.add(&l.pat, &i.expr); } }
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        let r = f.span().byte_range();
        if r.start < self.stop && self.stop < r.end { self.add(&f.pat, &f.expr); }
        syn::visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

pub fn rewrite(text: &str, l: &Lift, inner: bool) -> Result<String, String> {
    let f: syn::ItemFn = syn::parse_str(text).map_err(|e| format!("lift: {e}"))?;
    let mut fd = Find { call: &l.call, out: vec![] };
    fd.visit_block(&f.block);
    if fd.out.len() != 1 { return Err(format!("lost anchor: {} closures passed to {}", fd.out.len(), l.call)); }
    let c = fd.out[0];
    let r = c.span().byte_range();
    let mut own = Names::default();
    for p in &c.inputs { own.visit_pat(p); }
    own.visit_expr(&c.body);
    let mut b = Binds { text, stop: r.start, out: vec![] };
    b.visit_block(&f.block);
    let mut caps: Vec<Option<String>> = vec![None; l.caps.len()];
    for (n, src) in b.out {
        if !own.used.contains(&n) || own.bound.contains(&n) { continue; }
        let k = l.caps.iter().position(|c| regex::Regex::new(&c.2).map(|x| x.is_match(&src)).unwrap_or(false));
        match k {
            Some(k) if caps[k].is_none() => caps[k] = Some(n),
            _ => return Err(format!("lost anchor: the closure captures `{n}`, bound to `{src}`")),
        }
    }
    let mut names = vec![];
    for (k, c) in caps.iter().enumerate() { names.push(c.clone().ok_or(format!("lost anchor: the closure does not capture {}", l.caps[k].0))?); }
    if !inner {
        let mut t = text.to_string();
        t.replace_range(r, &format!("{}({})", l.name, names.join(", ")));
        return Ok(t);
    }
    let mut ps: Vec<String> = names.iter().zip(&l.caps).map(|(n, c)| format!("{n}: {}", c.1)).collect();
    for p in &c.inputs {
        if !matches!(p, syn::Pat::Type(_)) { return Err("lift: closure parameter without a type".into()); }
        ps.push(text[p.span().byte_range()].to_string());
    }
    let body = &text[c.body.span().byte_range()];
    let body = if matches!(&*c.body, syn::Expr::Block(_)) { body.to_string() } else { format!("{{ {body} }}") };
    Ok(format!("fn {}({}) -> {}\n{body}", l.name, ps.join(", "), l.ret))
}

struct Filters { hit: Option<(std::ops::Range<usize>, std::ops::Range<usize>, std::ops::Range<usize>, std::ops::Range<usize>, std::ops::Range<usize>, Option<usize>, std::ops::Range<usize>)> }
impl<'a> Visit<'a> for Filters {
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        if self.hit.is_some() { return; }
        if let syn::Expr::MethodCall(m) = &*f.expr {
            if m.method == "filter" && m.args.len() == 1 {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    if c.inputs.len() == 1 && c.capture.is_none() {
                        let n = match &*f.pat { syn::Pat::Tuple(t) => Some(t.elems.len()), _ => None };
                        self.hit = Some((f.pat.span().byte_range(), f.expr.span().byte_range(), m.receiver.span().byte_range(), c.inputs[0].span().byte_range(), c.body.span().byte_range(), n, f.body.span().byte_range()));
                        return;
                    }
                }
            }
        }
        syn::visit::visit_expr_for_loop(self, f);
    }
}
pub fn filters(text: &str) -> Result<(String, usize), String> {
    let mut t = text.to_string();
    for k in 0..50 {
        if !t.contains(".filter(") { return Ok((t, k)); }
        let f: syn::ItemFn = syn::parse_str(&t).map_err(|e| format!("filter: {e}"))?;
        let mut v = Filters { hit: None };
        v.visit_block(&f.block);
        let Some((pat, expr, recv, q, cond, n, body)) = v.hit else { return Ok((t, k)) };
        let ps = t[pat.clone()].to_string();
        let qs = t[q].to_string();
        let (bind, own) = match n {
            Some(n) => { let v: Vec<String> = (0..n).map(|i| format!("vx_f{k}_{i}")).collect(); (format!("({})", v.join(", ")), v) }
            None => (format!("vx_f{k}"), vec![format!("vx_f{k}")]),
        };
        let (qp, by) = match qs.trim().strip_prefix('&') { Some(x) => (x.trim().to_string(), false), None => (qs.clone(), true) };
        let amp = if by { "&" } else { "" };
        let val = match n { Some(_) => format!("({})", own.iter().map(|o| format!("{amp}{o}")).collect::<Vec<_>>().join(", ")), None => format!("{amp}{}", own[0]) };
        let inner = t[body.start + 1..body.end - 1].to_string();
        let nb = format!("{{ let vx_keep = {{ let {qp} = {val}; {} }}; if vx_keep {{ let {ps} = {bind}; {inner} }} }}", &t[cond]);
        let rs = t[recv].to_string();
        t.replace_range(body, &nb);
        t.replace_range(expr, &rs);
        t.replace_range(pat, &bind);
    }
    Err("filter rewriting did not terminate".into())
}
