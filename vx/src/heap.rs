// `//@heap`: shared mutable nodes (Rc<RefCell<N>> / Weak<RefCell<N>>) are handled through an explicit heap.
//   reads   E.field              -> vx_h.field(&(E))
//   writes  E.field = V          -> { let vx_v = V; vx_h.set_field(&(E), vx_v) }
//   pushes  E.field.push(V)      -> { let vx_v = V; vx_h.push_field(&(E), vx_v) }
//   calls of the listed functions / methods take `vx_h` as a last argument, and their definitions declare it.
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Default, Clone)]
pub struct Heap { pub fields: Vec<String>, pub fns: Vec<String> }

struct V<'a> { t: &'a str, h: &'a Heap, hit: Option<(std::ops::Range<usize>, String)> }

impl<'a> V<'a> {
    fn s<S: Spanned>(&self, s: &S) -> &'a str { &self.t[s.span().byte_range()] }
    fn field<'b>(&self, e: &'b syn::Expr) -> Option<(&'b syn::Expr, String)> {
        if let syn::Expr::Field(f) = e {
            if let syn::Member::Named(n) = &f.member {
                let n = n.to_string();
                if self.h.fields.contains(&n) { return Some((&f.base, n)); }
            }
        }
        None
    }
    fn last_is_heap(&self, args: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>) -> bool {
        args.last().map(|a| self.s(a).trim() == "vx_h").unwrap_or(false)
    }
    fn with_heap(&self, open: usize, close: usize, args: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>) -> String {
        // before whatever follows the last argument (a comma, a comment)
        match args.last() {
            None => "vx_h".into(),
            Some(l) => { let e = l.span().byte_range().end; format!("{}, vx_h", &self.t[open..e]) + if self.t[e..close].contains('\n') { "\n" } else { "" } }
        }
    }
}

impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_item_mod(&mut self, _: &'ast syn::ItemMod) {}
    fn visit_signature(&mut self, s: &'ast syn::Signature) {
        if self.hit.is_some() { return; }
        if self.h.fns.contains(&s.ident.to_string()) && !self.s(&s.paren_token.span.join()).contains("vx_h:") {
            let (a, b) = (s.paren_token.span.open().byte_range().end, s.paren_token.span.close().byte_range().start);
            let inner = self.t[a..b].trim_end().trim_end_matches(',');
            let txt = if inner.trim().is_empty() { "vx_h: &mut Heap".to_string() } else { format!("{inner}, vx_h: &mut Heap") };
            self.hit = Some((a..b, txt));
        }
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if self.hit.is_some() { return; }
        match e {
            syn::Expr::Assign(a) => {
                if let syn::Expr::Index(x) = &*a.left {
                    if let (Some((base, n)), syn::Expr::Tuple(_)) = (self.field(&x.expr), &*x.index) {
                        self.visit_expr(base); self.visit_expr(&a.right); self.visit_expr(&x.index);
                        if self.hit.is_none() {
                            self.hit = Some((e.span().byte_range(), format!("{{ let vx_v = {}; let vx_b = {}; vx_h.put_{n}(&(vx_b), {}, vx_v) }}", self.s(&*a.right), self.s(base), self.s(&*x.index))));
                        }
                        return;
                    }
                }
                if let Some((base, n)) = self.field(&a.left) {
                    self.visit_expr(base); self.visit_expr(&a.right);
                    if self.hit.is_none() {
                        self.hit = Some((e.span().byte_range(), format!("{{ let vx_v = {}; let vx_b = {}; vx_h.set_{n}(&(vx_b), vx_v) }}", self.s(&*a.right), self.s(base))));
                    }
                    return;
                }
            }
            syn::Expr::Index(x) => {
                // matrix elements: M[(i, j)] -> M.vx_get((i, j)); vector elements: V[k] -> vx_at(&V, k)
                let (b, i) = (self.s(&*x.expr), self.s(&*x.index));
                match &*x.index {
                    syn::Expr::Tuple(_) => self.hit = Some((e.span().byte_range(), format!("{b}.vx_get({i})"))),
                    syn::Expr::Range(_) => {}
                    _ => self.hit = Some((e.span().byte_range(), format!("vx_at(&{b}, {i})"))),
                }
                if self.hit.is_some() { return; }
            }
            syn::Expr::Macro(m) if m.mac.path.is_ident("col_vec") || m.mac.path.is_ident("vec") => {
                use syn::parse::Parser;
                let toks = m.mac.tokens.clone();
                let v = if let Ok(r) = (|i: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Expr)> {
                    let a: syn::Expr = i.parse()?; i.parse::<syn::Token![;]>()?; let b: syn::Expr = i.parse()?; Ok((a, b))
                }).parse2(toks.clone()) {
                    format!("vx_vec_fill({}, {})", self.s(&r.0), self.s(&r.1))
                } else if let Ok(l) = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(toks) {
                    format!("vx_vec{}({})", l.len(), l.iter().map(|x| self.s(x)).collect::<Vec<_>>().join(", "))
                } else { return };
                self.hit = Some((e.span().byte_range(), if m.mac.path.is_ident("vec") { v } else { format!("Matrix::from_col_vec({v})") }));
                return;
            }
            syn::Expr::MethodCall(m) => {
                if m.method == "push" && m.args.len() == 1 {
                    if let Some((base, n)) = self.field(&m.receiver) {
                        self.visit_expr(base); self.visit_expr(&m.args[0]);
                        if self.hit.is_none() {
                            self.hit = Some((e.span().byte_range(), format!("{{ let vx_b = {}; let vx_v = {}; vx_h.push_{n}(&(vx_b), vx_v) }}", self.s(base), self.s(&m.args[0]))));
                        }
                        return;
                    }
                }
                if self.h.fns.contains(&m.method.to_string()) && !self.last_is_heap(&m.args) {
                    let (a, b) = (m.paren_token.span.open().byte_range().end, m.paren_token.span.close().byte_range().start);
                    self.hit = Some((a..b, self.with_heap(a, b, &m.args)));
                    return;
                }
            }
            syn::Expr::Call(c) => {
                if let syn::Expr::Paren(p) = &*c.func {
                    if let syn::Expr::Field(syn::ExprField { member: syn::Member::Named(n), .. }) = &*p.expr {
                        if self.h.fns.contains(&n.to_string()) && !self.last_is_heap(&c.args) {
                            let (a, b) = (c.paren_token.span.open().byte_range().end, c.paren_token.span.close().byte_range().start);
                            self.hit = Some((a..b, self.with_heap(a, b, &c.args)));
                            return;
                        }
                    }
                }
                if let syn::Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    if self.h.fns.contains(&n) && !self.last_is_heap(&c.args) {
                        let (a, b) = (c.paren_token.span.open().byte_range().end, c.paren_token.span.close().byte_range().start);
                        self.hit = Some((a..b, self.with_heap(a, b, &c.args)));
                        return;
                    }
                }
            }
            syn::Expr::Field(_) => {
                if let Some((base, n)) = self.field(e) {
                    self.visit_expr(base);
                    if self.hit.is_none() { self.hit = Some((e.span().byte_range(), if matches!(base, syn::Expr::Path(_)) { format!("vx_h.rd_{n}(&({}))", self.s(base)) } else { format!("{{ let vx_b = {}; vx_h.rd_{n}(&(vx_b)) }}", self.s(base)) })); }
                    return;
                }
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

pub fn rewrite(text: &str, h: &Heap) -> Result<String, String> {
    let mut t = text.to_string();
    for _ in 0..3000 {
        let f = syn::parse_file(&t).map_err(|e| format!("heap rewriting: {e}\n{}", if std::env::var("VX_DEBUG").is_ok() { &t } else { "" }))?;
        let mut v = V { t: &t, h, hit: None };
        for it in &f.items { v.visit_item(it); }
        let Some((r, s)) = v.hit else { return Ok(t) };
        t.replace_range(r, &s);
    }
    Err("heap rewriting did not terminate".into())
}
