// `//@foreign fns=a,b panics=f,T::g`: functions of the C interface.
//   the objects C holds are an explicit ghost map, passed around as the last argument `vx_f`
//   P as *mut T                -> P                         (raw pointers are all of one type, CPtr)
//   &mut *(P as *mut T), *(..) -> vx_mut::<T>(P, vx_f)      (*const: vx_ref)
//   Box::from_raw(P as *mut T) -> vx_own::<T>(P, vx_f)      Box::into_raw(B) / X.into_raw() -> vx_give(..)
//   f(..) that may unwind      -> vx_f(..) returning Err(Unwind) when it does: inside catch_unwind the closure is
//                                 left with that error, outside it must not happen
//   catch_unwind(|| BODY)      -> a call of NAME__catch (extracted by `//@fn FILE NAME!catch`), after which whatever
//                                 the closure owned and did not give back is released
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Default, Clone)]
pub struct Foreign { pub fns: Vec<String>, pub panics: Vec<String> }

struct Find<'a> { out: Vec<(&'a syn::ExprCall, &'a syn::ExprClosure)> }
fn closure(e: &syn::Expr) -> Option<&syn::ExprClosure> {
    match e {
        syn::Expr::Closure(c) => Some(c),
        syn::Expr::Paren(p) => closure(&p.expr),
        syn::Expr::Call(c) if c.args.len() == 1 && last(&c.func).as_deref() == Some("AssertUnwindSafe") => closure(&c.args[0]),
        _ => None,
    }
}
fn last(e: &syn::Expr) -> Option<String> { match e { syn::Expr::Path(p) => Some(p.path.segments.last()?.ident.to_string()), _ => None } }
fn two(e: &syn::Expr) -> Option<(String, String)> {
    if let syn::Expr::Path(p) = e {
        let n = p.path.segments.len();
        if n >= 2 { return Some((p.path.segments[n - 2].ident.to_string(), p.path.segments[n - 1].ident.to_string())); }
    }
    None
}
impl<'a> Visit<'a> for Find<'a> {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if last(&c.func).as_deref() == Some("catch_unwind") && c.args.len() == 1 {
            if let Some(k) = closure(&c.args[0]) { self.out.push((c, k)); }
        }
        syn::visit::visit_expr_call(self, c);
    }
}
fn strip(e: &syn::Expr) -> &syn::Expr { match e { syn::Expr::Paren(p) => strip(&p.expr), _ => e } }

struct V<'a> { t: &'a str, f: &'a Foreign, catch: bool, ptrs: Vec<(String, String, bool)>, hit: Option<(std::ops::Range<usize>, String)>, returns: usize }
impl<'a> V<'a> {
    fn s<S: Spanned>(&self, s: &S) -> &'a str { &self.t[s.span().byte_range()] }
    /// pointer expression -> (pointer, pointee, mutable)
    fn pointee(&self, e: &syn::Expr) -> Option<(String, String, bool)> {
        match strip(e) {
            syn::Expr::Cast(c) => if let syn::Type::Ptr(p) = &*c.ty { Some((self.s(&*c.expr).to_string(), self.s(&*p.elem).to_string(), p.mutability.is_some())) } else { None },
            syn::Expr::Path(p) => { let n = p.path.get_ident()?.to_string(); self.ptrs.iter().find(|x| x.0 == n).map(|x| (n, x.1.clone(), x.2)) }
            _ => None,
        }
    }
    fn set(&mut self, r: std::ops::Range<usize>, s: String) { if self.hit.is_none() { self.hit = Some((r, s)); } }
    fn may(&self, call: String) -> String {
        if self.catch { format!("(match {call} {{ Ok(vx_v) => vx_v, Err(vx_u) => return Err(vx_u) }})") } else { format!("vx_calm({call})") }
    }
    fn deref(&self, e: &syn::Expr) -> Option<String> {
        if let syn::Expr::Unary(u) = strip(e) {
            if matches!(u.op, syn::UnOp::Deref(_)) {
                let (p, t, m) = self.pointee(&u.expr)?;
                return Some(format!("{}::<{t}>({p}, vx_f)", if m { "vx_mut" } else { "vx_ref" }));
            }
        }
        None
    }
}
impl<'a> V<'a> {
    /// println! unwinds when the stream cannot be written to
    fn print(&mut self, m: &syn::Macro, r: std::ops::Range<usize>) -> bool {
        use syn::parse::Parser;
        let n = m.path.segments.last().unwrap().ident.to_string();
        if !["println", "print", "eprintln", "eprint"].contains(&n.as_str()) { return false; }
        let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()).map(|l| l.iter().skip(1).map(|e| self.s(e).to_string()).collect::<Vec<_>>()).unwrap_or_default();
        let c = format!("vx_println({})", args.first().map(|a| format!("&{a}")).unwrap_or("&0u8".into()));
        let c = self.may(c);
        self.set(r, format!("{c};"));
        true
    }
}
impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) { if self.hit.is_none() { let r = m.span().byte_range(); self.print(&m.mac, r); } }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if self.hit.is_some() { return; }
        let r = e.span().byte_range();
        match e {
            syn::Expr::Unsafe(u) => { let a = u.unsafe_token.span().byte_range(); self.set(a, String::new()); return; }
            syn::Expr::Reference(x) => if let Some(d) = self.deref(&x.expr) {
                let d = if x.mutability.is_none() { d.replacen("vx_mut", "vx_ref", 1) } else { d };
                self.set(r, d); return;
            },
            syn::Expr::Unary(_) => if let Some(d) = self.deref(e) { self.set(r, d); return; },
            syn::Expr::Assign(a) => if let syn::Expr::Index(x) = &*a.left {
                if matches!(&*x.index, syn::Expr::Tuple(_)) {
                    self.visit_expr(&a.right); self.visit_expr(&x.index);
                    if self.hit.is_none() { let c = format!("{}.vx_put({}, {})", self.s(&*x.expr), self.s(&*x.index), self.s(&*a.right)); let c = self.may(c); self.set(r, c); }
                    return;
                }
            },
            syn::Expr::Index(x) => if matches!(&*x.index, syn::Expr::Tuple(_)) {
                let c = format!("{}.vx_at({})", self.s(&*x.expr), self.s(&*x.index)); let c = self.may(c); self.set(r, c); return;
            },
            syn::Expr::Return(x) => if self.catch {
                let inner = x.expr.as_ref().map(|e| self.s(e)).unwrap_or("()");
                if !inner.starts_with("Ok(vx_id(") && inner != "Err(vx_u)" { self.set(r, format!("return Ok(vx_id({inner}))")); return; }
            } else { self.returns += 1; },
            syn::Expr::MethodCall(m) => {
                syn::visit::visit_expr(self, e);
                if self.hit.is_some() { return; }
                let n = m.method.to_string();
                if n == "into_raw" && m.args.is_empty() { let s = format!("vx_give(VxBox::new({}), vx_f)", self.s(&*m.receiver)); self.set(r, s); return; }
                if self.f.panics.contains(&n) {
                    let c = format!("{}.vx_{n}({})", self.s(&*m.receiver), m.args.iter().map(|a| self.s(a)).collect::<Vec<_>>().join(", "));
                    let c = self.may(c); self.set(r, c);
                }
                return;
            }
            syn::Expr::Call(c) => {
                let f = last(&c.func);
                let t2 = two(&c.func);
                let args: Vec<&str> = c.args.iter().map(|a| self.s(a)).collect();
                if let Some((b, m)) = &t2 {
                    if m == "from_raw" && args.len() == 1 && (b == "Box" || b == "CString") {
                        let q = if b == "CString" { Some((args[0].to_string(), "CString".to_string(), true)) } else { self.pointee(&c.args[0]) };
                        if let Some((p, t, _)) = q { let s = format!("vx_own::<{t}>({p}, vx_f)"); self.set(r, s); return; }
                    }
                }
                syn::visit::visit_expr(self, e);
                if self.hit.is_some() { return; }
                if let Some((b, m)) = &t2 {
                    if b == "Box" && m == "new" { let s = format!("VxBox::new({})", args.join(", ")); self.set(r, s); return; }
                    if b == "Box" && m == "into_raw" { let s = format!("vx_give({}, vx_f)", args.join(", ")); self.set(r, s); return; }
                    if m == "forget" { let s = format!("vx_forget({}, vx_f)", args.join(", ")); self.set(r, s); return; }
                    let full = format!("{b}::{m}");
                    if self.f.panics.contains(&full) { let c = format!("vx_{}({})", full.replace("::", "_").to_lowercase(), args.join(", ")); let c = self.may(c); self.set(r, c); return; }
                }
                if let Some(n) = f {
                    if t2.is_none() && n == "forget" { let s = format!("vx_forget({}, vx_f)", args.join(", ")); self.set(r, s); return; }
                    if self.f.fns.contains(&n) && args.last().map(|a| a.trim()) != Some("vx_f") {
                        // a generic callee is told the type the pointer was cast to
                        let plain = matches!(&*c.func, syn::Expr::Path(p) if p.path.get_ident().is_some());
                        let of = c.args.iter().filter_map(|a| self.pointee(a)).map(|x| x.1).filter(|t| !["c_void", "c_char"].contains(&t.as_str())).next();
                        let tf = match of { Some(t) if plain => format!("::<{t}>"), _ => String::new() };
                        let s = if args.is_empty() { format!("{}(vx_f)", self.s(&*c.func)) } else { format!("{}{tf}({}, vx_f)", self.s(&*c.func), args.join(", ")) };
                        self.set(r, s); return;
                    }
                    if self.f.panics.contains(&n) { let c = format!("vx_{n}({})", args.join(", ")); let c = self.may(c); self.set(r, c); }
                }
                return;
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}
// what is left of raw pointer types and casts
struct P { hit: Option<(std::ops::Range<usize>, String)>, text: String }
impl<'ast> Visit<'ast> for P {
    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        if self.hit.is_some() { return; }
        if matches!(&*c.ty, syn::Type::Ptr(_)) { self.hit = Some((c.span().byte_range(), self.text[c.expr.span().byte_range()].to_string())); return; }
        syn::visit::visit_expr_cast(self, c);
    }
    fn visit_type_ptr(&mut self, t: &'ast syn::TypePtr) { if self.hit.is_none() { self.hit = Some((t.span().byte_range(), "CPtr".into())); } }
}
struct Ptrs<'a> { t: &'a str, out: Vec<(String, String, bool)> }
impl<'a, 'ast> Visit<'ast> for Ptrs<'a> {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if let syn::Expr::Cast(c) = strip(&init.expr) { if let syn::Type::Ptr(p) = &*c.ty { self.out.push((i.ident.to_string(), self.t[p.elem.span().byte_range()].to_string(), p.mutability.is_some())); } }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_pat_type(&mut self, p: &'ast syn::PatType) {
        if let (syn::Pat::Ident(i), syn::Type::Ptr(q)) = (&*p.pat, &*p.ty) { self.out.push((i.ident.to_string(), self.t[q.elem.span().byte_range()].to_string(), q.mutability.is_some())); }
    }
}

struct Sink<'a> { t: &'a str, hit: Option<(std::ops::Range<usize>, usize)> }
impl<'a, 'ast> Visit<'ast> for Sink<'a> {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for (k, st) in b.stmts.iter().enumerate() {
            let syn::Stmt::Local(l) = st else { continue };
            let name = match &l.pat { syn::Pat::Ident(i) => i.ident.to_string(), syn::Pat::Type(p) => match &*p.pat { syn::Pat::Ident(i) => i.ident.to_string(), _ => continue }, _ => continue };
            let Some(init) = &l.init else { continue };
            let mut e = &*init.expr;
            while let syn::Expr::Block(x) = e { match x.block.stmts.as_slice() { [syn::Stmt::Expr(y, None)] => e = y, _ => break } }
            let syn::Expr::Call(c) = e else { continue };
            if !matches!(last(&c.func).as_deref(), Some("vx_mut" | "vx_ref")) || init.diverge.is_some() { continue; }
            let Some(u) = (k + 1..b.stmts.len()).find(|u| simple_word(&self.t[b.stmts[*u].span().byte_range()], &name)) else { continue };
            if (k + 1..u).any(|m| simple_word(&self.t[b.stmts[m].span().byte_range()], "vx_f")) && self.hit.is_none() {
                self.hit = Some((st.span().byte_range(), b.stmts[u].span().byte_range().start));
            }
        }
        syn::visit::visit_block(self, b);
    }
}
/// pointers cast before catch_unwind and used inside its closure are cast inside it instead
fn recast(text: &str) -> Result<String, String> {
    let f: syn::ItemFn = syn::parse_str(text).map_err(|e| format!("foreign: {e}"))?;
    let mut fd = Find { out: vec![] };
    fd.visit_block(&f.block);
    if fd.out.len() != 1 { return Ok(text.to_string()); }
    let syn::Expr::Block(b) = &*fd.out[0].1.body else { return Ok(text.to_string()) };
    let at = b.block.brace_token.span.open().byte_range().end;
    let body = &text[b.span().byte_range()];
    let mut add = String::new();
    let mut cut = vec![];
    for st in &f.block.stmts {
        let syn::Stmt::Local(l) = st else { continue };
        if l.span().byte_range().end > fd.out[0].0.span().byte_range().start { break; }
        let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) else { continue };
        let mut e = &*init.expr;
        let mut ptr = matches!(e, syn::Expr::Cast(_));
        loop { match e { syn::Expr::Cast(c) => { ptr &= matches!(&*c.ty, syn::Type::Ptr(_)); e = &c.expr; } syn::Expr::Paren(p) => e = &p.expr, _ => break } }
        let syn::Expr::Path(p) = e else { continue };
        let Some(src) = p.path.get_ident() else { continue };
        let is_param = f.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Typed(t) if matches!(&*t.pat, syn::Pat::Ident(k) if k.ident == *src)));
        let n = i.ident.to_string();
        if !ptr || !is_param || !simple_word(body, &n) { continue; }
        add += &text[l.span().byte_range()];
        // the statement itself stays only where the rest of the function needs it
        let rest = format!("{}{}", &text[l.span().byte_range().end..fd.out[0].0.span().byte_range().start], &text[fd.out[0].0.span().byte_range().end..]);
        if !simple_word(&rest, &n) { cut.push(l.span().byte_range()); } else { return Ok(text.to_string()); }
    }
    let mut t = text.to_string();
    t.insert_str(at, &format!(" {add} "));
    for r in cut.into_iter().rev() { t.replace_range(r, ""); }
    Ok(t)
}
fn simple_word(t: &str, w: &str) -> bool {
    t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == w)
}

pub fn rewrite(text: &str, cfg: &Foreign, catch: bool) -> Result<String, String> {
    let text = &recast(text)?;
    let f: syn::ItemFn = syn::parse_str(text).map_err(|e| format!("foreign: {e}"))?;
    let name = f.sig.ident.to_string();
    let mut fd = Find { out: vec![] };
    fd.visit_block(&f.block);
    let sig = &text[f.sig.fn_token.span().byte_range().start..f.block.span().byte_range().start];
    let inputs = &text[f.sig.paren_token.span.open().byte_range().end..f.sig.paren_token.span.close().byte_range().start];
    let mut t;
    if catch {
        if fd.out.is_empty() { return Err("nothing to catch".into()); }
        if fd.out.len() != 1 { return Err(format!("lost anchor: {} calls of catch_unwind", fd.out.len())); }
        let b = &fd.out[0].1.body;
        let extra: String = captured(text, &f, fd.out[0].0, fd.out[0].1)?.iter().map(|(n, t)| format!(", {n}: {t}")).collect();
        let inputs = format!("{}{extra}", inputs.trim().trim_end_matches(','));
        let inputs = inputs.trim_start_matches(", ");
        t = format!("fn {name}__catch({inputs}) -> core::result::Result<VX_T, Unwind>\n{{ {} }}", &text[b.span().byte_range()]);
    } else {
        let bs = f.block.span().byte_range();
        let mut body = text[bs.clone()].to_string();
        if fd.out.len() > 1 { return Err("catch_unwind is called more than once".into()); }
        for (c, k) in &fd.out {
            let r = c.span().byte_range();
            let mut args: Vec<String> = f.sig.inputs.iter().map(|a| match a { syn::FnArg::Typed(p) => text[p.pat.span().byte_range()].trim_start_matches("mut ").to_string(), _ => "self".into() }).collect();
            args.extend(captured(text, &f, c, k)?.into_iter().map(|x| x.0));
            body.replace_range(r.start - bs.start..r.end - bs.start, &format!("{{ let vx_r = {name}__catch({}, vx_f); vx_settle(vx_f); vx_r }}", args.join(", ")).replace("(, ", "("));
        }
        t = format!("{sig}{body}");
    }
    let mut pp = Ptrs { t: text, out: vec![] };
    pp.visit_item_fn(&f);
    let ptrs = pp.out;
    // a pointer local may be used where the type of another is expected: ambiguous names are left alone
    let mut ret = 0;
    for k in 0.. {
        if k > 2000 { return Err("foreign rewriting did not terminate".into()); }
        let g: syn::ItemFn = syn::parse_str(&t).map_err(|e| format!("foreign: {e}"))?;
        let mut v = V { t: &t, f: cfg, catch, ptrs: ptrs.clone(), hit: None, returns: 0 };
        v.visit_block(&g.block);
        ret = v.returns;
        let Some((r, s)) = v.hit else { break };
        t.replace_range(r, &s);
    }
    if !catch && ret > 0 { return Err("early return outside catch_unwind".into()); }
    // a reference made early is made where it is first used: no other object is reached through vx_f in between
    for _ in 0..50 {
        let g: syn::ItemFn = syn::parse_str(&t).map_err(|e| format!("foreign: {e}"))?;
        let mut v = Sink { t: &t, hit: None };
        v.visit_block(&g.block);
        let Some((from, to)) = v.hit else { break };
        let moved = t[from.clone()].to_string();
        t.insert_str(to, &format!("{moved} "));
        t.replace_range(from, "");
    }
    loop {
        let g: syn::ItemFn = syn::parse_str(&t).map_err(|e| format!("foreign: {e}"))?;
        let mut v = P { hit: None, text: t.clone() };
        v.visit_item_fn(&g);
        let Some((r, s)) = v.hit else { break };
        t.replace_range(r, &s);
    }
    let g: syn::ItemFn = syn::parse_str(&t).map_err(|e| format!("foreign: {e}"))?;
    let b = g.block.span().byte_range();
    let body = t[b.clone()].to_string();
    t.replace_range(b, &if catch { format!("{{ let vx_o = {body}; Ok(vx_o) }}") } else { format!("{{ let vx_o = {body}; vx_settle(vx_f); vx_o }}") });
    let (a, z) = (g.sig.paren_token.span.open().byte_range().end, g.sig.paren_token.span.close().byte_range().start);
    let inner = t[a..z].trim_end().trim_end_matches(',').to_string();
    t.replace_range(a..z, &if inner.trim().is_empty() { "vx_f: &mut Foreign".to_string() } else { format!("{inner}, vx_f: &mut Foreign") });
    Ok(t)
}

/// the locals a catch_unwind closure captures, with the type their initialiser shows
fn captured(text: &str, f: &syn::ItemFn, call: &syn::ExprCall, k: &syn::ExprClosure) -> Result<Vec<(String, String)>, String> {
    struct Uses { names: Vec<String> }
    impl<'ast> Visit<'ast> for Uses {
        fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) { if let Some(i) = p.path.get_ident() { self.names.push(i.to_string()); } }
        fn visit_macro(&mut self, m: &'ast syn::Macro) { for t in m.tokens.clone() { walk(t, &mut self.names); } }
    }
    fn walk(t: proc_macro2::TokenTree, v: &mut Vec<String>) {
        match t { proc_macro2::TokenTree::Ident(i) => v.push(i.to_string()), proc_macro2::TokenTree::Group(g) => for t in g.stream() { walk(t, v) }, _ => {} }
    }
    struct Lets<'a> { before: usize, out: Vec<(String, &'a syn::Local)> }
    impl<'a> Visit<'a> for Lets<'a> {
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        fn visit_local(&mut self, l: &'a syn::Local) {
            if l.span().byte_range().end <= self.before {
                let p = match &l.pat { syn::Pat::Type(t) => &*t.pat, p => p };
                if let syn::Pat::Ident(i) = p { self.out.retain(|x| x.0 != i.ident.to_string()); self.out.push((i.ident.to_string(), l)); }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut u = Uses { names: vec![] };
    u.visit_expr(&k.body);
    let mut ls = Lets { before: call.span().byte_range().start, out: vec![] };
    ls.visit_block(&f.block);
    let mut v = vec![];
    for (n, l) in ls.out {
        if !u.names.contains(&n) { continue; }
        v.push((n.clone(), type_of(text, l).ok_or(format!("unsupported: the closure passed to catch_unwind uses the local `{n}`"))?));
    }
    Ok(v)
}
fn type_of(text: &str, l: &syn::Local) -> Option<String> {
    if let syn::Pat::Type(t) = &l.pat { if !matches!(&*t.ty, syn::Type::Infer(_)) { return Some(text[t.ty.span().byte_range()].to_string()); } }
    shown(&l.init.as_ref()?.expr)
}
/// the type an expression shows by itself
fn shown(e: &syn::Expr) -> Option<String> {
    let ty = |p: &syn::PathSegment| p.ident.to_string();
    let raw = |e: &syn::Expr| match strip(e) { syn::Expr::Cast(c) => if let syn::Type::Ptr(p) = &*c.ty { Some(quote::ToTokens::to_token_stream(&p.elem).to_string().replace(' ', "")) } else { None }, _ => None };
    match strip(e) {
        syn::Expr::Unsafe(u) => match u.block.stmts.last()? { syn::Stmt::Expr(e, None) if u.block.stmts.len() == 1 => shown(e), _ => None },
        syn::Expr::Cast(c) => if matches!(&*c.ty, syn::Type::Ptr(_)) { Some("CPtr".into()) } else { Some(quote::ToTokens::to_token_stream(&c.ty).to_string()) },
        syn::Expr::Reference(r) => match strip(&r.expr) {
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => Some(format!("{}{}", if r.mutability.is_some() { "&mut " } else { "&" }, raw(&u.expr)?)),
            _ => None,
        },
        syn::Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "to_string" | "to_owned" => Some("Text".into()),
            "clone" => match strip(&m.receiver) { syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => raw(&u.expr), _ => None },
            _ => None,
        },
        syn::Expr::Call(c) => {
            let syn::Expr::Path(p) = &*c.func else { return None };
            let s = &p.path.segments;
            let n = s.len();
            let name = s[n - 1].ident.to_string();
            match (if n >= 2 { ty(&s[n - 2]) } else { String::new() }.as_str(), name.as_str()) {
                ("Box", "new") => Some(format!("VxBox<{}>", shown(&c.args[0])?)),
                ("Box", "from_raw") => Some(format!("VxBox<{}>", raw(&c.args[0])?)),
                ("", "new_owned_string") => Some("Text".into()),
                ("", "new_context") => Some("ContextHashMap".into()),
                ("", "leak_object") => Some("CPtr".into()),
                (t, "new" | "new_identity" | "default") if !t.is_empty() => Some(t.to_string()),
                _ => None,
            }
        }
        _ => None,
    }
}
