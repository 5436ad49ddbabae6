use syn::spanned::Spanned;

pub struct FileSrc { pub text: String, pub ast: syn::File }

thread_local! { pub static HEAP: std::cell::RefCell<Option<crate::heap::Heap>> = const { std::cell::RefCell::new(None) }; }
thread_local! { pub static FOREIGN: std::cell::RefCell<Option<crate::foreign::Foreign>> = const { std::cell::RefCell::new(None) }; }
thread_local! { pub static FLOAT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

/// `//@float`: the type `f64` becomes the abstract `F64`, float literals become `flit(N)` (integral) or `flitx(BITS)`.
fn float(text: &str) -> Result<String, String> {
    use proc_macro2::{TokenStream, TokenTree};
    fn walk(ts: TokenStream, ed: &mut Vec<(std::ops::Range<usize>, String)>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => walk(g.stream(), ed),
                TokenTree::Ident(i) if i == "f64" => ed.push((i.span().byte_range(), "F64".into())),
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    let lit: syn::Lit = match syn::parse_str(&s) { Ok(x) => x, Err(_) => continue };
                    let v = match &lit {
                        syn::Lit::Float(f) => f.base10_parse::<f64>().ok(),
                        syn::Lit::Int(i) if i.suffix() == "f64" => i.base10_digits().parse::<f64>().ok(),
                        _ => None,
                    };
                    let Some(v) = v else { continue };
                    let r = if v.fract() == 0.0 && v.abs() < 9e15 { format!("flit({})", v as i64) } else { format!("flitx({})", v.to_bits()) };
                    ed.push((l.span().byte_range(), r));
                }
                _ => {}
            }
        }
    }
    // casts to f64
    let mut text = text.to_string();
    if text.contains("as f64") {
        struct C(Vec<(std::ops::Range<usize>, String)>);
        impl<'a> syn::visit::Visit<'a> for C {
            fn visit_expr_cast(&mut self, c: &'a syn::ExprCast) {
                if matches!(&*c.ty, syn::Type::Path(p) if p.path.is_ident("f64")) {
                    let (e, w) = (c.expr.span().byte_range(), c.span().byte_range());
                    self.0.push((e.start..e.start, "vx_f64(".into()));
                    self.0.push((e.end..w.end, ")".into()));
                }
                syn::visit::visit_expr_cast(self, c);
            }
        }
        if let Ok(f) = syn::parse_file(&text) {
            let mut v = C(vec![]);
            syn::visit::Visit::visit_file(&mut v, &f);
            v.0.sort_by_key(|(r, _)| (r.start, r.end));
            for (r, t) in v.0.into_iter().rev() { text.replace_range(r, &t); }
        }
    }
    let text = &text[..];
    // file-level numeric constants are replaced by their value
    let mut consts: Vec<(String, String)> = vec![];
    let mut decl: Vec<std::ops::Range<usize>> = vec![];
    if let Ok(f) = syn::parse_file(text) {
        for it in &f.items {
            if let syn::Item::Const(c) = it {
                if let syn::Expr::Lit(l) = &*c.expr {
                    if matches!(l.lit, syn::Lit::Float(_)) { consts.push((c.ident.to_string(), text[l.span().byte_range()].to_string())); decl.push(c.span().byte_range()); }
                }
            }
        }
    }
    let mut text = text.to_string();
    if !consts.is_empty() {
        fn uses(ts: TokenStream, c: &[(String, String)], ed: &mut Vec<(std::ops::Range<usize>, String)>) {
            for t in ts {
                match t {
                    TokenTree::Group(g) => uses(g.stream(), c, ed),
                    TokenTree::Ident(i) => if let Some((_, v)) = c.iter().find(|(n, _)| i == n) { ed.push((i.span().byte_range(), v.clone())) },
                    _ => {}
                }
            }
        }
        let mut ed = vec![];
        uses(text.parse().map_err(|e: proc_macro2::LexError| e.to_string())?, &consts, &mut ed);
        for (r, t) in ed.into_iter().rev() {
            if !decl.iter().any(|d| r.start >= d.start && r.end <= d.end) { text.replace_range(r, &t); }
        }
    }
    let text = &text;
    let ts: TokenStream = text.parse().map_err(|e: proc_macro2::LexError| e.to_string())?;
    let mut ed = vec![];
    walk(ts, &mut ed);
    let mut o = text.to_string();
    for (r, t) in ed.into_iter().rev() { o.replace_range(r, &t); }
    Ok(o)
}

pub fn load(root: &str, rel: &str) -> Result<FileSrc, String> {
    let p = format!("{root}/{rel}");
    let text = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?;
    let text = if FLOAT.with(|f| f.get()) { float(&text).map_err(|e| format!("{p}: {e}"))? } else { text };
    let text = match HEAP.with(|h| h.borrow().clone()) { Some(h) => crate::heap::rewrite(&text, &h).map_err(|e| format!("{p}: {e}"))?, None => text };
    let ast = syn::parse_file(&text).map_err(|e| format!("{p}: {e}"))?;
    Ok(FileSrc { text, ast })
}

pub fn norm<T: quote::ToTokens>(t: &T) -> String {
    quote::quote!(#t).to_string().split_whitespace().collect()
}

#[derive(Clone)]
pub struct Fun {
    pub attrs: Vec<syn::Attribute>,
    pub vis: Option<syn::Visibility>,
    pub sig: syn::Signature,
    pub block: syn::Block,
}

pub fn all_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for it in items {
        out.push(it);
        if let syn::Item::Mod(m) = it {
            if let Some((_, inner)) = &m.content { all_items(inner, out); }
        }
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("test")) }

/// `path` is `name`, `Type::name`, or `<Trait for SelfType>::name` (compared without whitespace).
pub fn find_fn(f: &FileSrc, path: &str) -> Result<Fun, String> {
    let path: String = path.split_whitespace().collect::<Vec<_>>().join(" ");
    let mut items = vec![];
    all_items(&f.ast.items, &mut items);
    let mut found: Vec<Fun> = vec![];
    if let Some(rest) = path.strip_prefix('<') {
        let k = rest.rfind(">::").ok_or("bad path")?;
        let (head, name) = (&rest[..k], &rest[k + 3..]);
        let (tr, ty) = head.split_once(" for ").ok_or("bad trait path")?;
        let strip = |s: &str| s.split_whitespace().collect::<String>();
        for it in &items {
            if let syn::Item::Impl(im) = it {
                let Some((_, tp, _)) = &im.trait_ else { continue };
                let mut trs = norm(tp);
                let sty = norm(&*im.self_ty);
                // `impl Add for X` is `impl Add<X> for X`
                let want = strip(tr);
                if !trs.contains('<') && want.contains('<') { trs = format!("{trs}<{sty}>"); }
                if trs == want && sty == strip(ty) {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(m) = ii {
                            if m.sig.ident == name {
                                found.push(Fun { attrs: m.attrs.clone(), vis: None, sig: m.sig.clone(), block: m.block.clone() });
                            }
                        }
                    }
                }
            }
        }
    } else if let Some((ty, name)) = path.split_once("::") {
        for it in &items {
            if let syn::Item::Impl(im) = it {
                if im.trait_.is_some() { continue; }
                let s = norm(&*im.self_ty);
                if s == ty || s.starts_with(&format!("{ty}<")) {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(m) = ii {
                            if m.sig.ident == name {
                                found.push(Fun { attrs: m.attrs.clone(), vis: Some(m.vis.clone()), sig: m.sig.clone(), block: m.block.clone() });
                            }
                        }
                    }
                }
            }
        }
    } else {
        for it in &items {
            if let syn::Item::Fn(m) = it {
                if m.sig.ident == path && !is_test(&m.attrs) {
                    found.push(Fun { attrs: m.attrs.clone(), vis: Some(m.vis.clone()), sig: m.sig.clone(), block: (*m.block).clone() });
                }
            }
        }
    }
    match found.len() {
        1 => Ok(found.pop().unwrap()),
        0 => Err(format!("no function `{path}`")),
        n => Err(format!("{n} functions match `{path}`")),
    }
}

/// Every free function and inherent method of the file (helpers that may be inlined), by name.
pub fn helpers(f: &FileSrc) -> Vec<(Option<String>, Fun)> {
    let mut items = vec![];
    all_items(&f.ast.items, &mut items);
    let mut v = vec![];
    for it in items {
        match it {
            syn::Item::Fn(m) if !is_test(&m.attrs) =>
                v.push((None, Fun { attrs: m.attrs.clone(), vis: Some(m.vis.clone()), sig: m.sig.clone(), block: (*m.block).clone() })),
            syn::Item::Impl(im) if im.trait_.is_none() => {
                let s = norm(&*im.self_ty);
                let base = s.split('<').next().unwrap().to_string();
                for ii in &im.items {
                    if let syn::ImplItem::Fn(m) = ii {
                        v.push((Some(base.clone()), Fun { attrs: m.attrs.clone(), vis: Some(m.vis.clone()), sig: m.sig.clone(), block: m.block.clone() }));
                    }
                }
            }
            _ => {}
        }
    }
    v
}

pub fn find_adt(f: &FileSrc, name: &str) -> Result<String, String> {
    let mut items = vec![];
    all_items(&f.ast.items, &mut items);
    for it in items {
        match it {
            syn::Item::Struct(s) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for fl in s.fields.iter_mut() { fl.attrs.clear(); fl.vis = syn::parse_quote!(pub); }
                return Ok(quote::quote!(#s).to_string());
            }
            syn::Item::Enum(e) if e.ident == name => {
                let mut e = e.clone();
                e.attrs.clear();
                e.vis = syn::parse_quote!(pub);
                for v in e.variants.iter_mut() { v.attrs.clear(); for fl in v.fields.iter_mut() { fl.attrs.clear(); } }
                return Ok(quote::quote!(#e).to_string());
            }
            _ => {}
        }
    }
    Err(format!("no type `{name}`"))
}


/// The text of a `const NAME: T = EXPR;`
pub fn find_const(f: &FileSrc, name: &str) -> Result<String, String> {
    let mut items = vec![];
    all_items(&f.ast.items, &mut items);
    for it in items {
        if let syn::Item::Const(c) = it {
            if c.ident == name { return Ok(f.text[c.expr.span().byte_range()].to_string()); }
        }
    }
    Err(format!("no const `{name}`"))
}
