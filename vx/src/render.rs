// Span edits that turn one source function into a Verus function.
use std::collections::HashMap;
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Default, Clone)]
pub struct LoopSpec { pub inv: String, pub dec: String, pub begin: String, pub end: String, pub before: String, pub after: String }

#[derive(Default, Clone)]
pub struct Spec {
    pub vis: String,
    pub rename: Option<String>,
    pub ret: Option<String>,
    pub contract: String,
    pub entry: String,
    pub exit: String,
    pub skeleton: Option<String>,
    pub loops: HashMap<usize, LoopSpec>,
    pub roles: Vec<(String, String)>,
    pub replace: Vec<(String, String)>,
    pub sigreplace: Vec<(String, String)>,
    pub after: Vec<(String, String)>,
    pub before: Vec<(String, String)>,
    pub guard: bool,
    pub post: Vec<(String, String)>,
    pub attrs: String,
    pub leave: String,
    pub leavewith: Option<String>,
}

struct Scan<'a> { text: &'a str, loops: Vec<LoopAt>, macros: Vec<(std::ops::Range<usize>, String, bool)>, sums: Vec<(std::ops::Range<usize>, String)>, lets: Vec<(String, String)>, types: Vec<(String, String)>, skel: String, asserts: usize }
struct LoopAt { kind: Kind, head: std::ops::Range<usize>, close: std::ops::Range<usize>, label: String, leaves: bool }
// does the block never reach its end (as its last statement shows)?
fn leaves(b: &syn::Block) -> bool { match b.stmts.last() { Some(syn::Stmt::Expr(e, _)) => leaves_expr(e), _ => false } }
fn leaves_expr(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Break(_) | syn::Expr::Return(_) | syn::Expr::Continue(_) => true,
        syn::Expr::Block(b) => leaves(&b.block),
        syn::Expr::If(i) => leaves(&i.then_branch) && i.else_branch.as_ref().is_some_and(|(_, e)| leaves_expr(e)),
        syn::Expr::Match(m) => m.arms.iter().all(|a| leaves_expr(&a.body)),
        _ => false,
    }
}
enum Kind {
    Range { pat: String, a: String, b: String, incl: bool },
    SliceMut { pat: String, v: String },
    Slice { pat: String, v: String, enumerate: Option<String>, byref: bool, take: Option<String> },
    Items { pat: String, e: String },
    WhileLet { pat: String, e: String },
    While { cond: String, lt: Option<(String, String)> },
    Loop,
    Other(String),
}

impl<'a> Scan<'a> {
    fn t<S: Spanned>(&self, s: &S) -> String { self.text[s.span().byte_range()].to_string() }
    fn block(&self, start: usize, b: &syn::Block) -> (std::ops::Range<usize>, std::ops::Range<usize>) {
        (start..b.brace_token.span.open().byte_range().end, b.brace_token.span.close().byte_range())
    }
}

impl<'a> Scan<'a> {
    /// `X.iter().map(|p| B).sum::<F64>()` -> vx_sum_map(&X, closure with its result spelled out)
    fn sum(&self, m: &syn::ExprMethodCall) -> Option<String> {
        if m.method != "sum" { return None; }
        let syn::Expr::MethodCall(mp) = &*m.receiver else { return None };
        if mp.method != "map" || mp.args.len() != 1 { return None; }
        let syn::Expr::MethodCall(it) = &*mp.receiver else { return None };
        if it.method != "iter" || !it.args.is_empty() { return None; }
        let syn::Expr::Closure(c) = &mp.args[0] else { return None };
        if c.inputs.len() != 1 { return None; }
        let (name, bind) = match &c.inputs[0] {
            syn::Pat::Ident(i) => (i.ident.to_string(), String::new()),
            syn::Pat::Reference(r) => match &*r.pat { syn::Pat::Ident(i) => (i.ident.to_string(), format!("let {0} = *{0}; ", i.ident)), _ => return None },
            _ => return None,
        };
        let spec = self.fspec(&c.body, &name)?;
        let body = self.t(&*c.body);
        Some(format!("vx_sum_map(&{}, |{name}: &F64| -> (vx_o: F64) ensures vx_o == {spec} {{ {bind}{body} }})", self.t(&*it.receiver)))
    }
    /// what a floating-point expression over one variable computes, in the specification language
    fn fspec(&self, e: &syn::Expr, v: &str) -> Option<String> {
        Some(match e {
            syn::Expr::Paren(p) => self.fspec(&p.expr, v)?,
            syn::Expr::Path(p) if p.path.is_ident(v) => format!("(*{v})"),
            syn::Expr::Unary(u) => match u.op { syn::UnOp::Deref(_) => self.fspec(&u.expr, v)?, syn::UnOp::Neg(_) => format!("fneg({})", self.fspec(&u.expr, v)?), _ => return None },
            syn::Expr::Binary(b) => {
                let f = match b.op { syn::BinOp::Add(_) => "fadd", syn::BinOp::Sub(_) => "fsub", syn::BinOp::Mul(_) => "fmul", syn::BinOp::Div(_) => "fdiv", _ => return None };
                format!("{f}({}, {})", self.fspec(&b.left, v)?, self.fspec(&b.right, v)?)
            }
            syn::Expr::MethodCall(m) if m.method == "abs" && m.args.is_empty() => format!("fabs({})", self.fspec(&m.receiver, v)?),
            syn::Expr::MethodCall(m) if m.method == "powi" && m.args.len() == 1 => {
                let (x, n) = (self.fspec(&m.receiver, v)?, self.t(&m.args[0]));
                if n.trim() == "2" { format!("fmul({x}, {x})") } else if n.trim().chars().all(|c| c.is_ascii_digit()) { format!("fpowi({x}, {n}i32)") } else { return None }
            }
            _ => return None,
        })
    }
}

fn strip_paren(e: &syn::Expr) -> &syn::Expr { match e { syn::Expr::Paren(p) => strip_paren(&p.expr), _ => e } }

impl<'a, 'ast> Visit<'ast> for Scan<'a> {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let Some(i) = &l.init {
            let mut p = &l.pat;
            let mut ty = None;
            if let syn::Pat::Type(t) = p { p = &t.pat; ty = Some(self.t(&*t.ty)); }
            if let syn::Pat::Ident(id) = p {
                let s: String = self.t(&*i.expr).split_whitespace().collect();
                self.lets.push((id.ident.to_string(), s));
                if let Some(t) = ty { self.types.push((id.ident.to_string(), t.split_whitespace().collect())); }
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        let pat = self.t(&*f.pat);
        let e = strip_paren(&f.expr);
        let kind = match e {
            syn::Expr::Range(r) if r.start.is_some() && r.end.is_some() => Kind::Range {
                pat, a: self.t(r.start.as_ref().unwrap()), b: self.t(r.end.as_ref().unwrap()),
                incl: matches!(r.limits, syn::RangeLimits::Closed(_)),
            },
            syn::Expr::Reference(r) if r.mutability.is_none() && matches!(&*f.pat, syn::Pat::Tuple(_)) => { let _ = r; Kind::Items { pat, e: self.t(e) } }
            syn::Expr::Reference(r) if r.mutability.is_none() => Kind::Slice { pat, v: self.t(&*r.expr), enumerate: None, byref: true, take: None },
            syn::Expr::Reference(r) if matches!(&*f.pat, syn::Pat::Ident(_)) => Kind::SliceMut { pat, v: self.t(&*r.expr) },
            syn::Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() && matches!(&*f.pat, syn::Pat::Ident(_)) && matches!(&*m.receiver, syn::Expr::Field(_) | syn::Expr::Path(_)) =>
                Kind::SliceMut { pat, v: self.t(&*m.receiver) },
            syn::Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() =>
                Kind::Slice { pat, v: self.t(&*m.receiver), enumerate: None, byref: true, take: None },
            syn::Expr::MethodCall(m) => {
                // X.iter() [.enumerate()] [.take(n)] in either order
                let (mut cur, mut en, mut take) = (m, false, None);
                loop {
                    if cur.method == "enumerate" && cur.args.is_empty() && !en { en = true; }
                    else if cur.method == "take" && cur.args.len() == 1 && take.is_none() { take = Some(self.t(&cur.args[0])); }
                    else { break; }
                    match &*cur.receiver { syn::Expr::MethodCall(x) => cur = x, _ => break }
                }
                match (&*f.pat, en) {
                    (_, false) if cur.method == "iter" && cur.args.is_empty() => Kind::Slice { pat, v: self.t(&*cur.receiver), enumerate: None, byref: true, take },
                    (syn::Pat::Tuple(tp), true) if cur.method == "iter" && cur.args.is_empty() && tp.elems.len() == 2 =>
                        Kind::Slice { pat: self.t(&tp.elems[1]), v: self.t(&*cur.receiver), enumerate: Some(self.t(&tp.elems[0])), byref: true, take },
                    (_, false) if take.is_none() && cur.method != "iter" => Kind::Items { pat, e: self.t(e) },
                    _ => Kind::Other(self.t(e)),
                }
            }
            syn::Expr::Path(_) | syn::Expr::Call(_) | syn::Expr::Array(_) if matches!(&*f.pat, syn::Pat::Ident(_) | syn::Pat::Tuple(_)) => Kind::Items { pat, e: self.t(e) },
            _ => Kind::Other(self.t(e)),
        };
        let start = f.label.as_ref().map(|l| l.span().byte_range().start).unwrap_or(f.for_token.span().byte_range().start);
        let label = f.label.as_ref().map(|l| self.t(l)).unwrap_or_default();
        let (head, close) = self.block(start, &f.body);
        self.loops.push(LoopAt { kind, head, close, label, leaves: leaves(&f.body) });
        self.skel.push('(');
        syn::visit::visit_block(self, &f.body);
        self.skel.push(')');
    }
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        let kind = match &*w.cond {
            syn::Expr::Let(l) => Kind::WhileLet { pat: self.t(&*l.pat), e: self.t(&*l.expr) },
            c => {
                let lt = match strip_paren(c) {
                    syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Lt(_)) => Some((self.t(&*b.left), self.t(&*b.right))),
                    _ => None,
                };
                Kind::While { cond: self.t(c), lt }
            }
        };
        let start = w.label.as_ref().map(|l| l.span().byte_range().start).unwrap_or(w.while_token.span().byte_range().start);
        let label = w.label.as_ref().map(|l| self.t(l)).unwrap_or_default();
        let (head, close) = self.block(start, &w.body);
        self.loops.push(LoopAt { kind, head, close, label, leaves: leaves(&w.body) });
        self.skel.push('(');
        syn::visit::visit_block(self, &w.body);
        self.skel.push(')');
    }
    fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
        let start = w.label.as_ref().map(|l| l.span().byte_range().start).unwrap_or(w.loop_token.span().byte_range().start);
        let label = w.label.as_ref().map(|l| self.t(l)).unwrap_or_default();
        let (head, close) = self.block(start, &w.body);
        self.loops.push(LoopAt { kind: Kind::Loop, head, close, label, leaves: leaves(&w.body) });
        self.skel.push('(');
        syn::visit::visit_block(self, &w.body);
        self.skel.push(')');
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if let Some(x) = self.sum(m) { self.sums.push((m.span().byte_range(), x)); return; }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        let name = m.mac.path.segments.last().unwrap().ident.to_string();
        self.macros.push((m.mac.span().byte_range(), name, true));
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        let name = m.mac.path.segments.last().unwrap().ident.to_string();
        self.macros.push((m.mac.span().byte_range(), name, false));
    }
}

/// `assert!(c, ..)` / `assert_eq!(a, b, ..)` -> the test spelled out
fn assert_text(m: &str, eq: bool) -> Option<String> {
    use syn::parse::Parser;
    let mac: syn::Macro = syn::parse_str(m).ok()?;
    let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(mac.tokens.clone()).ok()?;
    let t: Vec<String> = args.iter().map(|e| m[e.span().byte_range()].to_string()).collect();
    Some(if eq { format!("if !(({}) == ({})) {{ vx_panic_allowed(); }}", t.first()?, t.get(1)?) } else { format!("if !({}) {{ vx_panic_allowed(); }}", t.first()?) })
}

/// `format!("a {} b {x}", e)` -> the pieces put one after the other
fn fmt_text(m: &str) -> Option<String> {
    use syn::parse::Parser;
    let mac: syn::Macro = syn::parse_str(m).ok()?;
    let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(mac.tokens.clone()).ok()?;
    let mut it = args.iter();
    let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = it.next()? else { return None };
    let rest: Vec<String> = it.map(|e| m[e.span().byte_range()].to_string()).collect();
    let s: Vec<char> = l.value().chars().collect();
    let (mut acc, mut lit, mut k, mut i) = (None::<String>, String::new(), 0, 0);
    let mut add = |x: String, acc: &mut Option<String>| { *acc = Some(match acc.take() { None => x, Some(a) => format!("vx_cc(&{a}, &{x})") }); };
    while i < s.len() {
        match s[i] {
            '{' if s.get(i + 1) == Some(&'{') => { lit.push('{'); i += 2; }
            '}' if s.get(i + 1) == Some(&'}') => { lit.push('}'); i += 2; }
            '{' => {
                let j = (i..s.len()).find(|&j| s[j] == '}')?;
                let name: String = s[i + 1..j].iter().collect();
                let e = if name.is_empty() { k += 1; rest.get(k - 1)?.clone() } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.starts_with(|c: char| c.is_ascii_digit()) { name } else { return None };
                if !lit.is_empty() { add(format!("{lit:?}"), &mut acc); lit.clear(); }
                add(format!("({e})"), &mut acc);
                i = j + 1;
            }
            c => { lit.push(c); i += 1; }
        }
    }
    if !lit.is_empty() || acc.is_none() { add(format!("{lit:?}"), &mut acc); }
    let a = acc?;
    Some(if a.starts_with("vx_cc") { a } else { format!("vx_cc(&{a}, &\"\")") })
}

/// the local that fits, preferably the one that has the role's name
// `(&a, b)`: what the references point to is bound in a second step
fn refs(pat: &str, k: usize) -> (String, String) {
    use syn::parse::Parser;
    let Ok(p) = syn::Pat::parse_single.parse_str(pat) else { return (pat.to_string(), String::new()) };
    let (mut derefs, mut n) = (String::new(), 0);
    let mut one = |p: &syn::Pat| -> String {
        if let syn::Pat::Reference(r) = p {
            let inner = &r.pat;
            n += 1;
            derefs += &format!(" let {} = *vx_p{k}_{n};", quote::quote!(#inner));
            format!("vx_p{k}_{n}")
        } else { quote::quote!(#p).to_string() }
    };
    let t = match &p {
        syn::Pat::Tuple(t) => format!("({})", t.elems.iter().map(|x| one(x)).collect::<Vec<_>>().join(", ")),
        syn::Pat::Reference(_) => one(&p),
        _ => pat.to_string(),
    };
    if derefs.is_empty() { (pat.to_string(), derefs) } else { (t, derefs) }
}

fn choose(all: &[(String, String)], key: &str, fits: impl Fn(&String) -> bool) -> Option<String> {
    let c: Vec<&String> = all.iter().filter(|(_, i)| fits(i)).map(|(n, _)| n).collect();
    c.iter().find(|n| **n == key).or(c.first()).map(|n| n.to_string())
}

fn sub_roles(s: &str, roles: &HashMap<String, String>) -> String {
    let mut o = s.to_string();
    for (k, v) in roles { o = o.replace(&format!("${{{k}}}"), v); }
    o
}

fn aside(sp: &Spec, f: &syn::ItemFn, edits: &mut Vec<String>) -> Spec {
    struct Bound(std::collections::HashSet<String>);
    impl<'ast> Visit<'ast> for Bound { fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) { self.0.insert(p.ident.to_string()); syn::visit::visit_pat_ident(self, p); } }
    let mut b = Bound(Default::default());
    b.visit_item_fn(f);
    let mut sp = sp.clone();
    let mut texts: Vec<&mut String> = vec![&mut sp.entry, &mut sp.exit, &mut sp.leave];
    for (_, c) in sp.after.iter_mut().chain(sp.before.iter_mut()) { texts.push(c); }
    for l in sp.loops.values_mut() { texts.extend([&mut l.inv, &mut l.dec, &mut l.begin, &mut l.end, &mut l.before, &mut l.after]); }
    let decl = regex::Regex::new(r"\blet ghost (?:mut )?(\(?[a-z_0-9, ]+)").unwrap();
    let mut names: Vec<String> = vec![];
    for t in &texts { for c in decl.captures_iter(t) { names.extend(c[1].trim_start_matches('(').split(',').map(|x| x.trim().trim_start_matches("mut ").to_string())); } }
    names.sort(); names.dedup();
    for n in names.iter().filter(|n| !n.is_empty() && b.0.contains(*n)) {
        let re = regex::Regex::new(&format!(r"(^|[^.$A-Za-z0-9_{{]|\{{\s|\.\.)({n})\b")).unwrap();
        let call = |rest: &str| rest.starts_with('(');
        for t in texts.iter_mut() {
            let mut o = String::new(); let mut k = 0;
            while let Some(c) = re.captures_at(t, k) {
                let g = c.get(2).unwrap();
                o += &t[k..g.start()];
                if !call(&t[g.end()..]) { o += "vxg_"; }
                o += n;
                k = g.end();
            }
            o += &t[k..];
            **t = o;
        }
        edits.push(format!("ghost variable `{n}` called `vxg_{n}`: the source has a variable of that name"));
    }
    drop(texts);
    sp
}

pub struct Out { pub text: String, pub edits: Vec<String>, pub skel: String }

// a claim that must fail: this point can be reached (numbered, so that one probe does not cut off what follows it)
fn probe() -> String {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    format!("\nproof {{ if vx_any({}) {{ assert(false); }} }} // reachability probe\n", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed))
}

pub fn render(text: &str, sp: &Spec, reach: bool) -> Result<Out, String> {
    let mut edits = vec![];
    let mut text = text.to_string();
    for (re, to) in &sp.replace {
        let n = simple_replace(&mut text, re, to)?;
        if n > 0 { edits.push(format!("replaced {n} x /{re}/ by `{to}`")); }
    }
    let mut f: syn::ItemFn = syn::parse_str(&text).map_err(|e| format!("parse after replace: {e}"))?;
    // `mut self` parameters: the body works on a local copy
    if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() {
        if let (None, Some(m)) = (&r.reference, &r.mutability) {
            let (m, b) = (m.span().byte_range(), f.block.brace_token.span.open().byte_range().end);
            let body = regex::Regex::new(r"\bself\b").unwrap().replace_all(&text[b..], "vx_self").to_string();
            text = format!("{}{} let mut vx_self = self; {}", &text[..m.start], &text[m.end..b], body);
            f = syn::parse_str(&text).map_err(|e| format!("parse: {e}"))?;
            edits.push("`mut self` parameter: the body works on a local that starts as `self`".into());
        }
    }
    let mut sc = Scan { text: &text, loops: vec![], macros: vec![], sums: vec![], lets: vec![], types: vec![], skel: String::new(), asserts: 0 };
    sc.visit_block(&f.block);
    let _ = sc.asserts;
    if let Some(sk) = &sp.skeleton {
        if sk != &sc.skel { return Err(format!("loop skeleton is {} but the contract is written for {}", sc.skel, sk)); }
    }
    // roles
    let mut roles = HashMap::new();
    for (k, pat) in &sp.roles {
        // alternatives separated by ||
        let mut name = None;
        for alt in pat.split("||") {
            let alt = alt.trim();
            if alt == "tail" {
                if let Some(syn::Stmt::Expr(e, None)) = f.block.stmts.last() {
                    let s = text[e.span().byte_range()].trim().to_string();
                    let s = s.strip_prefix("Ok(").and_then(|x| x.strip_suffix(')')).unwrap_or(&s).trim().to_string();
                    if s.chars().all(|c| c.is_alphanumeric() || c == '_') { name = Some(s); }
                }
            } else if let Some(sub) = alt.strip_prefix("init~") {
                let want: String = sub.split_whitespace().collect();
                name = choose(&sc.lets, k, |i| i.contains(&want));
            } else if let Some(sub) = alt.strip_prefix("init=") {
                let want: String = sub.split_whitespace().collect();
                name = choose(&sc.lets, k, |i| *i == want);
            } else if let Some(sub) = alt.strip_prefix("type=") {
                let want: String = sub.split_whitespace().collect();
                name = choose(&sc.types, k, |i| *i == want);
            } else if let Some(want) = alt.strip_prefix("name=") {
                name = sc.lets.iter().find(|(n, _)| n == want).map(|(n, _)| n.clone());
            } else if let Some(k) = alt.strip_prefix("param ") {
                let k: usize = k.trim().parse().map_err(|_| "param index")?;
                if let Some(syn::FnArg::Typed(p)) = f.sig.inputs.iter().nth(k) { name = Some(text[p.pat.span().byte_range()].trim_start_matches("mut ").to_string()); }
            } else { return Err(format!("bad role {alt}")); }
            if name.is_some() { break; }
        }
        match name { Some(n) => { roles.insert(k.clone(), n); } None => return Err(format!("lost anchor: no local plays the role `{k}` ({pat})")) }
    }
    // ghost variables that carry the name of a variable of the source step aside
    let sp = &aside(sp, &f, &mut edits);
    let nloops = sc.loops.len();
    let subst = |s: &str, within_end: Option<usize>| -> String {
        let mut o = sub_roles(s, &roles);
        for k in (0..nloops).rev() {
            let (i, e, c) = match &sc.loops[k].kind {
                Kind::While { lt: Some((x, y)), .. } => (format!("({x})"), format!("({y})"), if within_end == Some(k) { format!("({x} - 1)") } else { format!("({x})") }),
                _ => (format!("__i{k}"), format!("__e{k}"), format!("(__i{k} - 1)")),
            };
            o = o.replace(&format!("$i{k}"), &i).replace(&format!("$e{k}"), &e).replace(&format!("$c{k}"), &c).replace(&format!("$s{k}"), &format!("__s{k}"));
        }
        o
    };
    // edits as (pos, end, text); inserted right-to-left
    let mut ed: Vec<(usize, usize, String)> = vec![];
    for (k, l) in sc.loops.iter().enumerate() {
        let ls = sp.loops.get(&k).cloned().unwrap_or_default();
        let inv = subst(&ls.inv, None);
        let begin = subst(&ls.begin, None);
        let mut end = subst(&ls.end, Some(k));
        if reach && !l.leaves { end += &probe(); }
        if !end.trim().is_empty() { end = format!("\n;{end}"); } // the source may end the body in an expression
        let before = subst(&ls.before, None);
        let after = subst(&ls.after, None);
        let dec = |d: &str| -> String {
            let s = if ls.dec.trim().is_empty() { d.to_string() } else { subst(&ls.dec, None) };
            if s.is_empty() { s } else { format!(" decreases {s} ") }
        };
        let lab = if l.label.is_empty() { String::new() } else { format!("{} ", l.label) };
        match &l.kind {
            Kind::Range { pat, a, b, incl } => {
                let (cmp, d) = if *incl { ("<=", format!("__e{k} + 1 - __i{k}")) } else { ("<", format!("__e{k} - __i{k}")) };
                let bind = if pat == "_" { String::new() } else { format!("let {pat} = __i{k}; ") };
                ed.push((l.head.start, l.head.end, format!("{{ let mut __i{k} = {a}; let __e{k} = {b};\n{before}\n{lab}while __i{k} {cmp} __e{k}\n{inv}\n{}{{ {bind}__i{k} = __i{k} + 1;\n{begin}\n", dec(&d))));
                ed.push((l.close.start, l.close.end, format!("{end}\n}}\n{after}\n}}")));
                edits.push(format!("loop {k}: `for {pat} in {a}..{}{b}` desugared to while", if *incl { "=" } else { "" }));
            }
            Kind::Slice { pat, v, enumerate, byref, take } => {
                let bound = match take { None => format!("__s{k}.len()"), Some(t) => format!("{{ let __t{k}: usize = {t}; if __t{k} < __s{k}.len() {{ __t{k} }} else {{ __s{k}.len() }} }}") };
                let bind = format!("let {pat} = {}__s{k}[__i{k}]; ", if *byref { "&" } else { "" });
                let en = enumerate.as_ref().map(|e| format!("let {e} = __i{k}; ")).unwrap_or_default();
                ed.push((l.head.start, l.head.end, format!("{{ let __s{k} = &{v}; let mut __i{k}: usize = 0; let __e{k}: usize = {bound};\n{before}\n{lab}while __i{k} < __e{k}\n{inv}\n{}{{ {en}{bind}__i{k} = __i{k} + 1;\n{begin}\n", dec(&format!("__e{k} - __i{k}")))));
                ed.push((l.close.start, l.close.end, format!("{end}\n}}\n{after}\n}}")));
                edits.push(format!("loop {k}: `for {pat} in {v}` (slice iteration) desugared to an indexed while"));
            }
            Kind::SliceMut { pat, v } => {
                ed.push((l.head.start, l.head.end, format!("{{ let mut __i{k}: usize = 0; let __e{k}: usize = {v}.len();\n{before}\n{lab}while __i{k} < __e{k}\n{inv}\n{}{{ let {pat} = &mut {v}[__i{k}]; __i{k} = __i{k} + 1;\n{begin}\n", dec(&format!("__e{k} - __i{k}")))));
                ed.push((l.close.start, l.close.end, format!("{end}\n}}\n{after}\n}}")));
                edits.push(format!("loop {k}: `for {pat} in {v}.iter_mut()` desugared to an indexed while"));
            }
            Kind::Items { pat, e } => {
                let (pat, derefs) = refs(pat, k);
                ed.push((l.head.start, l.head.end, format!("{{ let __s{k} = VxItems::vx_items({e}); let mut __i{k}: usize = 0; let __e{k}: usize = __s{k}.len();\n{before}\n{lab}while __i{k} < __e{k}\n{inv}\n{}{{ let {pat} = vx_own(&__s{k}, __i{k});{derefs} __i{k} = __i{k} + 1;\n{begin}\n", dec(&format!("__e{k} - __i{k}")))));
                ed.push((l.close.start, l.close.end, format!("{end}\n}}\n{after}\n}}")));
                edits.push(format!("loop {k}: `for {pat} in {e}` desugared to an indexed while over the items"));
            }
            Kind::WhileLet { pat, e } => {
                ed.push((l.head.start, l.head.end, format!("{{ {before}\n{lab}loop\n{inv}\n{}{{ match {e} {{ {pat} => {{\n{begin}\n", dec(""))));
                ed.push((l.close.start, l.close.end, format!("{end}\n}}, _ => break, }} }}\n{after}\n}}")));
                edits.push(format!("loop {k}: `while let` desugared to loop/match"));
            }
            Kind::While { cond, lt } => {
                let d = lt.as_ref().map(|(x, y)| format!("({y}) - ({x})")).unwrap_or_default();
                ed.push((l.head.start, l.head.end, format!("{{ {before}\n{lab}while {cond}\n{inv}\n{}{{\n{begin}\n", dec(&d))));
                ed.push((l.close.start, l.close.end, format!("{end}\n}}\n{after}\n}}")));
            }
            Kind::Loop => {
                ed.push((l.head.start, l.head.end, format!("{before}\n{lab}loop\n{inv}\n{}{{\n{begin}\n", dec(""))));
                ed.push((l.close.start, l.close.end, format!("{end}\n}}")));
                if !after.trim().is_empty() { return Err("after on loop unsupported".into()); }
            }
            Kind::Other(e) => return Err(format!("unsupported iterator `{e}`")),
        }
    }
    for (r, x) in &sc.sums {
        ed.push((r.start, r.end, x.clone()));
        edits.push("`X.iter().map(f).sum()` read as the sum of what f gives for the elements, f's result spelled out".into());
    }
    for (r, name, stmt) in &sc.macros {
        let fm = if name == "format" { fmt_text(&text[r.clone()]) } else { None };
        let am = if sp.guard && matches!(name.as_str(), "assert" | "assert_eq") { assert_text(&text[r.clone()], name == "assert_eq") } else { None };
        if let Some(x) = am {
            if ed.iter().any(|(a, b, _)| r.start >= *a && r.end <= *b && b > a) { continue; }
            ed.push((r.start, r.end, x));
            edits.push(format!("`{name}!(..)` replaced by the test and `vx_panic_allowed()`"));
            continue;
        }
        let rep = match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(if sp.guard { "vx_panic_allowed()" } else { "vx_panic()" }),
            "format" => Some(fm.as_deref().unwrap_or("vx_format()")),
            "println" | "eprintln" | "print" | "dbg" => Some("()"),
            "vec" | "matches" | "assert" | "assert_eq" | "debug_assert" | "proof" => None,
            m => return Err(format!("unsupported macro {m}!")),
        };
        if let Some(x) = rep {
            let _ = stmt;
            if ed.iter().any(|(a, b, _)| r.start >= *a && r.end <= *b && b > a) { continue; }
            ed.push((r.start, r.end, x.to_string()));
            edits.push(format!("`{name}!(..)` replaced by `{x}`"));
        }
    }
    // body entry / exit
    let bo = f.block.brace_token.span.open().byte_range().end;
    let entry = subst(&sp.entry, None);
    ed.push((bo, bo, format!("\n{entry}\n")));
    if !sp.exit.trim().is_empty() || reach {
        let mut x = subst(&sp.exit, None);
        if reach { x += &probe(); }
        match f.block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::If(_) | syn::Expr::Match(_)) => {
                let p = e.span().byte_range().start;
                ed.push((p, p, format!("\n{x}\n")));
            }
            Some(syn::Stmt::Expr(e @ (syn::Expr::If(_) | syn::Expr::Match(_)), None)) if !matches!(f.sig.output, syn::ReturnType::Default) => {
                let p = e.span().byte_range().start;
                ed.push((p, p, format!("\n{x}\n")));
            }
            _ => {
                let p = f.block.brace_token.span.close().byte_range().start;
                ed.push((p, p, format!("\n;{x}\n")));
            }
        }
    }
    // ghost code on every way out of the closures
    if !sp.leave.trim().is_empty() || sp.leavewith.is_some() {
        let lw = sp.leavewith.clone().unwrap_or("vx_q".into());
        let mut v = Exits { text: &text, inside: 0, out: vec![], rets: vec![], bad: false };
        v.visit_block(&f.block);
        if v.bad { return Err("unsupported way out of a closure".into()); }
        let lv = subst(&sp.leave, None);
        for r in v.out {
            if v.rets.iter().any(|(a, _)| a == &r) { continue; }
            ed.push((r.start, r.start, "\nlet vx_q = ".into()));
            ed.push((r.end, r.end, format!(";\n{lv}\n{lw}\n")));
        }
        for (r, e) in v.rets {
            ed.push((r.start, e.start, "{ let vx_q = ".into()));
            ed.push((e.end, r.end, format!(";\n{lv}\nreturn {lw} }}")));
        }
    }
    // statement anchors: ghost code after / before the (innermost) statement that contains SUBSTR
    for (is_after, list) in [(true, &sp.after), (false, &sp.before)] {
        for (sub, code) in list {
            let want: String = sub_roles(sub, &roles).split_whitespace().collect();
            let mut v = StmtFind { text: &text, want: &want, after: is_after, best: None };
            v.visit_block(&f.block);
            let Some(r) = v.best else { return Err(format!("lost anchor: no statement contains `{sub}`")) };
            let p = if is_after { r.end } else { r.start };
            ed.push((p, p, format!("\n{}\n", subst(code, None))));
        }
    }
    // signature
    if let Some(name) = &sp.rename {
        let r = f.sig.ident.span().byte_range();
        ed.push((r.start, r.end, name.clone()));
    }
    let contract = subst(&sp.contract, None);
    if let syn::ReturnType::Type(_, ty) = &f.sig.output {
        if let Some(rn) = &sp.ret {
            let r = ty.span().byte_range();
            ed.push((r.start, r.start, format!("({rn}: ")));
            ed.push((r.end, r.end, ")".into()));
        }
    }
    let b = f.block.span().byte_range().start;
    ed.push((b, b, format!("\n{contract}\n")));
    ed.sort_by(|a, b| (b.0, b.1).cmp(&(a.0, a.1)));
    let mut out = text.clone();
    for (a, b, t) in ed { out.replace_range(a..b, &t); }
    for (re, to) in &sp.sigreplace {
        let cut = if contract.trim().is_empty() { out.find('{') } else { out.find(&contract) }.unwrap_or(out.len());
        let mut head = out[..cut].to_string();
        let n = simple_replace(&mut head, re, to)?;
        if n > 0 { edits.push(format!("signature: replaced {n} x /{re}/ by `{to}`")); }
        out = format!("{head}{}", &out[cut..]);
    }
    for (re, to) in &sp.post {
        let n = simple_replace(&mut out, &sub_roles(re, &roles), &sub_roles(to, &roles))?;
        if n > 0 { edits.push(format!("annotation: replaced {n} x /{re}/ by `{to}`")); }
    }
    // (closures whose only parameter is `_`)
    let out = out.replace("|_|", "|_vx|");
    let out = format!("{}{}{}", sp.attrs, sp.vis, out);
    Ok(Out { text: out, edits, skel: sc.skel.clone() })
}

/// the ways out of the `move` closures of a function: `return E` and the value of the body
struct Exits<'a> { text: &'a str, inside: usize, out: Vec<std::ops::Range<usize>>, rets: Vec<(std::ops::Range<usize>, std::ops::Range<usize>)>, bad: bool }
impl<'a, 'ast> Visit<'ast> for Exits<'a> {
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        if c.capture.is_none() || self.inside > 0 { if self.inside > 0 { return; } syn::visit::visit_expr_closure(self, c); return; }
        let _ = self.text;
        self.inside += 1;
        match &*c.body {
            syn::Expr::Block(b) => {
                match b.block.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) => self.out.push(e.span().byte_range()),
                    Some(syn::Stmt::Expr(syn::Expr::Return(_), Some(_))) => {}
                    _ => self.bad = true,
                }
                self.visit_block(&b.block);
            }
            _ => self.bad = true,
        }
        self.inside -= 1;
    }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        if self.inside > 0 { match &r.expr { Some(e) => self.rets.push((r.span().byte_range(), e.span().byte_range())), None => self.bad = true } }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        if self.inside > 0 { self.bad = true; }
        syn::visit::visit_expr_try(self, t);
    }
}

struct StmtFind<'a> { text: &'a str, want: &'a str, after: bool, best: Option<std::ops::Range<usize>> }
impl<'a, 'ast> Visit<'ast> for StmtFind<'a> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let r = s.span().byte_range();
        let t: String = self.text[r.clone()].split_whitespace().collect();
        // (nothing can follow the value of a block)
        let value = self.after && matches!(s, syn::Stmt::Expr(e, None) if !matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_) | syn::Expr::Loop(_)));
        let value = value || t.starts_with("letvx_r:");
        if t.contains(self.want) && !value {
            let shorter = match &self.best { None => true, Some(b) => r.start >= b.start && r.end <= b.end };
            if shorter { self.best = Some(r); }
        }
        syn::visit::visit_stmt(self, s);
    }
}

/// Replace with a small regex engine: uses the `regex` crate.
fn simple_replace(t: &mut String, re: &str, to: &str) -> Result<usize, String> {
    let r = regex::Regex::new(re).map_err(|e| format!("regex {re}: {e}"))?;
    let n = r.find_iter(t).count();
    if n > 0 { *t = r.replace_all(t, to).to_string(); }
    Ok(n)
}
