use crate::{inline, item, render, sym};
use serde_json::{json, Value};
use std::collections::HashMap;
use syn::spanned::Spanned;

pub struct Res { pub text: String, pub report: Value }

fn expand(path: &std::path::Path, out: &mut Vec<String>) {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {e}", path.display()));
    for l in t.lines() {
        if let Some(r) = l.trim().strip_prefix("//@include ") {
            expand(&path.parent().unwrap().join(r.trim()), out);
        } else {
            out.push(l.to_string());
        }
    }
}

fn parse_spec(lines: &[String], defaults: &render::Spec) -> Result<render::Spec, String> {
    let mut sp = defaults.clone();
    let mut sec: Option<String> = None;
    let mut buf: Vec<String> = vec![];
    let mut flush = |sp: &mut render::Spec, sec: &Option<String>, buf: &mut Vec<String>| -> Result<(), String> {
        let body = buf.join("\n");
        buf.clear();
        let Some(s) = sec else { return Ok(()) };
        let w: Vec<&str> = s.splitn(2, ' ').collect();
        let rest = w.get(1).map(|s| s.trim()).unwrap_or("");
        match w[0] {
            "contract" => sp.contract = body,
            "entry" => sp.entry = body,
            "exit" => sp.exit = body,
            "leave" => sp.leave = body,
            "after" => sp.after.push((rest.into(), body)),
            "before" => sp.before.push((rest.into(), body)),
            "loop" => {
                let p: Vec<&str> = rest.split_whitespace().collect();
                let k: usize = p[0].parse().map_err(|_| format!("bad loop {rest}"))?;
                let l = sp.loops.entry(k).or_default();
                match p[1] {
                    "inv" => l.inv = body, "dec" => l.dec = body, "begin" => l.begin = body,
                    "end" => l.end = body, "before" => l.before = body, "after" => l.after = body,
                    x => return Err(format!("bad loop part {x}")),
                }
            }
            x => return Err(format!("bad section {x}")),
        }
        Ok(())
    };
    for l in lines {
        let t = l.trim();
        if let Some(d) = t.strip_prefix('%') {
            flush(&mut sp, &sec, &mut buf)?;
            sec = None;
            let (k, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match k {
                "leavewith" => sp.leavewith = Some(rest.into()),
                "ret" => sp.ret = Some(rest.into()),
                "rename" => sp.rename = Some(rest.into()),
                "vis" => sp.vis = format!("{rest} "),
                "guard" => sp.guard = true,
                "attrs" => sp.attrs += &format!("{rest}\n"),
                "skeleton" => sp.skeleton = if rest == "*" { None } else { Some(rest.into()) },
                "role" => { let (a, b) = rest.split_once(' ').ok_or("role")?; sp.roles.push((a.into(), b.trim().into())); }
                "replace" => { let (a, b) = rest.split_once("=>").ok_or("replace")?; sp.replace.push((a.trim().trim_matches('`').into(), b.trim().trim_matches('`').into())); }
                "post" => { let (a, b) = rest.split_once("=>").ok_or("post")?; sp.post.push((a.trim().trim_matches('`').into(), b.trim().trim_matches('`').into())); }
                "sigreplace" => { let (a, b) = rest.split_once("=>").ok_or("sigreplace")?; sp.sigreplace.push((a.trim().trim_matches('`').into(), b.trim().trim_matches('`').into())); }
                _ => sec = Some(d.to_string()),
            }
        } else {
            buf.push(l.clone());
        }
    }
    flush(&mut sp, &sec, &mut buf)?;
    Ok(sp)
}

/// the alternatives of a block: what stands before the first `//@alt` is shared by all of them
fn alternatives(v: &[String]) -> Vec<Vec<String>> {
    let mut parts: Vec<Vec<String>> = v.split(|l| l.trim() == "//@alt").map(|p| p.to_vec()).collect();
    let shared = parts.remove(0);
    if parts.is_empty() { return vec![shared]; }
    parts.into_iter().map(|p| shared.iter().cloned().chain(p).collect()).collect()
}

pub fn run(template: &str, root: &str, reach: bool, choice: &HashMap<String, usize>) -> Res {
    let mut lines = vec![];
    expand(std::path::Path::new(template), &mut lines);
    let mut known: Vec<String> = vec![];
    for l in &lines {
        if let Some(r) = l.trim().strip_prefix("//@fn ") {
            let (_, p) = r.trim().split_once(' ').unwrap();
            known.push(p.trim().to_string());
        }
        if let Some(r) = l.trim().strip_prefix("//@known ") { known.extend(r.split_whitespace().map(|s| s.to_string())); }
    }
    let mut lifts: Vec<crate::lift::Lift> = vec![];
    let mut cache: HashMap<String, Result<item::FileSrc, String>> = HashMap::new();
    let mut hcache: HashMap<String, Vec<inline::Helper>> = HashMap::new();
    let mut out = String::new();
    let mut nl = 1usize;
    let mut fns: Vec<Value> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut syms: Vec<Value> = vec![];
    // a contract without a skeleton is for a function without loops
    let base = render::Spec { skeleton: Some(String::new()), ..Default::default() };
    let mut defaults = base.clone();
    let mut i = 0;
    let mut push = |s: &str, out: &mut String, nl: &mut usize| { out.push_str(s); out.push('\n'); *nl += s.matches('\n').count() + 1; };
    while i < lines.len() {
        let l = lines[i].clone();
        let t = l.trim();
        let mut sec = || -> Vec<String> {
            let mut v = vec![];
            i += 1;
            while i < lines.len() && lines[i].trim() != "//@end" { v.push(lines[i].clone()); i += 1; }
            v
        };
        if t == "//@defaults" {
            let v = sec();
            match parse_spec(&v, &base) { Ok(s) => defaults = s, Err(e) => errors.push(e) }
        } else if let Some(r) = t.strip_prefix("//@fn ") {
            let (file, path) = r.trim().split_once(' ').unwrap();
            let path = path.trim();
            let v = sec();
            let src = cache.entry(file.to_string()).or_insert_with(|| item::load(root, file));
            let src = match src { Ok(s) => s, Err(e) => { errors.push(e.clone()); i += 1; continue; } };
            let helpers = hcache.entry(file.to_string()).or_insert_with(|| {
                item::helpers(src).into_iter().map(|(ty, fun)| {
                    let a = fun.sig.span().byte_range().start;
                    let b = fun.block.span().byte_range().end;
                    let text = src.text[a..b].to_string();
                    // re-parse so that spans are relative to `text`
                    let f2: syn::ItemFn = syn::parse_str(&text).unwrap();
                    inline::Helper { ty, fun: item::Fun { attrs: fun.attrs, vis: fun.vis, sig: f2.sig, block: *f2.block }, text }
                }).collect()
            });
            // the contract may come with several sets of invariants: those that fit the source are tried in turn
            let alts = alternatives(&v);
            let mut attempt = |v: &[String]| -> Result<(render::Out, Vec<String>, String), String> {
                let sp = parse_spec(v, &defaults)?;
                let (path, catch) = match path.strip_suffix("!catch") { Some(p) => (p, true), None => (path, false) };
                let (path, lifted) = match path.strip_suffix("!lift") { Some(p) => (p, true), None => (path, false) };
                let fun = item::find_fn(src, path)?;
                let a = fun.sig.span().byte_range().start;
                let b = fun.block.span().byte_range().end;
                let text = src.text[a..b].to_string();
                let line = src.text[..a].matches('\n').count() + 1;
                let self_ty = if path.starts_with('<') {
                    path.split_once(" for ").map(|(_, r)| r.trim_start_matches('&').split(|c: char| c == '<' || c == '>').next().unwrap().trim().to_string())
                } else { path.split_once("::").map(|(t, _)| t.to_string()) };
                let (text, mut log) = inline::inline(text, self_ty, helpers, &known)?;
                let mut extra = String::new();
                let lift = lifts.iter().find(|l| l.path == path);
                if lifted && lift.is_none() { return Err("no //@lift".into()); }
                let text = match lift { Some(l) => { let note = format!("the closure passed to `{}` is a function of its own, {}", l.call, l.name); extra = note; crate::lift::rewrite(&text, l, lifted)? } None => text };
                let (text, nf) = crate::lift::filters(&text)?;
                if nf > 0 { extra += &format!(" {nf} x `for P in X.filter(|Q| C)` read as a test in the loop"); }
                let text = match item::FOREIGN.with(|c| c.borrow().clone()) { Some(c) => crate::foreign::rewrite(&text, &c, catch)?, None => text };
                if !extra.is_empty() { log.push(extra.trim().to_string()); }
                let o = render::render(&text, &sp, reach)?;
                Ok((o, log, format!("{file}:{line}")))
            };
            let tried: Vec<_> = alts.iter().map(|a| (a, attempt(a))).collect();
            let nfit = tried.iter().filter(|(_, r)| r.is_ok()).count();
            let want = choice.get(path).copied().unwrap_or(0).min(nfit.saturating_sub(1));
            let (v, res) = if nfit > 0 { tried.into_iter().filter(|(_, r)| r.is_ok()).nth(want).unwrap() } else { tried.into_iter().next().unwrap() };
            match res {
                Ok((o, log, at)) => {
                    let start = nl;
                    push(&o.text, &mut out, &mut nl);
                    let mut edits = log; edits.extend(o.edits);
                    let sp = parse_spec(v, &defaults).unwrap();
                    fns.push(json!({"path": path, "name": sp.rename, "at": at, "start": start, "end": nl - 1, "edits": edits, "skeleton": o.skel, "alternative": want, "alternatives": nfit}));
                }
                // the function catches nothing: none of its calls may unwind then, which is checked on the function itself
                Err(e) if e == "nothing to catch" && path.ends_with("!catch") => {}
                Err(e) => errors.push(format!("{path}: {e}")),
            }
        } else if let Some(r) = t.strip_prefix("//@sym ") {
            // //@sym FILE PATH PREFIX N
            let p: Vec<&str> = r.split_whitespace().collect();
            let src = cache.entry(p[0].to_string()).or_insert_with(|| item::load(root, p[0]));
            let res = (|| -> Result<sym::Sym, String> {
                let src = src.as_ref().map_err(|e| e.clone())?;
                let fun = item::find_fn(src, p[1])?;
                let a = fun.sig.span().byte_range().start;
                let b = fun.block.span().byte_range().end;
                let helpers: Vec<inline::Helper> = item::helpers(src).into_iter().map(|(ty, fun)| {
                    let a = fun.sig.span().byte_range().start;
                    let b = fun.block.span().byte_range().end;
                    let text = src.text[a..b].to_string();
                    let f2: syn::ItemFn = syn::parse_str(&text).unwrap();
                    inline::Helper { ty, fun: item::Fun { attrs: fun.attrs, vis: fun.vis, sig: f2.sig, block: *f2.block }, text }
                }).collect();
                let self_ty = p[1].split_once("::").map(|(t, _)| t.to_string());
                let (text, _) = inline::inline(src.text[a..b].to_string(), self_ty, &helpers, &known)?;
                let f: syn::ItemFn = syn::parse_str(&text).map_err(|e| e.to_string())?;
                let mut s = sym::Sym::new(p[3].parse().unwrap(), p[2]);
                s.exec(&f.block).map_err(|e| format!("symbolic execution: {e}"))?;
                Ok(s)
            })();
            match res {
                Ok(s) => { push(&s.verus(), &mut out, &mut nl); syms.push(s.report()); }
                Err(e) => errors.push(format!("{}: {e}", p[1])),
            }
        } else if let Some(r) = t.strip_prefix("//@adt ") {
            let p: Vec<&str> = r.split_whitespace().collect();
            let src = cache.entry(p[0].to_string()).or_insert_with(|| item::load(root, p[0]));
            match src.as_ref().map_err(|e| e.clone()).and_then(|s| item::find_adt(s, p[1])) {
                Ok(mut s) => {
                    for kv in &p[2..] { if let Some((a, b)) = kv.split_once("=>") { s = s.replace(&a.replace('~', " "), &b.replace('~', " ")); } }
                    push(&s, &mut out, &mut nl)
                }
                Err(e) => errors.push(e),
            }
        } else if let Some(r) = t.strip_prefix("//@const ") {
            // //@const FILE NAME TEXT-with-{}
            let mut p = r.trim().splitn(3, ' ');
            let (file, name, fmt) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap());
            let src = cache.entry(file.to_string()).or_insert_with(|| item::load(root, file));
            match src.as_ref().map_err(|e| e.clone()).and_then(|s| item::find_const(s, name)) {
                Ok(s) => push(&fmt.replace("{}", &s), &mut out, &mut nl),
                Err(e) => errors.push(e),
            }
        } else if let Some(r) = t.strip_prefix("//@require ") {
            // //@require FILE TEXT: what the contracts rest on is still there (compared without whitespace)
            let (file, want) = r.trim().split_once(' ').unwrap();
            let src = cache.entry(file.to_string()).or_insert_with(|| item::load(root, file));
            let strip = |s: &str| s.split_whitespace().collect::<String>();
            match src { Ok(s) if strip(&s.text).contains(&strip(want)) => {} Ok(_) => errors.push(format!("lost anchor: {file} has no `{want}`")), Err(e) => errors.push(e.clone()) }
        } else if t.starts_with("//@known ") {
        } else if let Some(r) = t.strip_prefix("//@heap ") {
            // //@heap fields=a,b fns=f,g
            let mut h = crate::heap::Heap::default();
            for p in r.split_whitespace() {
                if let Some(x) = p.strip_prefix("fields=") { h.fields = x.split(',').map(|s| s.to_string()).collect(); }
                if let Some(x) = p.strip_prefix("fns=") { h.fns = x.split(',').map(|s| s.to_string()).collect(); }
            }
            item::HEAP.with(|c| *c.borrow_mut() = Some(h));
        } else if let Some(r) = t.strip_prefix("//@lift ") {
            let p: Vec<&str> = r.splitn(4, ' ').collect();
            let mut l = crate::lift::Lift { path: p[0].into(), call: p[1].into(), name: p[2].into(), ret: p[3].trim().into(), caps: vec![] };
            for x in sec() {
                if let Some((n, y)) = x.split_once(": ") { if let Some((ty, re)) = y.split_once(" = ") { l.caps.push((n.trim().into(), ty.trim().into(), re.trim().into())); } }
            }
            lifts.push(l);
        } else if let Some(r) = t.strip_prefix("//@foreign ") {
            let mut h = crate::foreign::Foreign::default();
            for p in r.split_whitespace() {
                if let Some(x) = p.strip_prefix("fns=") { h.fns = x.split(',').map(|s| s.to_string()).collect(); }
                if let Some(x) = p.strip_prefix("panics=") { h.panics = x.split(',').map(|s| s.to_string()).collect(); }
            }
            item::FOREIGN.with(|c| *c.borrow_mut() = Some(h));
        } else if t == "//@float" { item::FLOAT.with(|f| f.set(true));
        } else {
            push(&l, &mut out, &mut nl);
        }
        i += 1;
    }
    Res { text: out, report: json!({"functions": fns, "errors": errors, "sym": syms, "template": template}) }
}
