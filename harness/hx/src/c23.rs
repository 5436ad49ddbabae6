//! Programs of equations in groups (block triangular, linear but for squares), shuffled, with lines that are no
//! equations, repeated lines, declared guesses and domains.
use crate::expr::*;
use geqslib::shunting::{new_context, ContextLike};
use hcore::{ensure, quiet, Case, Rng, R};
use nexsys::{basic_solve, solve_with_preprocessors};
use std::collections::HashMap;
fn text(r: &mut Rng, x: &Ex) -> String { let mut w = vec![]; x.words(&mut w); join(r, &w) }
fn n(v: f64) -> Ex { let s = format!("{}", v.abs()); let x = Ex::Num(v.abs(), s); if v < 0.0 { Ex::Par(Box::new(Ex::Neg(Box::new(x)))) } else { x } }
fn bin(o: char, a: Ex, b: Ex) -> Ex { Ex::Bin(o, Box::new(a), Box::new(b)) }
fn nm(s: &str) -> Ex { Ex::Name(s.into()) }
struct Line { l: Ex, q: Ex, s: String, square: bool }
pub fn c23(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut e = Env { names: HashMap::new(), funcs: builtins() };
    e.names.insert("pi".into(), std::f64::consts::PI); e.names.insert("e".into(), std::f64::consts::E);
    // names that begin or end with one another, and are parts of known names
    let mut all = vec!["x", "x2", "xx", "y", "w", "T_1", "T", "flow", "Q", "p2", "p", "i"];
    for i in (1..all.len()).rev() { let j = r.us(0, i); all.swap(i, j); }
    let plain = r.chance(50);
    let mut ctx = new_context();
    let mut given: Vec<(&str, f64, bool)> = vec![];
    for (k, v) in [("c0", 1.5), ("givn", 2.0)] { if r.chance(40) { let var = plain && r.chance(50); if var { ctx.add_var_to_ctx(k, v) } else { ctx.add_const_to_ctx(k, v) }; e.names.insert(k.into(), v); given.push((k, v, var)); } }
    let mut known: Vec<String> = e.names.keys().cloned().collect(); known.sort();
    let mut lines: Vec<Line> = vec![];
    let mut at = 0;
    let (mut hard, mut big) = (false, false);
    for _ in 0..r.us(1, 4) {
        let k = *r.pick(&[1usize, 1, 1, 2, 2, 3]);
        if at + k > all.len() { break; }
        let vars = &all[at..at + k]; at += k;
        let square = k == 1 && r.chance(30);
        for i in 0..k {
            let mut l = if square { bin('^', nm(vars[0]), n(2.0)) } else { bin('*', n(r.range(5, 9) as f64), nm(vars[i])) };
            for j in 0..k { if j != i { let f = (r.range(1, 10) as f64) / 10.0; let f = if r.chance(50) { f } else { -f }; l = bin('+', l, bin('*', n(f), nm(vars[j]))); } }
            if !square && r.chance(60) { let t = nm(r.pick(&known)); l = if r.chance(50) { bin('+', l, t) } else { bin('-', l, t) }; }
            let defined = k == 1 && !square && r.chance(30);
            if defined { l = nm(vars[0]); }
            let far = k == 1 && !square && !defined && r.chance(4);
            big |= far;
            let mut q = if far { n(r.range(-20, 20) as f64 * 3e6) } else if square { n(r.range(9, 40) as f64) } else { n(r.range(-20, 20) as f64) };
            if defined && r.chance(60) { q = bin('+', q, nm(r.pick(&known))); }
            let (a, b) = (text(r, &l), text(r, &q));
            let s = if r.chance(60) { format!("{a} = {b}") } else { format!("{b}={a}") };
            lines.push(Line { l, q, s, square });
        }
        for v in vars { known.push(v.to_string()); }
        hard |= square;
    }
    let names = &all[..at];
    let mut decl: HashMap<String, [f64; 3]> = HashMap::new();
    for v in names.iter().chain([&"nosuch", &"c0", &"givn"]) { if r.chance(35) {
        let g = (r.range(-80, 80) as f64) / 8.0;
        let (lo, hi) = if r.chance(50) { (f64::NEG_INFINITY, f64::INFINITY) } else { (-(r.range(0, 200) as f64) / 8.0, (r.range(1, 200) as f64) / 8.0) };
        let (lo, hi) = if r.chance(10) && lo.is_finite() { (hi + lo.abs(), hi + lo.abs() + 3.0) } else { (lo, hi) };
        let (lo, hi) = if r.chance(8) { (g, g) } else { (lo, hi) };
        decl.insert(v.to_string(), [g.clamp(lo, hi), lo, hi]);
    } }
    let margin = *r.pick(&[1e-2, 1e-3, 1e-5, 1e-6]);
    let limit = *r.pick(&[1usize, 3, 30, 60, 60]);
    // order of the lines
    let mut prog: Vec<String> = lines.iter().map(|l| l.s.clone()).collect();
    let inorder = r.chance(40);
    if !inorder { for i in (1..prog.len()).rev() { let j = r.us(0, i); prog.swap(i, j); } }
    let mut extra = false;
    if r.chance(25) { let l = r.pick(&prog).clone(); let j = r.us(0, prog.len()); prog.insert(j, l); extra = true; }
    if r.chance(30) { let j = r.us(0, prog.len()); prog.insert(j, r.pick(&["", "just words", "  ", "a note about x"]).to_string()); }
    // a line that is no equation is not passed over
    let broken = r.chance(4);
    if broken { let l = format!("{}{}", r.pick(&["", " ", "c0 "]), r.pick(&["= 3", "= ", "=", "2 * * 2 = 5", "= 2 * ", "== 2"])); let l = if l.starts_with('c') && !l.contains('*') { format!("= {}", &l[..2]) } else { l }; let j = r.us(0, prog.len()); prog.insert(j, l); }
    let mut head = vec![];
    if !plain {
        for (k, v, _) in &given { head.push(format!("const {k} = {v}")); }
        let mut ks: Vec<&String> = decl.keys().collect(); ks.sort();
        let mut out = HashMap::new();
        for k in ks {
            let [g, lo, hi] = decl[k];
            // a guess is given by itself, a domain by itself
            if lo.is_finite() { head.push(format!("keep {k} on [{lo}, {hi}]")); }
            if g != 1.0 || !lo.is_finite() { head.push(format!("guess {g} for {k}")); }
            out.insert(k.clone(), [g, lo, hi]);
        }
        decl = out;
    }
    let src: Vec<String> = head.iter().cloned().chain(prog.iter().cloned()).collect();
    let src = src.join("\n");
    c.input(format!("{} {src:?} declared {decl:?} margin {margin} limit {limit} given {given:?}", if plain { "basic_solve" } else { "solve_with_preprocessors" }));
    let d0 = decl.clone();
    let res = if plain { quiet(|| basic_solve(&src, &mut ctx, &mut decl, margin, limit))? } else { quiet(|| solve_with_preprocessors(&src, margin, limit))? };
    ensure!(decl == d0, "the declarations changed to {decl:?}");
    if broken { c.trivial = true; return if let Ok((_, s)) = res { Err(format!("solved although a line is malformed: {s:?}")) } else { Ok(()) }; }
    match res {
        Ok((_, s)) => {
            for (k, v, _) in &given { ensure!(s.get(*k) == Some(v), "{k} was {v} and is reported as {:?}", s.get(*k)); }
            for k in s.keys() { ensure!(e.names.contains_key(k) || names.contains(&k.as_str()), "{k} is reported"); }
            for v in names { if let Some(x) = s.get(*v) {
                e.names.insert(v.to_string(), *x);
                if let Some([_, lo, hi]) = decl.get(*v) { ensure!(*x >= *lo && *x <= *hi, "{v} = {x} outside [{lo}, {hi}]"); }
            } }
            let mut left = 0;
            for l in &lines {
                let mut vs = vec![]; l.l.vars(&mut vs); l.q.vars(&mut vs);
                if vs.iter().any(|v| !e.names.contains_key(v)) { left += 1; continue; }
                let y = l.l.eval(&e).unwrap_or(f64::NAN) - l.q.eval(&e).unwrap_or(f64::NAN);
                ensure!(y.abs() <= margin * (1.0 + 1e-6) + if big { 1e-6 } else { 1e-9 }, "`{}` is off by {y} (margin {margin}) at {s:?}", l.s);
                if l.square { let v = &vs.iter().find(|v| names.contains(&v.as_str())).unwrap()[..]; if let Some([g, lo, hi]) = decl.get(v) { if lo.is_infinite() && hi.is_infinite() && g.abs() >= 1.0 { ensure!(s[v] * g > 0.0, "{v} = {} found from the guess {g}", s[v]); } } else { ensure!(s[v] > 0.0, "{v} = {} found from the guess 1", s[v]); } }
            }
            if inorder && !extra { ensure!(left == 0, "{left} equations are left, though they can be solved one after another: {s:?}"); }
            if left > 0 { c.trivial = true; }
        }
        Err(m) => {
            c.trivial = true;
            let free = decl.values().all(|[_, lo, hi]| lo.is_infinite() && hi.is_infinite());
            if limit >= 30 && free && !hard && margin >= if big { 1e-3 } else { 1e-5 } && inorder && !extra && !given.iter().any(|g| g.2) { return Err(format!("linear program not solved: {m}")); }
        }
    }
    Ok(())
}
