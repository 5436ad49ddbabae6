// Concrete oracle for geqslib (C08-C16).
mod expr;
use expr::*;
use geqslib::newton::{multivariate_newton_raphson, newton_raphson};
use geqslib::shunting::*;
use geqslib::system::{ConstrainResult, SystemBuilder};
use geqslib::variable::Variable;
use hcore::{ensure, quiet, Case, Rng, R};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

// ---------------------------------------------------------------- C08
fn fval(r: &mut Rng) -> f64 {
    match r.below(10) { 0 => 0.0, 1 => -0.0, 2 => f64::INFINITY, 3 => f64::NEG_INFINITY, 4 => r.range(-5, 5) as f64, 5 => f64::MAX, 6 => f64::MIN_POSITIVE, 7 => 10f64.powi(r.range(-20, 20) as i32) * (r.unit() - 0.5), _ => (r.unit() - 0.5) * 20.0 }
}
fn clampd(x: f64, lo: f64, hi: f64) -> f64 { if x > hi { hi } else if x < lo { lo } else { x } }
fn c08(c: &mut Case) -> R {
    let (a, b) = (fval(&mut c.rng), fval(&mut c.rng));
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    let v0 = fval(&mut c.rng);
    let mut var = Variable::new(v0, lo, hi);
    let mut cur = v0;
    let n = c.rng.us(1, 5);
    let ops: Vec<(u8, f64, bool)> = (0..n).map(|_| (c.rng.below(5) as u8, if c.rng.chance(30) { *c.rng.pick(&[lo, hi]) } else { fval(&mut c.rng) }, c.rng.chance(20))).collect();
    c.input(format!("Variable::new({v0:?}, {lo:?}, {hi:?}) then {ops:?}"));
    ensure!(same(f64::from(var), v0) && same(var.min, lo) && same(var.max, hi), "new stored {:?} [{:?}, {:?}]", f64::from(var), var.min, var.max);
    for (op, x, int) in ops {
        let x = if int { x.clamp(-1e6, 1e6) as i32 as f64 } else { x };
        let want = match op { 0 => x, 1 => cur + x, 2 => cur - x, 3 => cur * x, _ => cur / x };
        match (op, int) {
            (0, false) => var.set(x), (0, true) => var.set(x as i32),
            (1, false) => var += x, (1, true) => var += x as i32,
            (2, false) => var -= x, (2, true) => var -= x as i32,
            (3, false) => var *= x, (3, true) => var *= x as i32,
            (_, false) => var /= x, (_, true) => var /= x as i32,
        }
        ensure!(same(var.min, lo) && same(var.max, hi), "bounds became [{:?}, {:?}]", var.min, var.max);
        let got = f64::from(var);
        if want.is_nan() { cur = got; if cur.is_nan() { return Ok(()); } continue; }
        ensure!(got == clampd(want, lo, hi), "op {op} {x:?}: value {got:?} expected {:?}", clampd(want, lo, hi));
        cur = got;
    }
    Ok(())
}

// ---------------------------------------------------------------- C09
fn c09(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (a, b, k, d) = (r.range(-6, 6) as f64 * if r.chance(30) { 100.0 } else { 1.0 }, (r.unit() - 0.5) * 10.0, r.range(-3, 3) as f64, (r.unit() - 0.5) * 4.0);
    let kind = r.below(9);
    let f = move |x: f64| -> f64 {
        match kind { 0 => a * x + b, 1 => a * x * x + k * x + b, 2 => x * x * x + k * x + b, 3 => x.exp() + a, 4 => x.sin() + d, 5 => (x - b).abs() * a + k * 1e-3, 6 => a * x.atan() + d, 7 => if x > 0.0 { x.ln() + d } else { -50.0 }, _ => 1.0 / (1.0 + x * x) + k.abs() * 0.2 }
    };
    let margin = match r.below(8) { 0 => 0.0, 1 => -1e-3, 2 => -0.0, 3 => 1.0, 4 => 10.0, 5 => 0.2, _ => 10f64.powi(-(r.range(1, 8) as i32)) };
    let limit = match r.below(8) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, _ => r.us(4, 60) };
    let guess = match r.below(4) { 0 => 0.0, 1 => r.range(-20, 20) as f64, _ => (r.unit() - 0.5) * 40.0 };
    let fail_at = if r.chance(25) { Some(r.below(14)) } else { None };
    c.input(format!("f = #{kind}(a={a}, b={b}, k={k}, d={d}), guess {guess}, margin {margin:?}, limit {limit}, f fails at call {fail_at:?}"));
    let calls = Cell::new(0u64);
    let failed = Cell::new(false);
    let g = |x: f64| -> anyhow::Result<f64> {
        let n = calls.get();
        calls.set(n + 1);
        if n > 5 * limit as u64 + 50 { panic!("evaluated the function {n} times with limit {limit}") }
        if Some(n) == fail_at { failed.set(true); anyhow::bail!("injected {n}") }
        Ok(f(x))
    };
    let res = newton_raphson(&g, guess, margin, limit);
    if margin <= 0.0 {
        ensure!(res.is_err(), "margin {margin:?} accepted");
        ensure!(calls.get() == 0, "function evaluated {} times although the margin is {margin:?}", calls.get());
        return Ok(());
    }
    ensure!(calls.get() <= 3 * limit as u64, "{} evaluations with limit {limit}", calls.get());
    if failed.get() {
        match &res { Ok(x) => return Err(format!("the function failed but {x:?} was returned")), Err(e) => ensure!(e.to_string() == format!("injected {}", fail_at.unwrap()), "error replaced by {e}") }
        return Ok(());
    }
    match res {
        Ok(x) => {
            ensure!(limit > 0, "limit 0 gave a value");
            let (y, y2) = (f(x), f(x + 0.001));
            let step = y / ((y2 - y) / 0.001);
            ensure!(y.abs() <= margin, "returned {x:?} where |f| = {:?} > {margin:?}", y.abs());
            ensure!(step.abs() <= margin * (1.0 + 1e-6), "returned {x:?} where the step is {step:?}, margin {margin:?}");
        }
        Err(_) => c.trivial = true,
    }
    Ok(())
}

// ---------------------------------------------------------------- C10
fn solve_lin(mut m: Vec<Vec<f64>>, mut b: Vec<f64>) -> Option<Vec<f64>> {
    let n = b.len();
    for j in 0..n {
        let p = (j..n).max_by(|&x, &y| m[x][j].abs().partial_cmp(&m[y][j].abs()).unwrap_or(std::cmp::Ordering::Equal))?;
        if !(m[p][j].abs() > 1e-9) { return None; }
        m.swap(j, p); b.swap(j, p);
        for i in 0..n { if i != j { let s = m[i][j] / m[j][j]; for k in 0..n { m[i][k] -= s * m[j][k]; } b[i] -= s * b[j]; } }
    }
    Some((0..n).map(|i| b[i] / m[i][i]).collect())
}
fn c10(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.us(1, 4);
    let nonlin = r.chance(60);
    let co: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| if i == j { r.range(3, 9) as f64 * if r.chance(50) { 1.0 } else { -1.0 } } else { (r.unit() - 0.5) * 2.0 }).collect()).collect();
    let q: Vec<f64> = (0..n).map(|_| if nonlin { (r.unit() - 0.5) * 0.6 } else { 0.0 }).collect();
    let rhs: Vec<f64> = (0..n).map(|_| (r.unit() - 0.5) * 20.0).collect();
    let rootless = r.chance(10);
    let names: Vec<String> = (0..n).map(|i| format!("{}{i}", ["x", "ab", "q"][r.below(3) as usize])).collect();
    let g0: Vec<f64> = (0..n).map(|_| (r.unit() - 0.5) * 10.0).collect();
    let margin = match r.below(9) { 0 => 0.0, 1 => -0.5, 2 => 2.0, 3 => 0.5, 4 => 0.05, _ => 10f64.powi(-(r.range(1, 6) as i32)) };
    let limit = match r.below(7) { 0 => 0, 1 => 1, 2 => 2, _ => r.us(3, 30) };
    let extra = if r.chance(12) { *r.pick(&[-1i32, 1]) } else { 0 };
    let fail_at = if r.chance(15) { Some(r.below(40)) } else { None };
    c.input(format!("n={n} rows={co:?} cross={q:?} rhs={rhs:?} rootless={rootless} start={g0:?} margin={margin:?} limit={limit} functions {extra:+} fails at {fail_at:?}"));
    let eval = { let (co, q, rhs) = (co.clone(), q.clone(), rhs.clone()); move |i: usize, x: &[f64]| -> f64 {
        if rootless && i == 0 { return 3.0 + x[0] * x[0]; }
        let s: f64 = (0..x.len()).map(|j| co[i][j] * x[j]).sum();
        s + q[i] * x[i] * x[(i + 1) % x.len()] - rhs[i] } };
    let calls = Rc::new(Cell::new(0u64));
    let failed = Rc::new(Cell::new(false));
    let nf = (n as i32 + extra) as usize;
    let f: Vec<Box<dyn Fn(&HashMap<String, f64>) -> anyhow::Result<f64>>> = (0..nf).map(|i| {
        let (eval, names, calls, failed) = (eval.clone(), names.clone(), calls.clone(), failed.clone());
        Box::new(move |m: &HashMap<String, f64>| {
            let k = calls.get(); calls.set(k + 1);
            if k > 100_000 { panic!("does not stop") }
            if Some(k) == fail_at { failed.set(true); anyhow::bail!("injected {k}") }
            let x: Vec<f64> = names.iter().map(|s| m[s]).collect();
            Ok(eval(i % n, &x))
        }) as Box<dyn Fn(&HashMap<String, f64>) -> anyhow::Result<f64>>
    }).collect();
    let mut guess: HashMap<String, f64> = names.iter().cloned().zip(g0.iter().copied()).collect();
    let res = multivariate_newton_raphson(f, &mut guess, margin, limit).map(|m| m.clone());
    let keys: HashSet<&String> = guess.keys().collect();
    ensure!(keys == names.iter().collect(), "unknowns became {keys:?}");
    if margin <= 0.0 || nf != n || limit == 0 { ensure!(res.is_err(), "margin {margin:?}, {nf} functions, {n} unknowns, limit {limit} accepted"); return Ok(()); }
    let per = (n * (n + 2)) as u64;
    ensure!(calls.get() <= 2 * per * limit as u64, "{} evaluations with limit {limit}", calls.get());
    if failed.get() {
        match &res { Ok(x) => return Err(format!("a function failed but {x:?} was returned")), Err(e) => ensure!(e.to_string() == format!("injected {}", fail_at.unwrap()), "error replaced by {e}") }
        return Ok(());
    }
    let Ok(sol) = res else { c.trivial = true; return Ok(()) };
    ensure!(sol.len() == n && names.iter().all(|k| sol.contains_key(k)), "unknowns of the solution: {sol:?}");
    let x: Vec<f64> = names.iter().map(|s| sol[s]).collect();
    let y: Vec<f64> = (0..n).map(|i| eval(i, &x)).collect();
    let norm = |v: &[f64]| v.iter().map(|a| a * a).sum::<f64>().sqrt();
    ensure!(norm(&y) <= margin * (1.0 + 1e-6) + 1e-11, "returned {x:?} with |F| = {} > {margin}", norm(&y));
    let jac: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| { let mut z = x.clone(); z[j] += 0.001; (eval(i, &z) - y[i]) / 0.001 }).collect()).collect();
    if let Some(d) = solve_lin(jac, y) { ensure!(norm(&d) <= margin * 1.01 + 1e-7, "returned {x:?} where the Newton step has magnitude {} > {margin}", norm(&d)); }
    Ok(())
}

// ---------------------------------------------------------------- C11 / C12
fn env(r: &mut Rng) -> (Env, ContextHashMap, String) {
    let mut ctx = new_context();
    let mut e = Env { names: HashMap::new(), funcs: builtins() };
    e.names.insert("pi".into(), std::f64::consts::PI);
    e.names.insert("e".into(), std::f64::consts::E);
    let mut d = String::new();
    if r.chance(80) {
        for n in ["x", "y_2", "Kp", "sinx"] { if r.chance(50) { let v = if r.chance(30) { r.range(-3, 3) as f64 } else { (r.unit() - 0.5) * 9.0 }; if r.chance(50) { ctx.add_var_to_ctx(n, v) } else { ctx.add_const_to_ctx(n, v) } e.names.insert(n.into(), v); d += &format!("{n}={v} "); } }
        // arguments reach a function last to first
        if r.chance(60) { ctx.add_func_to_ctx("f2", |x| x[1] - 3.0 * x[0], 2); e.funcs.insert("f2".into(), (2, |x| x[0] - 3.0 * x[1])); }
        if r.chance(60) { ctx.add_func_to_ctx("f0", |_| 2.5, 0); e.funcs.insert("f0".into(), (0, |_| 2.5)); }
        if r.chance(60) { ctx.add_func_to_ctx("f3", |x| x[2] / (1.0 + x[1].abs()) + 7.0 * x[0], 3); e.funcs.insert("f3".into(), (3, |x| x[0] / (1.0 + x[1].abs()) + 7.0 * x[2])); }
    }
    (e, ctx, d)
}
fn verdict(x: Option<&Ex>, e: &Env, res: Result<anyhow::Result<f64>, String>) -> R {
    let res = res?;
    match (x, res) {
        (None, Ok(v)) => Err(format!("malformed, but evaluated to {v:?}")),
        (None, Err(_)) => Ok(()),
        (Some(x), res) => match (x.eval(e), res) {
            (None, Ok(v)) => Err(format!("divides by zero, but evaluated to {v:?}")),
            (None, Err(_)) => Ok(()),
            (Some(w), Ok(v)) => { ensure!(same(w, v), "evaluated to {v:?}, expected {w:?}"); Ok(()) }
            (Some(w), Err(m)) => Err(format!("refused ({m}), expected {w:?}")),
        },
    }
}
fn c11(c: &mut Case) -> R {
    let (e, ctx, d) = env(&mut c.rng);
    let depth = c.rng.us(1, 5);
    let x = gen(&mut c.rng, &e, depth, 0);
    let mut w = vec![]; x.words(&mut w);
    let s = join(&mut c.rng, &w);
    c.input(format!("{d}: {s}"));
    c.trivial = w.len() < 3;
    // the recogniser must agree with the generator
    let p = P::all(&w, &e).ok_or("oracle: generated expression not recognised")?;
    if let (Some(a), Some(b)) = (x.eval(&e), p.eval(&e)) { ensure!(same(a, b), "oracle disagreement {a} {b}"); }
    verdict(Some(&x), &e, quiet(|| eval_str_with_context(&s, &ctx)))?;
    // the same text compiled into a function of one variable / of a map
    if c.rng.chance(30) && !s.contains("@") {
        let mut ctx = new_context();
        let mut e2 = Env { names: HashMap::new(), funcs: builtins() };
        e2.names.insert("pi".into(), std::f64::consts::PI); e2.names.insert("e".into(), std::f64::consts::E);
        e2.names.insert("x".into(), 0.0);
        ctx.add_var_to_ctx("x", 0.0);
        let x = gen(&mut c.rng, &e2, 3, 0);
        let mut w = vec![]; x.words(&mut w);
        let s = join(&mut c.rng, &w);
        c.input(format!("compiled f(x) = {s}"));
        let f = compile_to_fn(&s, &ctx).map_err(|m| format!("not compiled: {m}"))?;
        for _ in 0..3 { let v = (c.rng.unit() - 0.5) * 8.0; e2.names.insert("x".into(), v); verdict(Some(&x), &e2, quiet(|| f(v))).map_err(|m| format!("at x = {v}: {m}"))?; }
        let g = compile_to_fn_of_hashmap(&s, &ctx).map_err(|m| format!("not compiled: {m}"))?;
        for _ in 0..2 { let v = (c.rng.unit() - 0.5) * 8.0; e2.names.insert("x".into(), v); let m: HashMap<String, f64> = [("x".to_string(), v)].into(); verdict(Some(&x), &e2, quiet(|| g(&m))).map_err(|m| format!("map x = {v}: {m}"))?; }
    }
    Ok(())
}
fn c12(c: &mut Case) -> R {
    let (e, ctx, d) = env(&mut c.rng);
    let depth = c.rng.us(0, 3);
    let mut w = vec![];
    let mode = c.rng.below(10);
    if mode < 7 { gen(&mut c.rng, &e, depth, 0).words(&mut w); }
    let mut pool: Vec<String> = ["(", ")", ",", "+", "-", "*", "/", "^", "1", "2.5", "sin", "if", "log", "pi"].iter().map(|s| s.to_string()).collect();
    let mut nm: Vec<String> = e.names.keys().chain(e.funcs.keys()).cloned().collect(); nm.sort();
    pool.extend(nm);
    if c.rng.chance(30) { pool.extend(["unknown", "zz", "3x", "1.2.3", "@", "2;", "$", "_a", "x!", "..", "sinn", "é", "#", "=", "[", "]"].iter().map(|s| s.to_string())); }
    let k = if mode < 7 { c.rng.us(1, 2) } else { c.rng.us(0, 7) };
    for _ in 0..k {
        let p = c.rng.us(0, w.len());
        match if w.is_empty() || mode >= 7 { 0 } else { c.rng.below(5) } {
            0 => { let t = c.rng.pick(&pool).clone(); w.insert(p, t); }
            1 => { w.remove(p.min(w.len() - 1)); }
            2 => { let q = c.rng.us(0, w.len() - 1); let p = p.min(w.len() - 1); w.swap(p, q); }
            3 => { let t = w[p.min(w.len() - 1)].clone(); w.insert(p, t); }
            _ => { let t = c.rng.pick(&pool).clone(); let p = p.min(w.len() - 1); w[p] = t; }
        }
    }
    let s = join(&mut c.rng, &w);
    c.input(format!("{d}: {s:?}"));
    let p = P::all(&w, &e);
    c.trivial = p.is_some();
    verdict(p.as_ref(), &e, quiet(|| eval_str_with_context(&s, &ctx)))
}

// ---------------------------------------------------------------- C13
fn c13(c: &mut Case) -> R {
    let ctx = new_context();
    let r = &mut c.rng;
    let mut v = || match r.below(5) { 0 => r.range(-4, 4) as f64, 1 => r.unit(), 2 => -r.unit(), 3 => 0.5, _ => (r.unit() - 0.5) * 30.0 };
    let (a, b, t, f) = (v(), v(), v(), v());
    let (a, t) = if r.chance(8) { (*r.pick(&[f64::INFINITY, f64::NEG_INFINITY, 0.1 + 0.2, 1e-17, 5e-324, 1e300]), t) } else { (a, t) };
    let b = if r.chance(35) { a } else if r.chance(25) && a != 0.0 && a.is_finite() { f64::from_bits(if r.chance(50) { a.to_bits() + 1 } else { a.to_bits() - 1 }) } else { b };
    let op = if r.chance(80) { r.range(0, 9) as f64 } else { *r.pick(&[-1.0, -2.0, -3.0, -5.0, 17.0, 257.0, 1e9, -1e9, 1e30]) };
    c.input(format!("a={a:?} b={b:?} t={t:?} f={f:?} op={op}"));
    let one: Vec<(&str, fn(f64) -> f64)> = vec![("sin", f64::sin), ("cos", f64::cos), ("tan", f64::tan), ("arcsin", f64::asin), ("arccos", f64::acos), ("arctan", f64::atan), ("sinh", f64::sinh), ("cosh", f64::cosh), ("tanh", f64::tanh), ("ln", f64::ln), ("log10", f64::log10), ("abs", f64::abs)];
    let get = |n: &str, k: usize| -> Result<fn(&[f64]) -> f64, String> { match ctx.get(n) { Some(Token::Func(m, g)) if *m == k => Ok(*g), x => Err(format!("`{n}` is bound to {x:?}, expected a function of {k}")) } };
    for (n, g) in one { let h = get(n, 1)?; ensure!(same(h(&[a]), g(a)), "{n}({a:?}) = {:?}, expected {:?}", h(&[a]), g(a)); }
    let h = get("log", 2)?;
    ensure!(same(h(&[a, b]), a.log(b)), "log: {:?} expected {:?}", h(&[a, b]), a.log(b));
    let h = get("if", 5)?;
    let cond = match op as i64 { 1 => a == b, 2 => a <= b, 3 => a >= b, 4 => a < b, 5 => a > b, _ => a != b };
    ensure!(same(h(&[f, t, b, op, a]), if cond { t } else { f }), "if({a:?}, {op}, {b:?}, {t:?}, {f:?}) = {:?}", h(&[f, t, b, op, a]));
    for (n, w) in [("pi", std::f64::consts::PI), ("e", std::f64::consts::E)] { match ctx.get(n) { Some(Token::Num(x)) => ensure!(*x == w, "{n} = {x}"), x => return Err(format!("{n} is bound to {x:?}")) } }
    // through the evaluator, with positive literals
    if !a.is_finite() || !b.is_finite() { return Ok(()); }
    let (pa, pb, pt, pf) = (a.abs(), b.abs(), t.abs(), f.abs());
    let cond = match op as i64 { 1 => pa == pb, 2 => pa <= pb, 3 => pa >= pb, 4 => pa < pb, 5 => pa > pb, _ => pa != pb };
    let s = format!("if({pa}, {op}, {pb}, {pt}, {pf})");
    let got = eval_str(&s).map_err(|m| format!("{s}: {m}"))?;
    ensure!(got == if cond { pt } else { pf }, "{s} = {got:?}");
    let s = format!("log({pa}, {pb})");
    let got = eval_str(&s).map_err(|m| format!("{s}: {m}"))?;
    ensure!(same(got, pb.log(pa)), "{s} = {got:?}, expected the logarithm of {pb} to the base {pa}");
    Ok(())
}

// ---------------------------------------------------------------- C14
fn benv() -> Env { let mut e = Env { names: HashMap::new(), funcs: builtins() }; e.names.insert("pi".into(), std::f64::consts::PI); e.names.insert("e".into(), std::f64::consts::E); e }
fn text(r: &mut Rng, x: &Ex) -> String { let mut w = vec![]; x.words(&mut w); join(r, &w) }
fn n(v: f64) -> Ex { let s = format!("{}", v.abs()); let x = Ex::Num(v.abs(), s); if v < 0.0 { Ex::Par(Box::new(Ex::Neg(Box::new(x)))) } else { x } }
fn bin(o: char, a: Ex, b: Ex) -> Ex { Ex::Bin(o, Box::new(a), Box::new(b)) }
fn nm(s: &str) -> Ex { Ex::Name(s.into()) }
fn c14(c: &mut Case) -> R {
    use geqslib::{solve_equation_from_str, solve_equation_with_context};
    let r = &mut c.rng;
    let mut e = benv();
    let mut ctx = new_context();
    let u = *r.pick(&["x", "T_1", "flow", "Q", "sins"]);
    let mut d = String::new();
    for k in ["a", "bb", "c1"] { if r.chance(50) { let v = (r.unit() - 0.5) * 8.0; ctx.add_const_to_ctx(k, v); e.names.insert(k.into(), v); d += &format!("{k}={v} "); } }
    let known: Vec<String> = { let mut v: Vec<String> = e.names.keys().cloned().collect(); v.sort(); v };
    // a guess that is the root is the answer in one iteration
    if r.chance(6) {
        let g = r.range(-8, 8);
        let eq = if r.chance(50) { format!("2 * {u} = 0 - {}", -2 * g).replace("0 - -", "0 + ") } else { format!("{u} = 0 + {g}").replace("+ -", "- ") };
        let (lo, hi) = if r.chance(50) { (f64::NEG_INFINITY, f64::INFINITY) } else { (-9.0, 9.0) };
        c.input(format!("{d}; solve `{eq}` guess {g} domain [{lo}, {hi}] margin 1e-6 limit 1"));
        let res = quiet(|| solve_equation_with_context(&eq, &mut ctx, g as f64, lo, hi, 1e-6, 1))?;
        return match res { Ok((k, v)) if k == u && v == g as f64 => Ok(()), x => Err(format!("the guess is the root, got {x:?}")) };
    }
    // a variable somebody else left in the context: not the one the equation is solved for
    let held = r.chance(25) && d.is_empty();
    if held { ctx.add_var_to_ctx("held", 3.0); e.names.insert("held".into(), 3.0); d += "held (variable) = 3 "; }
    // lhs and rhs
    let lin = |r: &mut Rng, s: f64| -> Ex { let k = r.range(1, 6) as f64 * s; bin('+', bin('*', n(k), nm(u)), nm(r.pick(&known))) };
    let kind = r.below(6);
    let (mut lhs, mut rhs) = match kind {
        0 => (lin(r, 1.0), n(r.range(-9, 9) as f64)),
        1 => (lin(r, 3.0), lin(r, 0.25)),
        2 => (bin('+', bin('^', nm(u), n(3.0)), nm(u)), n(r.range(-20, 20) as f64)),
        3 => (Ex::Call("sinh".into(), vec![nm(u)]), bin('-', n(r.range(-5, 5) as f64), bin('*', n(2.0), nm(u)))),
        4 => (bin('^', nm(u), n(2.0)), n(r.range(1, 30) as f64)),
        _ => (gen(r, &{ let mut e2 = benv(); e2.names = e.names.clone(); e2.names.insert(u.into(), 0.0); e2 }, 3, 0), n(r.range(-3, 3) as f64)),
    };
    if r.chance(40) { std::mem::swap(&mut lhs, &mut rhs); }
    let margin = *r.pick(&[1e-3, 1e-2, 1e-5, 0.3]);
    let limit = r.us(1, 60);
    let (mut lo, mut hi) = (f64::NEG_INFINITY, f64::INFINITY);
    if r.chance(40) { let a = (r.unit() - 0.5) * 12.0; let b = (r.unit() - 0.5) * 12.0; if r.chance(70) { lo = a.min(b); hi = a.max(b); } else { lo = a; } if r.chance(6) && hi.is_finite() { lo = hi; } }
    let guess = if r.chance(60) && lo.is_finite() && hi.is_finite() { lo + (hi - lo) * r.unit() } else { r.range(-8, 8) as f64 };
    let (l, rr) = (text(r, &lhs), text(r, &rhs));
    let variant = r.below(13);
    let bad = match r.below(6) { 0 => format!("{l} +"), 1 => format!("* {l}"), 2 => " ".to_string(), 3 => format!("{l}) + (1"), 4 => format!("({l}"), _ => format!("({l}) ({l})") };
    let eq = match variant { 5 => if r.chance(50) { format!("{bad} = {rr}") } else { format!("{rr} = {bad}") }, 0 => format!("{l} - {rr}"), 1 => match r.below(4) { 0 => format!("{l} = {rr} ="), 1 => format!("= {l} = {rr}"), 2 => format!("{l} = {rr}="), _ => format!("{l} = {rr} = {l}") }, 2 => format!("{l} + other = {rr}"), 3 => format!("{} = {}", text(r, &nm(&known[0])), 3), 4 => format!("{l} == {rr}"), _ => format!("{l}{}={}{rr}", if r.chance(50) { " " } else { "" }, if r.chance(50) { " " } else { "" }) };
    let defaulted = r.chance(15) && d.is_empty();
    c.input(format!("{d}; solve `{eq}` guess {guess} domain [{lo}, {hi}] margin {margin} limit {limit}"));
    let (guess, lo, hi) = if defaulted { (1.0, f64::NEG_INFINITY, f64::INFINITY) } else { (guess, lo, hi) };
    let res = quiet(|| if defaulted { solve_equation_from_str(&eq, margin, limit) } else { solve_equation_with_context(&eq, &mut ctx, guess, lo, hi, margin, limit) })?;
    let neq = eq.matches('=').count();
    let mut vs = vec![]; lhs.vars(&mut vs); rhs.vars(&mut vs);
    let has_u = match variant { 3 => false, _ => vs.iter().any(|v| v == u) };
    if variant == 5 { ensure!(res.is_err(), "accepted although a side is no expression: {res:?}"); c.trivial = true; return Ok(()); }
    if neq != 1 || variant == 2 && vs.iter().any(|v| v == u) || variant != 2 && !has_u { ensure!(res.is_err(), "accepted: {res:?}"); c.trivial = true; return Ok(()); }
    if variant == 2 { c.trivial = true; return Ok(()); }
    match res {
        Ok((name, v)) => {
            ensure!(name == u, "solved for `{name}`");
            let h = ctx.get("held").map(|t| format!("{t:?}"));
            ensure!(h.is_some() == held, "`held` came or went: {h:?}");
            ensure!(v >= lo && v <= hi, "value {v:?} lies outside the domain");
            e.names.insert(u.into(), v);
            let y = match (lhs.eval(&e), rhs.eval(&e)) { (Some(a), Some(b)) => a - b, _ => return Err(format!("value {v} divides by zero")) };
            ensure!(y.abs() <= margin * (1.0 + 1e-9) + 1e-9, "at {v:?} left minus right is {y:?}");
            if kind == 4 && lo.is_infinite() && hi.is_infinite() && guess.abs() >= 1.0 { ensure!(v * guess > 0.0, "from the guess {guess} the root {v} was found"); }
        }
        Err(m) => {
            c.trivial = true;
            // a linear equation in an unbounded domain is solved in three iterations
            if !held && kind <= 1 && limit >= 5 && lo.is_infinite() && hi.is_infinite() { return Err(format!("linear equation not solved: {m}")); }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15
fn c15(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut ctx = new_context();
    let mut known: HashSet<String> = ["pi", "e"].iter().map(|s| s.to_string()).collect();
    if r.chance(50) { ctx.add_const_to_ctx("k", 2.0); known.insert("k".into()); }
    if r.chance(30) { ctx.add_var_to_ctx("given", 2.0); known.insert("given".into()); }
    let vars = ["x", "y", "z", "w", "u1"];
    let mk = |r: &mut Rng| -> (String, Vec<String>, bool) {
        let k = r.us(0, 3);
        let mut v: Vec<String> = vec![];
        for _ in 0..k { let s = r.pick(&vars).to_string(); if !v.contains(&s) { v.push(s) } }
        if r.chance(20) { v.push("pi".into()) } 
        if r.chance(10) { v.push("k".into()) }
        let mut l = String::from("3"); let mut rr = String::from("4");
        for s in &v { let t = format!(" + {} * {s}", r.range(1, 9)); if r.chance(60) { l += &t } else { rr += &t } if r.chance(20) { l += &format!(" - {s}") } }
        let bad = r.below(10);
        match bad { 0 => (format!("{l} {rr}"), v, false), 1 => (format!("{l} = {rr} = 2"), v, false), 2 => (format!("{l} + ( = {rr}"), v, false), 3 => (format!("{l} = {rr} $"), v, false), _ => (format!("{l} = {rr}"), v, true) }
    };
    let fresh = |v: &Vec<String>, k: &HashSet<String>| -> Vec<String> { v.iter().filter(|s| !k.contains(*s)).cloned().collect() };
    let (eq, v, ok) = mk(r);
    let m = r.us(1, 6);
    let rest: Vec<(String, Vec<String>, bool)> = (0..m).map(|_| mk(r)).collect();
    let bulk = r.chance(25);
    c.input(format!("known {known:?}; {} {:?} {}", eq, rest.iter().map(|x| &x.0).collect::<Vec<_>>(), if bulk { "in one go" } else { "" }));
    let b = SystemBuilder::new(&eq, ctx);
    let mut b = match b { Ok(b) => { ensure!(ok, "`{eq}` accepted as the first equation"); b } Err(e) => { ensure!(!ok, "`{eq}` refused: {e}"); c.trivial = true; return Ok(()) } };
    let mut sys: HashSet<String> = fresh(&v, &known).into_iter().collect();
    known.extend(sys.iter().cloned());
    let mut ne = 1;
    let state = |b: &SystemBuilder, sys: &HashSet<String>, ne: usize, what: &str| -> R {
        let g: HashSet<String> = b.get_vars().iter().cloned().collect();
        ensure!(g.len() == b.get_vars().len(), "{what}: unknown listed twice: {:?}", b.get_vars());
        ensure!(&g == sys, "{what}: unknowns are {g:?}, expected {sys:?}");
        ensure!(b.is_fully_constrained() == (sys.len() == ne), "{what}: fully constrained = {}, with {} unknowns and {ne} equations", b.is_fully_constrained(), sys.len());
        let t = format!("{b:?}");
        ensure!(t.ends_with(&format!("Equations: {ne}")), "{what}: {t}, expected {ne} equations");
        Ok(())
    };
    state(&b, &sys, ne, "after the first equation")?;
    if bulk {
        // the equations may be taken in any order, as long as none that fits is passed over: every end that can be reached
        let (mut ends, mut seen) = (vec![], HashSet::new());
        let mut todo = vec![(0u32, sys.clone(), known.clone(), ne)];
        while let Some((used, s, k, n)) = todo.pop() {
            if !seen.insert(used) { continue; }
            if s.len() == n { ends.push((s, n, false)); continue; }
            let fits: Vec<usize> = (0..rest.len()).filter(|i| used & (1 << i) == 0 && fresh(&rest[*i].1, &k).len() <= 1).collect();
            if fits.is_empty() { ends.push((s, n, false)); continue; }
            for i in fits {
                if !rest[i].2 { ends.push((s.clone(), n, true)); continue; }
                let (mut s, mut k) = (s.clone(), k.clone());
                let f = fresh(&rest[i].1, &k);
                s.extend(f.iter().cloned()); k.extend(f);
                todo.push((used | 1 << i, s, k, n + 1));
            }
        }
        let res = b.try_fully_constrain_with(rest.iter().map(|x| x.0.as_str()).collect());
        let got: HashSet<String> = b.get_vars().iter().cloned().collect();
        let Some((s, n, _)) = ends.iter().find(|(s, n, e)| *s == got && *e == res.is_err() && format!("{b:?}").ends_with(&format!("Equations: {n}"))) else { return Err(format!("try_fully_constrain_with said {res:?} and left {b:?}, which no order of taking equations leads to: {ends:?}")) };
        if let Ok(x) = res { ensure!(x == (s.len() == *n), "try_fully_constrain_with said {x}"); }
        state(&b, s, *n, "after try_fully_constrain_with")?;
        sys = s.clone(); ne = *n;
    } else {
        for (eq, v, ok) in &rest {
            let f = fresh(v, &known);
            let res = b.try_constrain_with(eq);
            if sys.len() == ne { match res { Ok(ConstrainResult::WillOverConstrain) => {} x => return Err(format!("`{eq}` on a full system: {x:?}")) } }
            else if f.len() > 1 { match res { Ok(ConstrainResult::WillNotConstrain) => {} x => return Err(format!("`{eq}` with new unknowns {f:?}: {x:?}")) } }
            else if !ok { ensure!(res.is_err(), "`{eq}`: {res:?}"); }
            else {
                match res { Ok(ConstrainResult::WillConstrain) => {} x => return Err(format!("`{eq}`: {x:?}")) }
                sys.extend(f.iter().cloned()); known.extend(f); ne += 1;
            }
            state(&b, &sys, ne, &format!("after `{eq}`"))?;
        }
    }
    let full = sys.len() == ne;
    ensure!(b.build_system().is_some() == full, "build_system: expected {full}");
    Ok(())
}

// ---------------------------------------------------------------- C16
fn c16(c: &mut Case) -> R {
    let r = &mut c.rng;
    let k = r.us(1, 4);
    let vars = &["x", "y", "z", "w"][..k];
    let mut ctx = new_context();
    let mut e = benv();
    if r.chance(40) { ctx.add_const_to_ctx("c0", 1.5); e.names.insert("c0".into(), 1.5); }
    if r.chance(30) { ctx.add_var_to_ctx("given", 2.0); e.names.insert("given".into(), 2.0); }
    let kn: Vec<String> = { let mut v: Vec<String> = e.names.keys().cloned().collect(); v.sort(); v };
    // equation i mentions variables 0..=i and constrains variable i strongly; the last closes the system
    let square = r.chance(35);
    let mut eqs: Vec<(Ex, Ex)> = vec![];
    for i in 0..k {
        let mut l = if square && i == 0 { bin('^', nm(vars[0]), n(2.0)) } else { bin('*', n(r.range(4, 9) as f64), nm(vars[i])) };
        for j in 0..i { l = bin('+', l, bin('*', n((r.range(-10, 10) as f64) / 10.0), nm(vars[j]))); }
        if r.chance(40) { l = bin('+', l, nm(r.pick(&kn))); }
        let rhs = if square && i == 0 { n(r.range(9, 40) as f64) } else { n(r.range(-20, 20) as f64) };
        eqs.push((l, rhs));
    }
    // first equation must involve every unknown it introduces; order so that each adds at most one
    let texts: Vec<String> = eqs.iter().map(|(l, q)| { let (a, b) = (text(r, l), text(r, q)); if r.chance(50) { format!("{a} = {b}") } else { format!("{b} = {a}") } }).collect();
    let margin = *r.pick(&[1e-2, 1e-3, 1e-5, 1e-6]);
    let limit = *r.pick(&[1usize, 2, 20, 40, 40]);
    let specs: Vec<(String, f64, f64, f64)> = (0..r.us(0, 4)).map(|_| {
        let nmx = match r.below(8) { 0 => "nosuch".to_string(), 1 => "pi".into(), 2 => "sin".into(), 3 => "given".into(), _ => r.pick(vars).to_string() };
        let g = (r.unit() - 0.5) * 16.0;
        let (lo, hi) = if r.chance(50) { (f64::NEG_INFINITY, f64::INFINITY) } else { let a = (r.unit() - 0.5) * 20.0; let b = (r.unit() - 0.5) * 20.0; (a.min(b), a.max(b)) };
        (nmx, g, lo, hi)
    }).collect();
    c.input(format!("{texts:?} specs {specs:?} margin {margin} limit {limit} known {kn:?}"));
    // reverse build order exercises later equations introducing unknowns: start from the first equation
    let mut b = SystemBuilder::new(&texts[0], ctx).map_err(|m| format!("refused: {m}"))?;
    // an over-determined first equation cannot happen: it holds exactly one unknown, so the system is closed at once
    if k > 1 {
        // begin with the equation of all unknowns instead
        let mut ctx = new_context();
        if e.names.contains_key("c0") { ctx.add_const_to_ctx("c0", 1.5); }
        if e.names.contains_key("given") { ctx.add_var_to_ctx("given", 2.0); }
        b = SystemBuilder::new(&texts[k - 1], ctx).map_err(|m| format!("refused: {m}"))?;
        let rest: Vec<&str> = texts[..k - 1].iter().map(|s| s.as_str()).collect();
        b.try_fully_constrain_with(rest).map_err(|m| format!("refused: {m}"))?;
    }
    let names: HashSet<String> = b.get_vars().iter().cloned().collect();
    let mentioned: HashSet<String> = { let mut v = vec![]; for (l, q) in &eqs { l.vars(&mut v); q.vars(&mut v); } v.into_iter().filter(|x| vars.contains(&x.as_str())).collect() };
    let Some(mut s) = b.build_system() else { if names.len() == k { return Err("system not closed".into()) } c.trivial = true; return Ok(()) };
    ensure!(names == mentioned, "unknowns {names:?}");
    let mut dom: HashMap<String, (f64, f64, f64)> = names.iter().map(|v| (v.clone(), (1.0, f64::NEG_INFINITY, f64::INFINITY))).collect();
    for (v, g, lo, hi) in &specs {
        let ok = s.specify_variable(v, *g, *lo, *hi);
        ensure!(ok == names.contains(v), "specify_variable({v}) returned {ok}");
        if ok { dom.insert(v.clone(), (clampd(*g, *lo, *hi), *lo, *hi)); }
    }
    match quiet(|| s.solve(margin, limit))? {
        Ok(sol) => {
            let got: HashSet<String> = sol.keys().cloned().collect();
            ensure!(got == names, "values reported for {got:?}, unknowns are {names:?}");
            for (v, x) in &sol { e.names.insert(v.clone(), *x); let (_, lo, hi) = dom[v]; ensure!(*x >= lo && *x <= hi, "{v} = {x} outside [{lo}, {hi}]"); }
            for (i, (l, q)) in eqs.iter().enumerate() { let y = l.eval(&e).unwrap_or(f64::NAN) - q.eval(&e).unwrap_or(f64::NAN); ensure!(y.abs() <= margin * (1.0 + 1e-6) + 1e-9, "`{}` is off by {y} (margin {margin}) at {sol:?}", texts[i]); }
            let (g, lo, hi) = dom["x"];
            if square && lo.is_infinite() && hi.is_infinite() && g.abs() >= 1.0 { ensure!(sol["x"] * g > 0.0, "x = {} found from the guess {g}", sol["x"]); }
        }
        Err(m) => {
            c.trivial = true;
            let free = dom.values().all(|(_, lo, hi)| lo.is_infinite() && hi.is_infinite());
            if limit >= 20 && free && !square && margin >= 1e-5 { return Err(format!("linear system not solved: {m}")); }
        }
    }
    let _ = RefCell::new(());
    Ok(())
}

fn main() { hcore::main(&[("C08", c08), ("C09", c09), ("C10", c10), ("C11", c11), ("C12", c12), ("C13", c13), ("C14", c14), ("C15", c15), ("C16", c16)]); }
