// C24: sequences of calls through the C interfaces, succeeding and failing ones.
use crate::track;
use geqslib::ffi as g;
use geqslib::shunting::ContextHashMap;
use gmatlib::ffi as m;
use gmatlib::Matrix;
use hcore::{ensure, Case, R};
use nexsys::ffi as n;
use std::ffi::{c_char, c_void, CStr, CString};

type P = *mut c_void;
fn same(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
fn mat(p: P) -> &'static Matrix<f64> { unsafe { &*(p as *const Matrix<f64>) } }
fn shot(p: P) -> Vec<f64> { let a = mat(p); let mut v = vec![a.get_rows() as f64, a.get_cols() as f64]; for i in 0..a.get_rows() { for j in 0..a.get_cols() { v.push(a[(i, j)]); } } v }
fn eqv(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y)) }

fn matrices(c: &mut Case) -> R {
    let mut pool: Vec<(P, Vec<f64>)> = vec![];
    if c.rng.chance(5) {
        let (r, k) = (*c.rng.pick(&[u32::MAX, u32::MAX - 1, 1 << 31]), *c.rng.pick(&[u32::MAX, 1 << 31]));
        let id = c.rng.chance(40);
        c.input(if id { format!("new_double_identity_matrix({r})") } else { format!("new_double_matrix({r}, {k})") });
        let p = if id { m::new_double_identity_matrix(r) } else { m::new_double_matrix(r, k) };
        ensure!(p.is_null(), "a matrix of that size was allocated");
    }
    let nops = c.rng.us(1, 8);
    let mut desc = String::new();
    for _ in 0..c.rng.us(1, 3) {
        let (r, k) = (c.rng.us(1, 4), c.rng.us(1, 4));
        let k = if c.rng.chance(40) { r } else { k };
        desc += &format!("M{} = new_double_matrix({r}, {k}); ", pool.len());
        let p = m::new_double_matrix(r as u32, k as u32);
        ensure!(!p.is_null(), "new_double_matrix failed");
        for i in 0..r { for j in 0..k { let x = c.rng.range(-3, 3) as f64; ensure!(m::index_mut_double_matrix(p, i as u32, j as u32, x) == 1, "element not stored"); } }
        pool.push((p, shot(p)));
    }
    let _w = track::watch();
    let mut run = || -> R {
        for _ in 0..nops {
            let a = c.rng.us(0, pool.len() - 1);
            let b = c.rng.us(0, pool.len() - 1);
            let (p, q) = (pool[a].0, pool[b].0);
            let d = |c: &mut Case| c.rng.below(5) as u32;
            let (i, j, k, l) = (d(c), d(c), d(c), d(c));
            let x = c.rng.range(-3, 3) as f64;
            let (rows, cols) = (mat(p).get_rows() as u32, mat(p).get_cols() as u32);
            let op = c.rng.below(15);
            let txt = match op {
                0 => format!("inplace_row_swap(M{a}, {i}, {j})"), 1 => format!("inplace_row_scale(M{a}, {i}, {x})"), 2 => format!("inplace_scale(M{a}, {x})"), 3 => format!("inplace_row_add(M{a}, {i}, {j})"),
                4 => format!("inplace_scaled_row_add(M{a}, {i}, {j}, {x})"), 5 => format!("multiply_matrix(M{a}, M{b})"), 6 => format!("augment_with(M{a}, M{b})"), 7 => format!("subset(M{a}, {i}, {j}, {k}, {l})"), 8 => format!("trace(M{a})"),
                9 => format!("transpose(M{a})"), 10 => format!("try_inplace_invert(M{a})"), 11 => format!("index_mut_double_matrix(M{a}, {i}, {j}, {x})"), 12 => format!("index_double_matrix(M{a}, {i}, {j})"), 13 => format!("clone_double_matrix(M{a})"), _ => "new_double_identity_matrix".to_string(),
            };
            desc += &txt; desc += "; ";
            c.input(desc.clone());
            let mut changes = false;
            let mut fresh: Option<P> = None;
            match op {
                0 => { let ok = m::inplace_row_swap(p, i, j); ensure!((ok == 1) == (i < rows && j < rows), "{txt} returned {ok}"); changes = true; }
                1 => { let ok = m::inplace_row_scale(p, i, x); ensure!((ok == 1) == (i < rows), "{txt} returned {ok}"); changes = true; }
                2 => { let ok = m::inplace_scale(p, x); ensure!(ok == 1, "{txt} returned {ok}"); changes = true; }
                3 => { let ok = m::inplace_row_add(p, i, j); ensure!((ok == 1) == (i < rows && j < rows), "{txt} returned {ok}"); changes = true; }
                4 => { let ok = m::inplace_scaled_row_add(p, i, j, x); ensure!((ok == 1) == (i < rows && j < rows), "{txt} returned {ok}"); changes = true; }
                5 => { let r = m::multiply_matrix(p, q); ensure!(r.is_null() == (cols as usize != mat(q).get_rows()), "{txt} returned {r:?}"); fresh = Some(r); }
                6 => { let r = m::augment_with(p, q); ensure!(r.is_null() == (rows as usize != mat(q).get_rows()), "{txt} returned {r:?}"); fresh = Some(r); }
                7 => { let r = m::subset(p, i, j, k, l); ensure!(r.is_null() || (k < rows && l < cols), "{txt} returned a matrix"); if i <= k && j <= l && k < rows && l < cols { ensure!(!r.is_null(), "{txt} failed"); } fresh = Some(r); }
                8 => { let t = m::trace(p); if rows == cols { let s: f64 = (0..rows as usize).map(|i| mat(p)[(i, i)]).sum(); ensure!(same(t, s), "{txt} returned {t}"); } else { ensure!(t.is_nan(), "{txt} returned {t}"); } }
                9 => { let r = m::transpose(p); ensure!(!r.is_null(), "{txt} failed"); fresh = Some(r); }
                10 => { let s = m::try_inplace_invert(p); ensure!(rows == cols || s != u32::MAX, "{txt} succeeded"); changes = true; }
                11 => { let ok = m::index_mut_double_matrix(p, i, j, x); ensure!((ok == 1) == (i < rows && j < cols), "{txt} returned {ok}"); if ok == 1 { pool[a].1[2 + (i * cols + j) as usize] = x; } }
                12 => { let v = m::index_double_matrix(p, i, j); if i < rows && j < cols { ensure!(same(v, mat(p)[(i as usize, j as usize)]), "{txt} returned {v}"); } else { ensure!(v == f64::MIN, "{txt} returned {v}"); } }
                13 => { let r = m::clone_double_matrix(p); ensure!(!r.is_null(), "{txt} failed"); ensure!(r != p && eqv(&shot(r), &pool[a].1), "{txt} is not a copy"); fresh = Some(r); }
                _ => { let r = m::new_double_identity_matrix(i); ensure!(!r.is_null(), "{txt} failed"); if i > 0 { fresh = Some(r); } else { m::free_double_matrix(r); } }
            }
            ensure!(track::twice() == 0, "{txt} released a block a second time");
            for (w, (o, s)) in pool.iter_mut().enumerate() {
                ensure!(!track::released(*o), "{txt} released M{w}");
                ensure!(mat(*o).get_rows() as f64 == s[0] && mat(*o).get_cols() as f64 == s[1], "{txt} changed the size of M{w}");
                if !(changes && w == a) { ensure!(eqv(&shot(*o), s), "{txt} changed M{w} from {s:?} to {:?}", shot(*o)); } else { *s = shot(*o); }
            }
            if let Some(r) = fresh { if !r.is_null() { if mat(r).get_rows() > 0 && mat(r).get_cols() > 0 { desc += &format!("(-> M{}) ", pool.len()); let s = shot(r); pool.push((r, s)); } else { m::free_double_matrix(r); } } }
        }
        Ok(())
    };
    run()?;
    for (w, (o, _)) in pool.iter().enumerate() {
        m::free_double_matrix(*o);
        ensure!(track::twice() == 0, "freeing M{w} released a block a second time");
        ensure!(track::released(*o), "free_double_matrix(M{w}) did not release it");
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Ctx, Builder, System, Declared }
const EQS: &[&str] = &["x = 3", "x + k = 7", "x + y = 9", "x - y = 4", "2*x = k", "x ^ 2 = -1", "x", "x = y = 3", "", "= 1", "(x = 2", "x = )", "k = 3", "x + 1 = 'a", "sin(x) = 0.5", "sin x = 2", "x*0 = 5", "z = x", "pi = 3"];
fn text(p: *const c_char) -> Option<String> { if p.is_null() { None } else { Some(unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned()) } }
fn names(p: P) -> Vec<String> { let mut v: Vec<String> = unsafe { &*(p as *const ContextHashMap) }.keys().cloned().collect(); v.sort(); v }
fn solvers(c: &mut Case) -> R {
    let _w = track::watch();
    let mut pool: Vec<(P, K)> = vec![];
    let mut desc = String::new();
    let r = seq(c, &mut pool, &mut desc);
    let r = r.and_then(|_| {
        for (i, (p, k)) in pool.iter().enumerate() {
            c.input(format!("{desc}free O{i}"));
            unsafe { match k { K::Ctx => g::free_context_hash_map(*p), K::Builder => g::free_system_builder(*p), K::System => g::free_system(*p), K::Declared => n::free_declared_hash_map(*p) } }
            ensure!(track::twice() == 0, "freeing O{i} ({k:?}) released a block a second time");
        }
        Ok(())
    });
    r
}
fn seq(c: &mut Case, pool: &mut Vec<(P, K)>, desc: &mut String) -> R {
    let mk = |d: &mut String, pool: &mut Vec<(P, K)>, p: P, k: K| { *d += &format!("(-> O{}) ", pool.len()); pool.push((p, k)); };
    *desc += "new_default_context_hash_map() ";
    mk(desc, pool, unsafe { g::new_default_context_hash_map() }, K::Ctx);
    for _ in 0..c.rng.us(1, 9) {
        let find = |c: &mut Case, pool: &Vec<(P, K)>, k: K| -> Option<usize> { let v: Vec<usize> = (0..pool.len()).filter(|i| pool[*i].1 == k).collect(); if v.is_empty() { None } else { Some(*c.rng.pick(&v)) } };
        let eq = c.rng.pick(EQS).to_string();
        let ceq = CString::new(eq.clone()).unwrap();
        let op = c.rng.below(12);
        let ctx = find(c, pool, K::Ctx).unwrap();
        let (b, s, d) = (find(c, pool, K::Builder), find(c, pool, K::System), find(c, pool, K::Declared));
        let before: Vec<Vec<String>> = pool.iter().map(|(p, k)| if *k == K::Ctx { names(*p) } else { vec![] }).collect();
        let mut touched: Option<usize> = None;
        let txt;
        let mut new: Option<(P, K)> = None;
        match op {
            0 => { txt = "new_context_hash_map()".into(); c.input(format!("{desc}{txt}")); new = Some((unsafe { g::new_context_hash_map() }, K::Ctx)); }
            1 => { txt = format!("add_const_to_ctx(O{ctx}, \"k\", 5)"); c.input(format!("{desc}{txt}")); let k = CString::new("k").unwrap(); unsafe { g::add_const_to_ctx(pool[ctx].0, k.as_ptr(), 5.0) }; touched = Some(ctx); ensure!(names(pool[ctx].0).contains(&"k".into()), "{txt} added nothing"); }
            2 | 3 => {
                let lim = if c.rng.chance(80) { 30 } else { 1 };
                txt = format!("solve_equation({eq:?}, O{ctx}, 1, -10, 10, 0.001, {lim})"); c.input(format!("{desc}{txt}"));
                let go = || g::solve_equation(ceq.as_ptr(), pool[ctx].0 as *const c_void, 1.0, -10.0, 10.0, 0.001, lim);
                let r = go(); let t = text(r);
                if ["x = y = 3", "", "= 1", "(x = 2", "x = )", "x"].contains(&eq.as_str()) { ensure!(t.is_none(), "{txt} gave {t:?}"); }
                if eq == "x = 3" && lim > 20 && !before[ctx].contains(&"x".into()) { let v = t.as_deref().and_then(|s| s.strip_prefix("x=")).and_then(|s| s.parse::<f64>().ok()); ensure!(v.is_some_and(|v| (v - 3.0).abs() < 0.01), "{txt} gave {t:?}"); }
                let u = text(go()); ensure!(t == u, "{txt}: first {t:?}, then {u:?}");
                if !r.is_null() { unsafe { g::free_solution_string(r as *mut c_char) }; }
            }
            4 => { txt = format!("new_system_builder({eq:?}, O{ctx})"); c.input(format!("{desc}{txt}")); let r = g::new_system_builder(ceq.as_ptr(), pool[ctx].0); if ["x", "x = y = 3", "", "= 1", "(x = 2"].contains(&eq.as_str()) { ensure!(r.is_null(), "{txt} succeeded"); } if !r.is_null() { new = Some((r as P, K::Builder)); } }
            5 => { let Some(b) = b else { continue }; txt = format!("try_constrain_with(O{b}, {eq:?})"); c.input(format!("{desc}{txt}")); let r = g::try_constrain_with(pool[b].0, ceq.as_ptr()); ensure!((-1..=2).contains(&r), "{txt} returned {r}"); if r == 1 { touched = Some(b); } }
            6 => { let Some(b) = b else { continue }; txt = format!("is_fully_constrained(O{b})"); c.input(format!("{desc}{txt}")); let r = g::is_fully_constrained(pool[b].0); ensure!(r == 0 || r == 1, "{txt} returned {r}"); }
            7 => {
                let Some(b) = b else { continue };
                txt = format!("build_system(O{b})"); c.input(format!("{desc}{txt}"));
                let full = g::is_fully_constrained(pool[b].0) == 1;
                let r = g::build_system(pool[b].0);
                ensure!(r.is_null() != full, "{txt} returned {r:?}, constrained: {full}");
                ensure!(!track::released(pool[b].0), "{txt} released O{b}");
                if r.is_null() { ensure!(g::is_fully_constrained(pool[b].0) == 0, "{txt} changed O{b}"); } else { new = Some((r as P, K::System)); }
            }
            8 => {
                let Some(s) = s else { continue };
                let name = *c.rng.pick(&["x", "x", "y", "nosuch", "", "é"]);
                let (g0, lo, hi) = *c.rng.pick(&[(2.0, -20.0, 20.0), (2.0, -20.0, 20.0), (2.0, 30.0, 40.0), (2.0, 20.0, -20.0), (f64::NAN, -1.0, 1.0), (2.0, f64::NEG_INFINITY, f64::INFINITY)]);
                txt = format!("specify_variable(O{s}, {name:?}, {g0}, {lo}, {hi})"); c.input(format!("{desc}{txt}"));
                let x = if c.rng.chance(5) { CString::new(vec![0xffu8, b'x']).unwrap() } else { CString::new(name).unwrap() };
                let r = g::specify_variable(pool[s].0, x.as_ptr(), g0, lo, hi); ensure!(r == 1 || r == -1, "{txt} returned {r}");
            }
            9 => {
                let Some(s) = s else { continue };
                txt = format!("solve_system(O{s}, 0.001, 30)"); c.input(format!("{desc}{txt}"));
                let t = text(g::solve_system(pool[s].0, 0.001, 30));
                ensure!(!track::released(pool[s].0), "{txt} released O{s}");
                let u = text(g::solve_system(pool[s].0, 0.001, 30));
                ensure!(t.is_some() == u.is_some() || t.is_none(), "{txt}: first {t:?}, then {u:?}");
            }
            10 => { let Some(d) = d else { txt = "new_declared_hash_map()".into(); mk(desc, pool, n::new_declared_hash_map(), K::Declared); *desc += &format!("{txt}; "); continue }; txt = format!("add_declared_variable(O{d}, \"x\", 2, 0, 50)"); c.input(format!("{desc}{txt}")); let x = CString::new("x").unwrap(); let r = unsafe { n::add_declared_variable(pool[d].0, x.as_ptr(), 2.0, 0.0, 50.0) }; ensure!(r == 1, "{txt} returned {r}"); }
            _ => {
                let Some(d) = d else { continue };
                let sys = format!("{eq}\n{}", c.rng.pick(EQS));
                let cs = CString::new(sys.clone()).unwrap();
                txt = format!("basic_solve({sys:?}, O{ctx}, O{d}, 0.001, 30)"); c.input(format!("{desc}{txt}"));
                let r = unsafe { n::basic_solve(cs.as_ptr(), pool[ctx].0, pool[d].0, 0.001, 30) };
                if sys.contains("x = y = 3") && sys.lines().all(|l| l == "x = y = 3") { ensure!(r.is_null(), "{txt} succeeded"); }
                let r2 = unsafe { n::solve_with_preprocessors(cs.as_ptr(), 0.001, 30) };
                for r in [r, r2] { if !r.is_null() { unsafe { g::free_solution_string(r) }; } }
                touched = Some(ctx);
            }
        }
        *desc += &format!("{txt}; ");
        if let Some((p, k)) = new { ensure!(!p.is_null(), "{txt} returned null"); mk(desc, pool, p, k); }
        ensure!(track::twice() == 0, "{txt} released a block a second time");
        for (i, (p, k)) in pool.iter().enumerate() {
            ensure!(!track::released(*p), "{txt} released O{i} ({k:?})");
            if *k == K::Ctx && i < before.len() && touched != Some(i) { let now = names(*p); ensure!(now == before[i], "{txt} changed O{i}: {:?}", now.iter().filter(|x| !before[i].contains(x)).collect::<Vec<_>>()); }
        }
    }
    Ok(())
}
pub fn c24(c: &mut Case) -> R { if c.rng.chance(50) { matrices(c) } else { solvers(c) } }
