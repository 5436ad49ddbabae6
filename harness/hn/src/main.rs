// Concrete oracle for neapolitan (C17-C20).
use hcore::{ensure, quiet, Case, Rng, R};
use neapolitan::dc_circuits::*;
use neapolitan::flux_formulas::*;
use neapolitan::heat_transfer::*;
use neapolitan::modelling::{GenericElement, GenericNode};
use neapolitan::{get_node_potential, is_locked, lock_node, set_node_potential, NodalAnalysisStudyBuilder, NodalAnalysisStudyConfigurator};
use std::cell::RefCell;
use std::rc::Rc;

type N = Rc<RefCell<GenericNode>>;
fn node(p: &[f64]) -> N { let n = GenericNode::new(); set_node_potential(&Rc::downgrade(&n), p.to_vec()).unwrap(); n }
fn pot(n: &N) -> Vec<f64> { get_node_potential(&Rc::downgrade(n)).unwrap().into() }
fn close(a: f64, b: f64, scale: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (scale.abs() + a.abs().max(b.abs())) }
fn closev(a: &[f64], b: &[f64], scale: f64) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, scale)) }
fn val(r: &mut Rng) -> f64 { match r.below(4) { 0 => r.range(-9, 9) as f64, 1 => (r.unit() - 0.5) * if r.chance(30) { 6e3 } else { 1e3 }, _ => (r.unit() - 0.5) * 20.0 } }
fn nz(r: &mut Rng) -> f64 { loop { let v = val(r); if v.abs() > 1e-3 { return v } } }

#[derive(Clone, Debug)]
enum K { Res(f64), Cond(Vec<f64>), Conv(f64), Cur(Vec<f64>), Heat(Vec<f64>) }
fn kind(r: &mut Rng, dim: usize) -> K {
    match r.below(6) { 0 => K::Res(nz(r)), 1 => K::Cond(vec![nz(r), val(r)]), 2 => K::Cond(vec![val(r)]), 3 => K::Conv(val(r)), 4 => K::Cur((0..dim).map(|_| val(r)).collect()), _ => K::Heat((0..dim).map(|_| val(r)).collect()) }
}
fn make(k: &K, a: &N, b: &N) -> anyhow::Result<Rc<GenericElement>> {
    let (a, b) = (Rc::downgrade(a), Rc::downgrade(b));
    match k { K::Res(x) => resistor(a, b, vec![*x]), K::Cond(v) => conductor(a, b, v.clone()), K::Conv(x) => convection_interface(a, b, vec![*x]), K::Cur(v) => current_source(a, b, v.clone()), K::Heat(v) => heat_flux(a, b, v.clone()) }
}
fn want(k: &K, p: &[f64], q: &[f64]) -> Vec<f64> {
    let g = match k { K::Res(x) => 1.0 / x, K::Cond(v) if v.len() == 2 => v[1] / v[0], K::Cond(v) => v[0], K::Conv(x) => *x, K::Cur(v) | K::Heat(v) => return v.clone() };
    p.iter().zip(q).map(|(x, y)| g * (x - y)).collect()
}
fn flux(e: &GenericElement) -> Result<Vec<f64>, String> { quiet(|| e.get_flux().map(Vec::<f64>::from).map_err(|m| m.to_string()))? }

fn c17(c: &mut Case) -> R {
    let r = &mut c.rng;
    let dim = r.us(1, 3);
    let k = kind(r, dim);
    let (p, q): (Vec<f64>, Vec<f64>) = (0..dim).map(|_| (val(r), val(r))).unzip();
    let (p2, q2): (Vec<f64>, Vec<f64>) = (0..dim).map(|_| (val(r), val(r))).unzip();
    let bad = if r.chance(10) { Some((r.below(2), match r.below(4) { 0 => 0, 1 => 3, 2 => 4, _ => 2 })) } else { None };
    if let Some((which, n)) = bad {
        let v: Vec<f64> = (0..n).map(|_| nz(r)).collect();
        c.input(format!("{} with parameters {v:?}", if which == 0 { "conductor" } else { "convection_interface" }));
        if which == 0 && n == 2 { c.trivial = true; return Ok(()); }
        let (a, b) = (node(&p), node(&q));
        let (a, b) = (Rc::downgrade(&a), Rc::downgrade(&b));
        let x = quiet(|| if which == 0 { conductor(a, b, v) } else { convection_interface(a, b, v) })?;
        ensure!(x.is_err(), "accepted");
        return Ok(());
    }
    c.input(format!("{k:?} between {p:?} and {q:?}, then {p2:?} and {q2:?}"));
    let (a, b) = (node(&p), node(&q));
    let e = quiet(|| make(&k, &a, &b))?.map_err(|m| format!("refused: {m}"))?;
    let f = flux(&e)?;
    ensure!(closev(&f, &want(&k, &p, &q), 0.0), "flux {f:?}, expected {:?}", want(&k, &p, &q));
    ensure!(pot(&a) == p && pot(&b) == q, "potentials changed");
    set_node_potential(&Rc::downgrade(&a), p2.clone()).unwrap();
    set_node_potential(&Rc::downgrade(&b), q2.clone()).unwrap();
    let f = flux(&e)?;
    ensure!(closev(&f, &want(&k, &p2, &q2), 0.0), "flux {f:?}, expected {:?}", want(&k, &p2, &q2));
    Ok(())
}

fn c18(c: &mut Case) -> R {
    let r = &mut c.rng;
    let dim = r.us(1, 3);
    let n = r.us(1, 5);
    let ps: Vec<Vec<f64>> = (0..n).map(|_| (0..dim).map(|_| val(r)).collect()).collect();
    let m = r.us(0, 9);
    // a single connection, as custom elements may have, in some cases
    let es: Vec<(K, usize, usize, u8)> = (0..m).map(|_| (kind(r, dim), r.us(0, n - 1), r.us(0, n - 1), if r.chance(20) { r.below(4) as u8 } else { 9 })).collect();
    // potential sources hang off a node of the network and drive a node of their own (which may carry a load)
    let src: Vec<(usize, bool, f64, Option<K>)> = if dim == 1 { (0..r.us(0, 2)).map(|_| (r.us(0, n - 1), r.chance(50), val(r), if r.chance(60) { Some(kind(r, 1)) } else { None })).collect() } else { vec![] };
    c.input(format!("potentials {ps:?}, elements {es:?}, sources {src:?}"));
    let nodes: Vec<N> = ps.iter().map(|p| node(p)).collect();
    let mut inflow = vec![vec![0.0; dim]; n];
    let mut scale = 0.0f64;
    let mut keep = vec![];
    for (k, i, j, con) in &es {
        let f = want(k, &ps[*i], &ps[*j]);
        let (ci, co) = if *con == 9 { (true, true) } else { (con & 1 == 1, con & 2 == 2) };
        let e = if *con == 9 { quiet(|| make(k, &nodes[*i], &nodes[*j]))?.map_err(|m| format!("refused: {m}"))? } else {
            let (gain, calc) = match k { K::Cur(v) | K::Heat(v) => (v.clone(), constant_flux as neapolitan::modelling::element::FluxCalculation), K::Res(x) => (vec![1.0 / x], normal_flux as _), K::Cond(v) if v.len() == 2 => (vec![v[1] / v[0]], normal_flux as _), K::Cond(v) => (v.clone(), normal_flux as _), K::Conv(x) => (vec![*x], normal_flux as _) };
            GenericElement::try_new(gain, Rc::downgrade(&nodes[*i]), Rc::downgrade(&nodes[*j]), calc, false, ci, co).map_err(|m| format!("refused: {m}"))?
        };
        keep.push(e);
        for d in 0..dim { if ci { inflow[*i][d] -= f[d]; } if co { inflow[*j][d] += f[d]; } scale = scale.max(f[d].abs()); }
    }
    let ground = node(&vec![0.0; dim]);
    for (i, outward, v, load) in &src {
        let own = node(&[0.0]);
        // the hub is fixed so that the source drives its own node
        lock_node(&Rc::downgrade(&nodes[*i])).unwrap();
        let (a, b) = if *outward { (&nodes[*i], &own) } else { (&own, &nodes[*i]) };
        let e = quiet(|| voltage_source(Rc::downgrade(a), Rc::downgrade(b), vec![*v]))?.map_err(|m| format!("refused: {m}"))?;
        let p = if *outward { ps[*i][0] + v } else { ps[*i][0] - v };
        // the load draws from the driven node; what it draws comes out of the hub
        let drawn = match load { None => 0.0, Some(k) => { keep.push(make(k, &own, &ground).map_err(|m| m.to_string())?); want(k, &[p], &[0.0])[0] } };
        inflow[*i][0] -= drawn;
        scale = scale.max(drawn.abs());
        keep.push(e);
        std::mem::forget(own);
    }
    for round in 0..2 {
        for i in 0..n {
            let d: Vec<f64> = quiet(|| nodes[i].borrow().get_flux_discrepancy())?.map_err(|m| format!("node {i}: {m}"))?.into();
            ensure!(closev(&d, &inflow[i], scale), "node {i} (round {round}): imbalance {d:?}, expected {:?}", inflow[i]);
        }
    }
    Ok(())
}

fn c19(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (p, q, v, g1, g2, x, y) = (val(r), val(r), val(r), nz(r), nz(r), val(r), val(r));
    let (la, lb) = (r.chance(40), r.chance(40));
    let dc = r.chance(50);
    let (load_a, load_b) = (r.chance(70), r.chance(70));
    let cur = if r.chance(30) { Some(val(r)) } else { None };
    let p2 = val(r);
    let after = r.chance(50);
    let flip = r.chance(50);
    c.input(format!("{} {v} from a ({p}{}) to b ({q}{}); loads {load_a}/{load_b} with gains {g1}, {g2} to {x}, {y} ({}), current into the driven node {cur:?}; then the other node moves to {p2}", if dc { "voltage_source" } else { "temperature_delta" }, if la { ", fixed" } else { "" }, if lb { ", fixed" } else { "" }, if after { "after the source" } else { "before the source" }));
    let (a, b) = (node(&[p]), node(&[q]));
    let (ga, gb) = (node(&[x]), node(&[y]));
    if la { lock_node(&Rc::downgrade(&a)).unwrap(); }
    if lb { lock_node(&Rc::downgrade(&b)).unwrap(); }
    let mut keep = vec![];
    let loads = |keep: &mut Vec<Rc<GenericElement>>| -> R {
        for (on, n, gnd, g) in [(load_a, &a, &ga, g1), (load_b, &b, &gb, g2)] {
            if on { let (i, o) = if flip { (gnd, n) } else { (n, gnd) }; keep.push(convection_interface(Rc::downgrade(i), Rc::downgrade(o), vec![g]).map_err(|m| m.to_string())?); }
        }
        if let Some(w) = cur { keep.push(current_source(Rc::downgrade(&ga), Rc::downgrade(if lb { &a } else { &b }), vec![w]).map_err(|m| m.to_string())?); }
        Ok(())
    };
    if !after { loads(&mut keep)?; }
    let mk = || { let (a, b) = (Rc::downgrade(&a), Rc::downgrade(&b)); if dc { voltage_source(a, b, vec![v]) } else { temperature_delta(a, b, vec![v]) } };
    let e = quiet(mk)?;
    let lk = |n: &N| is_locked(&Rc::downgrade(n)).unwrap();
    if la && lb {
        ensure!(e.is_err(), "accepted although both nodes are fixed");
        ensure!(pot(&a) == [p] && pot(&b) == [q], "potentials changed by a refused source");
        return Ok(());
    }
    let e = e.map_err(|m| format!("refused: {m}"))?;
    let out = !lb;
    ensure!(lk(&a) == (la || !out) && lk(&b) == (lb || out), "fixed: a {} b {}", lk(&a), lk(&b));
    // the difference holds from the start
    ensure!(close(pot(&b)[0] - pot(&a)[0], v, pot(&a)[0].abs() + pot(&b)[0].abs()), "difference {} expected {v} before the first flux", pot(&b)[0] - pot(&a)[0]);
    if after { loads(&mut keep)?; }
    let mut dom = if out { p } else { q };
    for round in 0..2 {
        let f = flux(&e)?[0];
        let (pa, pb) = (pot(&a)[0], pot(&b)[0]);
        ensure!(close(pb - pa, v, pa.abs() + pb.abs()), "round {round}: difference {} expected {v}", pb - pa);
        ensure!((if out { pa } else { pb }) == dom, "round {round}: the free-running node moved to {}", if out { pa } else { pb });
        // what flows into the driven node through everything but the source
        let (on, g, z, pn) = if out { (load_b, g2, y, pb) } else { (load_a, g1, x, pa) };
        let mut into = 0.0;
        if on { into += g * (z - pn); }
        if let Some(w) = cur { into += w; }
        let want = if out { -into } else { into };
        ensure!(close(f, want, into.abs() + g.abs() * (z.abs() + pn.abs())), "round {round}: flux {f}, expected {want}");
        // the other node sees the source's flux once, the driven one not at all
        let d = |n: &N| -> Result<f64, String> { Ok(Vec::from(quiet(|| n.borrow().get_flux_discrepancy())?.map_err(|m| m.to_string())?)[0]) };
        let dd = d(if out { &b } else { &a })?;
        ensure!(close(dd, into, into.abs() + 1.0), "round {round}: driven node's own balance {dd}, expected {into}");
        let (on, g, z, pn) = if out { (load_a, g1, x, pa) } else { (load_b, g2, y, pb) };
        let mut own = if on { g * (z - pn) } else { 0.0 };
        own += if out { -f } else { f };
        let dd = d(if out { &a } else { &b })?;
        ensure!(close(dd, own, own.abs() + into.abs() + g.abs() * (z.abs() + pn.abs()) + 1.0), "round {round}: free-running node's balance {dd}, expected {own}");
        if round == 0 { dom = p2; set_node_potential(&Rc::downgrade(if out { &a } else { &b }), vec![p2]).unwrap(); }
    }
    Ok(())
}

fn c20(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.us(2, 6);
    let dc = r.chance(60);
    let dim = if r.chance(25) { 2 } else { 1 };
    // a connected resistive network with at least one fixed node; sources extend it at fresh nodes or between nodes
    let pot = |r: &mut Rng| -> Vec<f64> { (0..dim).map(|_| val(r)).collect() };
    let mut locked: Vec<Option<Vec<f64>>> = vec![None; n];
    let mut start: Vec<Option<Vec<f64>>> = vec![None; n];
    locked[0] = Some(pot(r));
    for l in locked.iter_mut().skip(1) { if r.chance(20) { *l = Some(pot(r)); } }
    for k in 0..n { if locked[k].is_none() && r.chance(20) { start[k] = Some(pot(r)); } }
    let mut el: Vec<(&'static str, usize, usize, Vec<f64>)> = vec![];
    let g = |r: &mut Rng| vec![0.2 + 5.0 * r.unit()];
    for i in 1..n { let j = r.us(0, i - 1); let (i, j) = if r.chance(50) { (i, j) } else { (j, i) }; el.push(("res", i, j, g(r))); }
    for _ in 0..r.us(0, 3) { let (i, j) = (r.us(0, n - 1), r.us(0, n - 1)); if i != j { el.push(("res", i, j, g(r))); } }
    for _ in 0..r.us(0, 2) { let (i, j) = (r.us(0, n - 1), r.us(0, n - 1)); if i != j { el.push(("cur", i, j, pot(r))); } }
    let ns = r.us(0, 2);
    for _ in 0..ns { let (i, j) = (r.us(0, n - 1), r.us(0, n - 1)); if i != j { el.push(("src", i, j, pot(r))); } }
    for k in (1..el.len()).rev() { let j = r.us(0, k); el.swap(k, j); }
    let margin = *r.pick(&[1e-3, 1e-6, 1e-8]);
    c.input(format!("{} of dimension {dim} locked {locked:?} starting at {start:?} elements {el:?} margin {margin}", if dc { "dc_circuit" } else { "heat_transfer" }));
    // loops of sources (or of sources and fixed nodes) are over-determined: keep forests rooted at fixed nodes
    let mut uf: Vec<usize> = (0..n + 1).collect();
    fn find(u: &mut Vec<usize>, mut i: usize) -> usize { while u[i] != i { i = u[i]; } i }
    for (i, l) in locked.iter().enumerate() { if l.is_some() { let a = find(&mut uf, i); uf[a] = n; uf[n] = n; } }
    for (t, i, j, _) in &el { if *t == "src" { let (a, b) = (find(&mut uf, *i), find(&mut uf, *j)); if a == b { c.trivial = true; return Ok(()); } if a == n { uf[b] = a } else { uf[a] = b } } }
    let config = if dim == 1 { None } else {
        let k = NodalAnalysisStudyConfigurator::new(dim);
        let k = if dc { k.add_element_type(RESISTOR, resistor).and_then(|k| k.add_element_type(CURRENT_SOURCE, current_source)).and_then(|k| k.add_element_type(VOLTAGE_SOURCE, voltage_source)) }
            else { k.add_element_type(CONDUCTOR, conductor).and_then(|k| k.add_element_type(HEAT_FLUX, heat_flux)).and_then(|k| k.add_element_type(TEMPERATURE_DELTA, temperature_delta)) };
        Some(std::collections::HashMap::from([(if dc { DC_CIRCUIT } else { HEAT_TRANSFER }.to_string(), k.map_err(|m| m.to_string())?)]))
    };
    let mut b = NodalAnalysisStudyBuilder::new(if dc { DC_CIRCUIT } else { HEAT_TRANSFER }.to_string(), config).map_err(|m| m.to_string())?.add_nodes(n);
    for (i, l) in locked.iter().enumerate() { if let Some(p) = l { b = b.configure_node(i, p.clone(), true, None); } }
    for (i, l) in start.iter().enumerate() { if let Some(p) = l { b = b.configure_node(i, p.clone(), false, None); } }
    for (t, i, j, v) in &el {
        let (name, gain) = match (*t, dc) { ("res", true) => (RESISTOR, vec![1.0 / v[0]]), ("res", false) => (CONDUCTOR, v.clone()), ("cur", true) => (CURRENT_SOURCE, v.clone()), ("cur", false) => (HEAT_FLUX, v.clone()), (_, true) => (VOLTAGE_SOURCE, v.clone()), _ => (TEMPERATURE_DELTA, v.clone()) };
        b = b.add_element(name, *i, *j, gain).map_err(|m| m.to_string())?;
    }
    let s = match quiet(|| b.run_study(margin, 60)) { Err(_) => { c.trivial = true; return Ok(()) } Ok(x) => x };
    let s = match s { Ok(s) => s, Err(m) => { c.trivial = true; let m = m.to_string(); if m.contains("both its input and output nodes were already locked") { return Ok(()); } return if std::env::var("C20_STRICT").is_ok() { Err(format!("not solved: {m}")) } else { Ok(()) } } };
    let s: serde_json::Value = serde_json::to_value(&s).map_err(|m| m.to_string())?;
    let p: Vec<Vec<f64>> = (0..n).map(|i| (0..dim).map(|q| s["nodes"][i.to_string()][q].as_f64().unwrap_or(f64::NAN)).collect()).collect();
    for q in 0..dim {
        let mut inflow = vec![0.0; n];
        for (k, (t, i, j, v)) in el.iter().enumerate() {
            let name = match (*t, dc) { ("res", true) => RESISTOR, ("res", false) => CONDUCTOR, ("cur", true) => CURRENT_SOURCE, ("cur", false) => HEAT_FLUX, (_, true) => VOLTAGE_SOURCE, _ => TEMPERATURE_DELTA };
            let f = s["elements"][format!("{name}.{k}")][q].as_f64().unwrap_or(f64::NAN);
            let tol = margin + 1e-7;
            match *t {
                "res" => { let w = v[0] * (p[*i][q] - p[*j][q]); ensure!((f - w).abs() <= tol, "element {k} reports {f} in component {q}, its nodes give {w} (potentials {p:?})"); }
                "cur" => ensure!(f == v[q], "element {k} reports {f} in component {q}"),
                _ => ensure!((p[*j][q] - p[*i][q] - v[q]).abs() <= tol, "source {k} holds {} in component {q} (potentials {p:?})", p[*j][q] - p[*i][q]),
            }
            inflow[*i] -= f; inflow[*j] += f;
        }
        for i in 0..n {
            match &locked[i] { Some(x) => ensure!(p[i][q] == x[q], "fixed node {i} reported at {:?}", p[i]), None => ensure!(inflow[i].abs() <= margin * (1.0 + el.len() as f64) + 1e-7, "node {i} is out of balance by {} in component {q} (potentials {p:?})", inflow[i]) }
        }
    }
    Ok(())
}

fn main() { hcore::main(&[("C17", c17), ("C18", c18), ("C19", c19), ("C20", c20)]); }
