// Concrete oracle for nexsys (C21-C23) and the C interfaces (C24).
#[path = "../../hg/src/expr.rs"] #[allow(dead_code)] mod expr;
mod c22;
mod c23;
mod c24;
mod track;
use hcore::{ensure, quiet, Case, R};
use nexsys::units::{convert, unit_data};
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[global_allocator]
static ALLOC: track::Track = track::Track;
// ---------------------------------------------------------------- C21
type Tab = BTreeMap<String, f64>;
struct Units { t: BTreeMap<String, Tab>, err: Option<String> }
fn close(a: f64, b: f64) -> bool { a == b || ((a - b) / b).abs() < 1e-12 || (a.is_nan() && b.is_nan()) }
fn base() -> BTreeMap<String, Tab> {
    let v: serde_json::Value = serde_json::from_str(include_str!("/repo/nexsys/src/units/units.json")).unwrap();
    v.as_object().unwrap().iter().map(|(q, u)| (q.clone(), u.as_object().unwrap().iter().map(|(k, f)| (k.clone(), f.as_f64().unwrap())).collect())).collect()
}
fn units() -> &'static Units {
    static U: OnceLock<Units> = OnceLock::new();
    U.get_or_init(|| {
        let b = base();
        let mut t = b.clone();
        t.insert("SPRING FORCE".into(), Tab::new());
        let quot = |t: &mut BTreeMap<String, Tab>, q: &str, n: &str, d: &str| {
            let (n, d) = (t[n].clone(), t[d].clone());
            for (x, a) in &n { for (y, c) in &d { t.get_mut(q).unwrap().insert(format!("{x}/{y}"), a / c); } }
        };
        for (x, a) in &b["LENGTH"] {
            t.get_mut("AREA").unwrap().insert(format!("{x}^2"), a * a);
            t.get_mut("VOLUME").unwrap().insert(format!("{x}^3"), a * a * a);
        }
        for (q, m, n) in [("VISCOSITY-DYNAMIC", "PRESSURE", "TIME"), ("ENERGY", "FORCE", "LENGTH")] {
            for (x, a) in &b[m] { for (y, c) in &b[n] { t.get_mut(q).unwrap().insert(format!("{x}-{y}"), a * c); t.get_mut(q).unwrap().insert(format!("{y}-{x}"), a * c); } }
        }
        for (q, n, d) in [("VELOCITY", "LENGTH", "TIME"), ("FREQUENCY", "NON DIMENSIONAL", "TIME"), ("VOLUMETRIC FLOW", "VOLUME", "TIME"), ("POWER", "ENERGY", "TIME"), ("PRESSURE", "FORCE", "AREA"), ("SPRING FORCE", "FORCE", "LENGTH")] { quot(&mut t, q, n, d); }
        let mut err = None;
        match quiet(unit_data) {
            Err(m) => err = Some(format!("unit_data: {m}")),
            Ok(got) => {
                for (q, tab) in &t {
                    let Some(g) = got.get(q) else { err = Some(format!("quantity {q} missing")); break };
                    for (k, f) in tab { match g.get(k) { None => err = Some(format!("{q}: unit {k} missing")), Some(x) if !close(*x, *f) => err = Some(format!("{q}: {k} has the factor {x}, expected {f}")), _ => {} } }
                    for (k, x) in g { if !tab.contains_key(k) && !t.iter().any(|(_, o)| o.get(k).is_some_and(|f| close(*x, *f))) { err = Some(format!("{q}: {k} is not made from units")); } }
                }
            }
        }
        Units { t, err }
    })
}
fn c21(c: &mut Case) -> R {
    let u = units();
    if let Some(e) = &u.err { c.input("unit_data()".into()); return Err(e.clone()); }
    let qs: Vec<&String> = u.t.keys().collect();
    let q = c.rng.pick(&qs).as_str();
    let ks: Vec<&String> = u.t[q].keys().collect();
    let (a, mut b) = (c.rng.pick(&ks).to_string(), c.rng.pick(&ks).to_string());
    if c.rng.chance(25) { let q2 = *c.rng.pick(&qs); let k2: Vec<&String> = u.t[q2].keys().collect(); b = c.rng.pick(&k2).to_string(); }
    let mut a = a;
    if c.rng.chance(5) { b = match c.rng.below(6) { 0 => String::new(), 1 => b + "x", 2 => b.to_uppercase(), 3 => "m/s/s".into(), 4 => format!(" {b}"), _ => a.clone() + "^2^2" }; if c.rng.chance(30) { a = b.clone(); } }
    let (a, b) = if c.rng.chance(50) { (a, b) } else { (b, a) };
    c.input(format!("convert({a:?}, {b:?})"));
    let both: Vec<f64> = u.t.values().filter_map(|t| Some(t.get(&a)? / t.get(&b)?)).collect();
    let got = quiet(|| convert(&a, &b))?;
    match (&both[..], got) {
        ([], Ok(x)) => Err(format!("no quantity has both, yet the factor is {x}")),
        ([f], Ok(x)) => { ensure!(close(x, *f), "factor {x}, expected {f}"); let y = quiet(|| convert(&b, &a))?.map_err(|_| "no way back")?; ensure!((x * y - 1.0).abs() < 1e-9, "there and back is {}", x * y); Ok(()) }
        ([f], Err(_)) => Err(format!("refused, expected {f}")),
        (fs, Ok(x)) => { ensure!(fs.iter().any(|f| close(x, *f)), "factor {x}"); Ok(()) }
        (_, Err(_)) => Ok(()),
    }
}

fn main() { hcore::main(&[("C21", c21), ("C22", c22::c22), ("C23", c23::c23), ("C24", c24::c24)]); }
