//! Programs put together from pieces: equations, comments, guesses, domains, constants, named constants, unit
//! conversions, block conditionals.  What preprocessing makes of each piece is known by construction.
use geqslib::shunting::{new_context, ContextLike, Token};
use hcore::{ensure, quiet, Case, Rng, R};
use nexsys::parsing::{comments, compile, conditionals, const_values, consts, conversions, domains, guess_values};
use nexsys::units::{const_data, convert};
use std::collections::HashMap;
use std::sync::OnceLock;
// the named constants, from the table's source
fn table() -> &'static HashMap<String, f64> {
    static T: OnceLock<HashMap<String, f64>> = OnceLock::new();
    T.get_or_init(|| {
        let v: serde_json::Value = serde_json::from_str(include_str!("/repo/nexsys/src/units/consts.json")).unwrap();
        v.as_object().unwrap().iter().map(|(k, a)| (k.clone(), a[1].as_f64().unwrap_or_else(|| a[1].as_str().unwrap().parse().unwrap()))).collect()
    })
}
const NAMES: &[&str] = &["x", "y", "Z", "flow", "bend", "elsewhere", "endurance", "guessed", "keeper", "constant", "t_1", "iffy", "onset", "format", "motif", "Else2", "if_3", "end_4"];
const CONV: &[(&str, &str)] = &[("ft", "m"), ("in", "cm"), ("gpm", "m^3/s"), ("ft/s", "m/s"), ("N/m^2", "psi"), ("Pa-s", "psi-s"), ("m", "in"), ("hr", "s")];
fn cased(r: &mut Rng, s: &str) -> String { match r.below(4) { 0 => s.to_uppercase(), 1 => s.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(), _ => s.into() } }
fn sp(r: &mut Rng, min: usize) -> String { " ".repeat(min + if r.chance(25) { r.us(0, 2) } else { 0 }) }
// a number as written, and its value
fn number(r: &mut Rng) -> (String, f64) {
    let d = match r.below(6) { 0 => "0".into(), 1 => format!("{}.", r.range(0, 99)), 2 => format!("00{}", r.range(0, 99)), 3 => format!("{}.{:03}", r.range(0, 99999), r.range(0, 999)), 4 => format!("{}", r.range(0, 999)), _ => "0.1".to_string() };
    let s = *r.pick(&["", "", "-", "- "]);
    let t = format!("{s}{d}");
    let v = t.replace(' ', "").parse().unwrap();
    (t, v)
}
struct P { src: String, out: String, bad: bool }
impl P { fn same(s: &str) -> P { P { src: s.into(), out: s.into(), bad: false } } fn put(&mut self, s: &str) { self.src += s; self.out += s; } fn gone(&mut self, s: &str) { self.src += s; } fn become_(&mut self, s: &str, o: &str) { self.src += s; self.out += o; } }
// something that stands for a number: a number, a named constant, a conversion
fn value(r: &mut Rng, pure: bool) -> (String, String, f64) {
    match if pure { 9 } else { r.below(10) } {
        0 => { let mut k: Vec<&String> = table().keys().filter(|k| table()[*k] >= 0.0).collect(); k.sort(); let k = *r.pick(&k); (k.clone(), format!("{}", table()[k]), table()[k]) }
        1 | 2 => { let (a, b) = *r.pick(CONV); let v = quiet(|| convert(a, b)).unwrap().unwrap(); (format!("[{a}->{b}]"), format!("{v}"), v) }
        _ => { let (t, v) = number(r); if pure { (t.clone(), t, v) } else { let t = t.replace(['-', ' '], ""); (t.clone(), t, v.abs()) } }
    }
}
fn equation(r: &mut Rng) -> P {
    let mut p = P::same("");
    if r.chance(8) { p.put("  "); }
    p.put(r.pick(NAMES)); 
    for _ in 0..r.us(0, 3) {
        p.put(*r.pick(&[" + ", "-", " * ", "/", "^"]));
        if r.chance(50) { p.put(r.pick(NAMES)); } else { let (s, o, _) = value(r, false); p.become_(&s, &o); }
    }
    p.put(*r.pick(&[" = ", "=", "  =", "= "]));
    if r.chance(50) { p.put(r.pick(NAMES)); } else { let (s, o, _) = value(r, false); p.become_(&s, &o); }
    if r.chance(10) { p.put("\t"); }
    p
}
const OPS: &[(&str, &str)] = &[("==", "1.0"), ("<=", "2.0"), (">=", "3.0"), ("<", "4.0"), (">", "5.0"), ("!=", "6.0")];
fn squeeze(s: &str) -> String { s.replace([' ', '\t'], "") }
// an if block, whose condition is told apart by `tag`; the text of a row of it, and what the row stands for
fn block(r: &mut Rng, depth: usize, tag: &mut usize) -> (Vec<String>, String) {
    *tag += 1;
    let side = |r: &mut Rng, n: usize| -> String { let mut s = if r.chance(15) { r.pick(&["0", "1.5", "10", "-2", "0.25"]).to_string() } else { r.pick(NAMES).to_string() }; if r.chance(30) { s += r.pick(&[" - ", "+", "* "]); s += r.pick(NAMES); } if n > 0 { s += &format!("{}{}", r.pick(&[" + ", "+"]), n); } s };
    let (a, b) = (side(r, *tag), side(r, 0));
    let (op, code) = *r.pick(OPS);
    let g = || *[" ", "", "  "].iter().min().unwrap();
    let _ = g;
    let gap = *r.pick(&[" ", " ", "", "  "]);
    let lead = *r.pick(&["", "", "    ", "\t"]);
    let mut rows = vec![format!("{lead}if {a}{gap}{op}{gap}{b}:")];
    let mut parts = vec![];
    for k in 0..2 {
        if k == 1 { rows.push(format!("{}else:", r.pick(&["", "  ", "\t"]))); }
        if depth > 0 && r.chance(35) {
            let (inner, call) = block(r, depth - 1, tag);
            parts.push(call); rows.extend(inner);
        } else {
            let ind = *r.pick(&["", "    ", "\t", "  "]);
            let (l, q) = (side(r, 0), side(r, 0));
            let zero = *r.pick(&["0.5", "0 + 3", "00", "0.", "10", "0*a", "(0)", "-0", "0^x", "3", "-1", "1.0", "x0"]);
            let (row, part) = match r.below(7) { 4 => (format!("{l} ={}{zero}", r.pick(&["", " "])), format!("{l}-({zero})")), 5 => (format!("{l} = {zero}{}", r.pick(&["", " ", "  "])), format!("{l}-({zero})")), 0 => (l.clone(), l), 1 => (format!("{l} = 0"), l), _ => { let e = *r.pick(&[" = ", "="]); (format!("{l}{e}{q}"), if q == "0" { l.clone() } else { format!("{l}-({q})") }) } };
            rows.push(format!("{ind}{row}{}", r.pick(&["", "", " "])));
            parts.push(squeeze(&part));
        }
    }
    rows.push(format!("{}end{}", r.pick(&["", "    ", "\t"]), r.pick(&["", "", " ", "\t"])));
    (rows, format!("if({},{code},{},{},{})", squeeze(&a), squeeze(&b), parts[0], parts[1]))
}
pub fn c22(c: &mut Case) -> R {
    static ONCE: OnceLock<Option<String>> = OnceLock::new();
    if let Some(e) = ONCE.get_or_init(|| match quiet(const_data) { Err(e) => Some(e), Ok(t) if &t != table() => Some("const_data() is not the table of consts.json".into()), Ok(_) => None }) { c.input("const_data()".into()); return Err(e.clone()); }
    let r = &mut c.rng;
    let mut decl: HashMap<String, [f64; 3]> = HashMap::new();
    for n in NAMES { if r.chance(8) { decl.insert(n.to_string(), [r.range(-9, 9) as f64, -10.0 - r.range(0, 9) as f64, 10.0 + r.range(0, 9) as f64]); } }
    let mut ctx = new_context();
    let mut known: HashMap<String, f64> = HashMap::new();
    for n in NAMES { if r.chance(5) { ctx.add_const_to_ctx(n, 0.5); known.insert(n.to_string(), 0.5); } }
    let (mut guesses, mut doms, mut vals): (HashMap<String, f64>, HashMap<String, [f64; 2]>, HashMap<String, f64>) = Default::default();
    let mut bad = false;
    let mut tag = 0;
    let mut prog = P::same("");
    let lines = r.us(1, 7);
    for li in 0..lines {
        if li > 0 || r.chance(10) { prog.put("\n"); }
        let mut p = P::same("");
        match r.below(12) {
            0..=2 => p = equation(r),
            3 => { let (rows, call) = block(r, 2, &mut tag); 
                    let rows: Vec<String> = rows.into_iter().map(|t| if r.chance(10) { format!("{t}{}// {}", r.pick(&["", " ", "  "]), r.pick(&["a note", "end", "if x < 3:", "guess 5 for x"])) } else if r.chance(5) { t + " " } else { t }).collect();
                    p.src = rows.join("\n"); p.out = format!("{call} = 0"); }
            4 => p.put(*r.pick(&["", "just words", "if you see this", "the end", "else", "  ", "keep going", "guess x", "const x"])),
            _ => for k in 0..r.us(1, 2) {
                if k > 0 { p.put(*r.pick(&[" ", "  "])); }
                let n = r.pick(NAMES).to_string();
                match r.below(3) {
                    0 => { let (s, o, v) = if r.chance(80) { value(r, true) } else { value(r, false) }; let _ = o; p.gone(&format!("{}{}{s}{}{}{}{n}", cased(r, "guess"), sp(r, 1), sp(r, 1), cased(r, "for"), sp(r, 1))); guesses.insert(n, v); }
                    1 => {
                        let ((a, _, x), (b, _, y)) = (value(r, true), if r.chance(80) { value(r, true) } else { value(r, false) });
                        p.gone(&format!("{}{}{n}{}{}{}[{}{a},{}{b}{}]", cased(r, "keep"), sp(r, 1), sp(r, 1), cased(r, "on"), sp(r, 1), sp(r, 0), sp(r, 0), sp(r, 0))); doms.insert(n, [x, y]);
                    }
                    _ => {
                        let (mut s, _, mut v) = value(r, true);
                        if r.chance(40) {
                            let pars = r.chance(20);
                            if pars { s = s.replace(' ', ""); let (t, _, w) = value(r, false); s = format!("({s}+{t})"); v += w; }
                            for _ in 0..r.us(0, 2) {
                                let (t, _, w) = value(r, false);
                                let o = *r.pick(&["*", "/", "+", "-"]);
                                if o == "/" && w == 0.0 { continue; }
                                s = format!("{s}{}{o}{}{t}", sp(r, 0), sp(r, 0));
                                match o { "*" => v *= w, "/" => v /= w, "+" => v += w, _ => v -= w }
                                if o == "+" || o == "-" { break; }
                            }
                        } else if r.chance(20) { let (t, _, w) = value(r, false); s = t; v = w; }
                        if r.chance(1) { s = "nosuchname".into(); bad = true; }
                        p.gone(&format!("{}{}{n}{}={}{s}", cased(r, "const"), sp(r, 1), sp(r, 0), sp(r, 0))); vals.insert(n, v);
                    }
                }
            },
        }
        let blk = p.src.contains('\n') || p.out.starts_with("if(");
        if !blk && r.chance(2) { let s = *r.pick(&["#nosuch", "[ft->s]", "[nosuch->m]", "[nosuch->nosuch]", "[m->nosuch]", "#"]); p.put(&format!(" {s}")); p.bad = s != "#"; }
        bad |= p.bad;
        // a comment: nothing in it counts
        if !blk && r.chance(25) { let w = if r.chance(50) { let mut w = String::new(); for _ in 0..r.us(1, 6) { w += r.pick(&["a", "m/s", "/", " ", ":", "://", "x = 3", "#", "#pi", "[", "]", "->", "//", "end", "if x < 3:", "\t", "\\", "\"", "é", "1.5", "guess 2 for y", "-", "*", "\\n"]); } w } else { r.pick(&["", " a note", " guess 5 for x", " const x = 3 // again", " keep y on [1, 2]", " #nosuch [a->b]", " z = 3", "/"]).to_string() }; p.put(*r.pick(&[" ", "", "  "])); p.gone(&format!("//{w}")); }
        prog.src += &p.src; prog.out += &p.out;
    }
    if r.chance(20) { prog.put("\n"); }
    let src = prog.src.clone();
    c.input(format!("{src:?} declared {decl:?} known {known:?}"));
    // what is there to be recorded
    let mut want: HashMap<String, [f64; 3]> = decl.clone();
    for (k, [lo, hi]) in &doms { let e = want.entry(k.clone()).or_insert([1.0, 0.0, 0.0]); e[1] = *lo; e[2] = *hi; }
    for (k, g) in &guesses { let e = want.entry(k.clone()).or_insert([1.0, f64::NEG_INFINITY, f64::INFINITY]); e[0] = *g; }
    let base = new_context();
    let res = quiet(|| compile(&src, &mut ctx, &mut decl))?;
    if bad { c.trivial = true; ensure!(res.is_err(), "accepted"); return Ok(()); }
    let got = res.map_err(|e| format!("refused: {e}"))?;
    ensure!(got == prog.out, "became {got:?}, expected {:?}", prog.out);
    ensure!(decl == want, "declared {decl:?}, expected {want:?}");
    let near = |x: f64, v: f64| (x == v || (x - v).abs() <= 1e-12 * v.abs().max(1.0)) || !(v.is_finite());
    for (k, v) in known.iter().map(|(k, v)| (k, *v)).filter(|(k, _)| !vals.contains_key(*k)).chain(vals.iter().map(|(k, v)| (k, *v))) {
        match ctx.get(k) { Some(Token::Num(x)) => ensure!(near(*x, v), "{k} is {x}, expected {v}"), _ => return Err(format!("{k} is not the constant {v}")) }
    }
    for k in ctx.keys() { ensure!(base.contains_key(k) || known.contains_key(k) || vals.contains_key(k), "{k} came to be known"); }
    ensure!(base.keys().all(|k| ctx.contains_key(k)), "a builtin is gone");
    // the steps by themselves
    let t1 = quiet(|| comments(&src))?;
    let t2 = quiet(|| consts(&t1))?.map_err(|e| e.to_string())?;
    let t3 = quiet(|| conversions(&t2))?.map_err(|e| e.to_string())?;
    let (t4, v4) = quiet(|| const_values(&t3))?.map_err(|e| e.to_string())?;
    let (t5, d5) = quiet(|| domains(&t4))?;
    let (t6, g6) = quiet(|| guess_values(&t5))?;
    let t7 = quiet(|| conditionals(&t6))?.map_err(|e| e.to_string())?;
    ensure!(t7 == got, "step by step it becomes {t7:?}");
    ensure!(d5 == doms && g6 == guesses && v4.len() == vals.len(), "recorded {d5:?} {g6:?} {v4:?}");
    Ok(())
}
