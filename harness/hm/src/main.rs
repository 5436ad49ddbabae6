// Concrete oracle for gmatlib (C01-C07), over i64, f64 and the exact fields GF(p).
use gmatlib::{Element, Matrix};
use hcore::{ensure, panics, quiet, Case, Rng, R};
use std::fmt;
use std::ops::*;

/// GF(P)
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Gf<const P: u64>(pub u64);
impl<const P: u64> fmt::Display for Gf<P> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
impl<const P: u64> Gf<P> {
    fn pow(self, mut e: u64) -> Self { let (mut b, mut r) = (self, Gf(1 % P)); while e > 0 { if e & 1 == 1 { r = r * b } b = b * b; e >>= 1; } r }
}
impl<const P: u64> Add for Gf<P> { type Output = Self; fn add(self, o: Self) -> Self { Gf((self.0 + o.0) % P) } }
impl<const P: u64> Sub for Gf<P> { type Output = Self; fn sub(self, o: Self) -> Self { Gf((self.0 + P - o.0) % P) } }
impl<const P: u64> Mul for Gf<P> { type Output = Self; fn mul(self, o: Self) -> Self { Gf((self.0 as u128 * o.0 as u128 % P as u128) as u64) } }
impl<const P: u64> Div for Gf<P> { type Output = Self; fn div(self, o: Self) -> Self { if o.0 == 0 { panic!("division by zero in GF(p)") } self * o.pow(P - 2) } }
impl<const P: u64> Rem for Gf<P> { type Output = Self; fn rem(self, _: Self) -> Self { Gf(0) } }
impl<const P: u64> Neg for Gf<P> { type Output = Self; fn neg(self) -> Self { Gf((P - self.0) % P) } }
impl<const P: u64> AddAssign for Gf<P> { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl<const P: u64> SubAssign for Gf<P> { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl<const P: u64> MulAssign for Gf<P> { fn mul_assign(&mut self, o: Self) { *self = *self * o } }
impl<const P: u64> num_traits::Zero for Gf<P> { fn zero() -> Self { Gf(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl<const P: u64> num_traits::One for Gf<P> { fn one() -> Self { Gf(1) } }
impl<const P: u64> num_traits::Num for Gf<P> { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> { Err(()) } }
impl<const P: u64> Element<Gf<P>> for Gf<P> {}

pub trait El: Element<Self> + num_traits::Zero + num_traits::One + Mul<Output = Self> + Div<Output = Self> + Add<Output = Self> + Sub<Output = Self> + Neg<Output = Self> + PartialEq + Sized {
    fn rnd(r: &mut Rng) -> Self;
    /// equal up to the rounding of a sum (exact for exact types)
    fn close(a: Self, b: Self) -> bool { a == b }
}
impl<const P: u64> El for Gf<P> { fn rnd(r: &mut Rng) -> Self { if r.chance(20) { Gf(r.below(2)) } else { Gf(r.below(P)) } } }
impl El for i64 { fn rnd(r: &mut Rng) -> Self { r.range(-9, 9) } }
impl El for f64 { fn rnd(r: &mut Rng) -> Self { if r.chance(50) { r.range(-9, 9) as f64 } else { (r.unit() - 0.5) * 10f64.powi(r.range(-3, 3) as i32) } }
    fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs() + b.abs()) * 1e3 || a == b } }

type V<T> = Vec<Vec<T>>;
fn rv<T: El>(r: &mut Rng, m: usize, n: usize) -> V<T> { (0..m).map(|_| (0..n).map(|_| T::rnd(r)).collect()).collect() }
/// Build through the element-free route: a flat vector (checked by C01) when there is at least one element.
fn mk<T: El>(v: &V<T>, n: usize) -> Matrix<T> {
    if v.is_empty() || n == 0 { return Matrix::new(v.len(), n); }
    Matrix::from_vec(n, v.iter().flatten().copied().collect()).unwrap()
}
fn flat<T: El>(m: &Matrix<T>) -> Vec<T> { m.iter().copied().collect() }
fn same<T: El>(m: &Matrix<T>, v: &V<T>, rows: usize, cols: usize, what: &str) -> R {
    ensure!(m.get_rows() == rows && m.get_cols() == cols, "{what}: shape {}x{}, expected {rows}x{cols}", m.get_rows(), m.get_cols());
    let f = flat(m);
    ensure!(f.len() == rows * cols, "{what}: {} elements stored for {rows}x{cols}", f.len());
    for i in 0..rows { for j in 0..cols {
        ensure!(f[i * cols + j] == v[i][j], "{what}: element ({i},{j}) is {} expected {}", f[i * cols + j], v[i][j]);
        ensure!(m[(i, j)] == v[i][j], "{what}: indexed element ({i},{j}) is {} expected {}", m[(i, j)], v[i][j]);
    } }
    Ok(())
}
fn near<T: El>(m: &Matrix<T>, v: &V<T>, rows: usize, cols: usize, what: &str) -> R {
    ensure!(m.get_rows() == rows && m.get_cols() == cols, "{what}: shape {}x{}, expected {rows}x{cols}", m.get_rows(), m.get_cols());
    let f = flat(m);
    ensure!(f.len() == rows * cols, "{what}: {} elements stored for {rows}x{cols}", f.len());
    for i in 0..rows { for j in 0..cols { ensure!(T::close(f[i * cols + j], v[i][j]), "{what}: element ({i},{j}) is {} expected {}", f[i * cols + j], v[i][j]); } }
    Ok(())
}
fn dim(r: &mut Rng) -> usize { if r.chance(5) { 0 } else if r.chance(80) { r.us(1, 5) } else { r.us(6, 11) } }
fn dim1(r: &mut Rng) -> usize { dim(r).max(1) }

fn c01<T: El>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (m, n) = (dim(r), dim(r));
    let v: V<T> = rv(r, m, n);
    let (i, j) = (r.us(0, m + 1), r.us(0, n + 1));
    let big = r.chance(10);
    let (i, j) = if big { (*r.pick(&[i, usize::MAX, usize::MAX / 2 + 1]), *r.pick(&[j, usize::MAX, m * n])) } else { (i, j) };
    let x = T::rnd(r);
    let k = r.us(0, 13);
    let cols = r.us(1, 6);
    c.input(format!("shape {m}x{n} vals {v:?} access ({i},{j}) value {x} flat length {k} cols {cols}"));
    let zero: V<T> = vec![vec![T::zero(); n]; m];
    same(&Matrix::<T>::new(m, n), &zero, m, n, "new")?;
    let mut id = vec![vec![T::zero(); n]; n];
    for q in 0..n { id[q][q] = T::one(); }
    same(&Matrix::<T>::new_identity(n), &id, n, n, "new_identity")?;
    let f: Vec<T> = (0..k).map(|q| if q < m * n { v[q / n.max(1)][q % n.max(1)] } else { T::one() }).collect();
    match Matrix::from_vec(cols, f.clone()) {
        Ok(a) => { ensure!(k % cols == 0, "from_vec accepted {k} elements for {cols} columns"); let w: V<T> = f.chunks(cols).map(|c| c.to_vec()).collect(); same(&a, &w, k / cols, cols, "from_vec")?; let back: Vec<T> = a.into(); ensure!(back == f, "into Vec"); }
        Err(_) => ensure!(k % cols != 0, "from_vec refused {k} elements for {cols} columns"),
    }
    same(&Matrix::from_row_vec(f.clone()), &vec![f.clone()], 1, k, "from_row_vec")?;
    let cv: V<T> = f.iter().map(|x| vec![*x]).collect();
    same(&Matrix::from_col_vec(f.clone()), &cv, k, 1, "from_col_vec")?;
    if k > 0 {
        same(&gmatlib::row_vec![f[0], f[k - 1]], &vec![vec![f[0], f[k - 1]]], 1, 2, "row_vec!")?;
        same(&gmatlib::col_vec![f[0], f[k - 1]], &vec![vec![f[0]], vec![f[k - 1]]], 2, 1, "col_vec!")?;
    }
    let mut a = mk(&v, n);
    same(&a, &v, m, n, "from_vec shape")?;
    let inside = i < m && j < n;
    ensure!(panics(|| a[(i, j)]) != inside, "read of ({i},{j}) in {m}x{n}: {}", if inside { "panicked" } else { "returned a value" });
    if inside { ensure!(a[(i, j)] == v[i][j], "read of ({i},{j})"); }
    let p = panics(|| a[(i, j)] = x);
    ensure!(p != inside, "write of ({i},{j}) in {m}x{n}: {}", if inside { "panicked" } else { "succeeded" });
    let mut w = v.clone();
    if inside { w[i][j] = x; }
    same(&a, &w, m, n, "after write")
}

fn c02<T: El>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (m, n) = (dim1(r), dim(r));
    let v: V<T> = rv(r, m, n);
    let (r1, r2) = (r.us(0, m - 1), r.us(0, m - 1));
    let s = T::rnd(r);
    c.input(format!("shape {m}x{n} vals {v:?} rows {r1},{r2} scalar {s}"));
    let go = |f: &dyn Fn(&mut Matrix<T>), g: &dyn Fn(usize, usize) -> T, what: &str| -> R {
        let mut a = mk(&v, n);
        f(&mut a);
        let w: V<T> = (0..m).map(|i| (0..n).map(|j| g(i, j)).collect()).collect();
        same(&a, &w, m, n, what)
    };
    go(&|a| a.inplace_row_swap(r1, r2), &|i, j| v[if i == r1 { r2 } else if i == r2 { r1 } else { i }][j], "row_swap")?;
    go(&|a| a.inplace_row_scale(r1, s), &|i, j| if i == r1 { v[i][j] * s } else { v[i][j] }, "row_scale")?;
    go(&|a| a.inplace_scale(s), &|i, j| v[i][j] * s, "scale")?;
    go(&|a| a.inplace_row_add(r1, r2), &|i, j| if i == r1 { v[i][j] + v[r2][j] } else { v[i][j] }, "row_add")?;
    go(&|a| a.inplace_scaled_row_add(r1, r2, s), &|i, j| if i == r1 { v[i][j] + v[r2][j] * s } else { v[i][j] }, "scaled_row_add")?;
    let a = mk(&v, n);
    let w: V<T> = (0..m).map(|i| (0..n).map(|j| v[i][j] * s).collect()).collect();
    same(&(&a * s), &w, m, n, "&m * scalar")?;
    same(&a, &v, m, n, "operand of &m * scalar")?;
    same(&(a * s), &w, m, n, "m * scalar")
}

fn prod<T: El>(a: &V<T>, b: &V<T>, p: usize) -> V<T> {
    a.iter().map(|ra| (0..p).map(|j| { let mut t = T::zero(); for (k, x) in ra.iter().enumerate() { t = t + *x * b[k][j]; } t }).collect()).collect()
}
fn c03<T: El>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (m, n, p) = (dim(r), dim(r), dim(r));
    let n2 = if r.chance(70) { n } else { dim(r) };
    let (x, y): (V<T>, V<T>) = (rv(r, m, n), rv(r, n2, p));
    c.input(format!("{m}x{n} {x:?} times {n2}x{p} {y:?}"));
    let (a, b) = (mk(&x, n), mk(&y, p));
    if n != n2 {
        ensure!(a.multiply_matrix(&b).is_err(), "mismatched product accepted");
        for k in 0..4 {
            let (a, b) = (a.clone(), b.clone());
            ensure!(panics(move || match k { 0 => a * b, 1 => &a * b, 2 => a * &b, _ => &a * &b }), "mismatched operator product {k} returned");
        }
        return Ok(());
    }
    let w = prod(&x, &y, p);
    near(&a.multiply_matrix(&b).map_err(|e| e.to_string())?, &w, m, p, "multiply_matrix")?;
    near(&(a.clone() * b.clone()), &w, m, p, "m * m")?;
    near(&(&a * b.clone()), &w, m, p, "&m * m")?;
    near(&(a.clone() * &b), &w, m, p, "m * &m")?;
    near(&(&a * &b), &w, m, p, "&m * &m")?;
    same(&a, &x, m, n, "left operand")?;
    same(&b, &y, n2, p, "right operand")
}

fn c04<T: El>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (m, n) = (dim(r), dim(r));
    let (m, n) = if r.chance(25) { (m, m) } else { (m, n) };
    let (m2, p) = (if r.chance(75) { m } else { dim(r) }, dim(r));
    let (x, y): (V<T>, V<T>) = (rv(r, m, n), rv(r, m2, p));
    let r1 = r.us(0, m + 1); let r2 = r1 + r.us(0, m.max(1));
    let c1 = r.us(0, n + 1); let c2 = c1 + r.us(0, n.max(1));
    let (r2, c2) = if r.chance(60) && m > 0 && n > 0 { (r2.min(m - 1), c2.min(n - 1)) } else { (r2, c2) };
    let (r1, c1) = (r1.min(r2), c1.min(c2));
    c.input(format!("{m}x{n} {x:?} | {m2}x{p} {y:?} subset ({r1},{c1})..=({r2},{c2})"));
    let (a, b) = (mk(&x, n), mk(&y, p));
    match a.augment_with(&b) {
        Ok(g) => { ensure!(m == m2, "augment accepted {m} and {m2} rows"); let w: V<T> = (0..m).map(|i| x[i].iter().chain(y[i].iter()).copied().collect()).collect(); same(&g, &w, m, n + p, "augment")?; same(&(&a | &b), &w, m, n + p, "|")?; }
        Err(_) => { ensure!(m != m2, "augment refused equal row counts"); ensure!(panics(|| &a | &b), "| returned for different row counts"); }
    }
    let inside = r2 < m && c2 < n;
    match quiet(|| a.subset(r1, c1, r2, c2)) {
        Ok(s) => { ensure!(inside, "subset outside the matrix returned"); let w: V<T> = (r1..=r2).map(|i| x[i][c1..=c2].to_vec()).collect(); same(&s, &w, r2 - r1 + 1, c2 - c1 + 1, "subset")?; }
        Err(e) => ensure!(!inside, "subset inside the matrix {e}"),
    }
    let w: V<T> = (0..n).map(|j| (0..m).map(|i| x[i][j]).collect()).collect();
    same(&a.transpose(), &w, n, m, "transpose")?;
    match a.trace() {
        Ok(t) => { ensure!(m == n, "trace of {m}x{n}"); let mut s = T::zero(); for i in 0..n { s = s + x[i][i]; } ensure!(T::close(t, s), "trace {t} expected {s}"); }
        Err(_) => ensure!(m != n, "trace of a square matrix refused"),
    }
    same(&a, &x, m, n, "left operand")?;
    same(&b, &y, m2, p, "right operand")
}

fn c05<T: El>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (m, n) = (dim(r), dim(r));
    let (m2, n2) = if r.chance(60) { (m, n) } else if r.chance(50) { (n, m) } else { (dim(r), dim(r)) };
    let (x, y): (V<T>, V<T>) = (rv(r, m, n), rv(r, m2, n2));
    c.input(format!("{m}x{n} {x:?} and {m2}x{n2} {y:?}"));
    let (a, b) = (mk(&x, n), mk(&y, n2));
    let ok = m == m2 && n == n2;
    for sub in [false, true] {
        let w: V<T> = if ok { (0..m).map(|i| (0..n).map(|j| if sub { x[i][j] - y[i][j] } else { x[i][j] + y[i][j] }).collect()).collect() } else { vec![] };
        for k in 0..5 {
            let (a2, b2) = (a.clone(), b.clone());
            let res = quiet(move || match (k, sub) {
                (0, false) => a2 + b2, (1, false) => &a2 + b2, (2, false) => a2 + &b2, (3, false) => &a2 + &b2, (_, false) => { let mut q = a2; q += b2; q }
                (0, true) => a2 - b2, (1, true) => &a2 - b2, (2, true) => a2 - &b2, (3, true) => &a2 - &b2, (_, true) => { let mut q = a2; q -= b2; q }
            });
            match res { Ok(s) => { ensure!(ok, "{m}x{n} and {m2}x{n2} accepted (form {k}, sub {sub})"); same(&s, &w, m, n, &format!("form {k} sub {sub}"))?; } Err(e) => ensure!(!ok, "equal shapes refused (form {k}, sub {sub}): {e}") }
        }
        // a refused assigning form must leave its target alone
        if !ok { let mut q = a.clone(); let b2 = b.clone(); let _ = panics(|| if sub { q -= b2 } else { q += b2 }); same(&q, &x, m, n, "target of a refused assignment")?; }
    }
    same(&a, &x, m, n, "left operand")?;
    same(&b, &y, m2, n2, "right operand")
}

/// determinant by elimination with pivoting (independent of the code under test)
fn det<T: El>(v: &V<T>) -> T {
    let n = v.len();
    let mut a = v.clone();
    let mut d = T::one();
    for k in 0..n {
        let Some(p) = (k..n).find(|i| a[*i][k] != T::zero()) else { return T::zero() };
        if p != k { a.swap(p, k); d = -d; }
        d = d * a[k][k];
        for i in k + 1..n { let f = a[i][k] / a[k][k]; for j in k..n { let t = a[k][j]; a[i][j] = a[i][j] - f * t; } }
    }
    d
}
fn ident<T: El>(n: usize) -> V<T> { (0..n).map(|i| (0..n).map(|j| if i == j { T::one() } else { T::zero() }).collect()).collect() }
fn square<T: El>(r: &mut Rng, n: usize) -> V<T> {
    let mut v: V<T> = rv(r, n, n);
    match r.below(10) {
        0 => { for i in 0..n { for j in 0..n { if j < i { v[i][j] = T::zero() } } } }
        1 => { for i in 0..n { for j in 0..n { if j > i { v[i][j] = T::zero() } } } }
        2 if n > 1 => { let (a, b) = (r.us(0, n - 1), r.us(0, n - 1)); v[a] = v[b].clone(); }
        3 => { let z = r.us(0, n * n - 1); let s = T::rnd(r); for k in 0..n * n { if k != z { let q: T = T::rnd(r); v[k / n][k % n] = if r.chance(60) { T::zero() } else { q } } else { v[k / n][k % n] = s } } }
        4 => { let mut p: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { let j = r.us(0, i); p.swap(i, j); } for i in 0..n { for j in 0..n { v[i][j] = if p[i] == j { T::rnd(r) } else { T::zero() } } } }
        _ => {}
    }
    v
}
fn c06<T: El>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.us(1, 4);
    if r.chance(7) {
        let m = r.us(0, 6); let k = r.us(0, 6);
        if m != k {
            let v: V<T> = rv(r, m, k);
            c.input(format!("{m}x{k} {v:?}"));
            let mut a = mk(&v, k);
            ensure!(a.try_inplace_invert().is_err(), "non-square inverted");
            return same(&a, &v, m, k, "refused matrix");
        }
    }
    let v: V<T> = square(r, n);
    c.input(format!("{n}x{n} {v:?}"));
    let d = det(&v);
    let mut a = mk(&v, n);
    match quiet(|| a.try_inplace_invert().map_err(|e| e.to_string()))? {
        Ok(()) => {
            ensure!(d != T::zero(), "inverted a singular matrix");
            let f = flat(&a);
            ensure!(a.get_rows() == n && a.get_cols() == n && f.len() == n * n, "shape changed");
            let w: V<T> = f.chunks(n).map(|x| x.to_vec()).collect();
            ensure!(prod(&w, &v, n) == ident(n), "result * original is not the identity: result {w:?}");
            ensure!(prod(&v, &w, n) == ident(n), "original * result is not the identity: result {w:?}");
            Ok(())
        }
        Err(e) => { ensure!(d == T::zero(), "refused an invertible matrix (det {d}): {e}"); same(&a, &v, n, n, "matrix after failure") }
    }
}
fn c07<T: El>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.us(5, 9);
    let v: V<T> = square(r, n);
    c.input(format!("{n}x{n} {v:?}"));
    let mut a = mk(&v, n);
    match quiet(|| a.try_inplace_invert().map_err(|e| e.to_string()))? {
        Ok(()) => {
            let f = flat(&a);
            ensure!(a.get_rows() == n && a.get_cols() == n && f.len() == n * n, "shape changed");
            let w: V<T> = f.chunks(n).map(|x| x.to_vec()).collect();
            ensure!(prod(&w, &v, n) == ident(n), "result * original is not the identity: result {w:?}");
            Ok(())
        }
        Err(_) => { c.trivial = true; Ok(()) }
    }
}

macro_rules! over { ($name:ident, $f:ident, $($t:ty),+) => { fn $name(c: &mut Case) -> R { let fs: &[fn(&mut Case) -> R] = &[$($f::<$t>),+]; fs[(c.idx % fs.len() as u64) as usize](c) } } }
over!(d01, c01, i64, f64, Gf<101>);
over!(d02, c02, i64, f64, Gf<101>);
over!(d03, c03, i64, f64, Gf<101>);
over!(d04, c04, i64, f64, Gf<101>);
over!(d05, c05, i64, f64, Gf<101>);
over!(d06, c06, Gf<7>, Gf<101>, Gf<1000003>);
over!(d07, c07, Gf<1000003>, Gf<101>, Gf<2147483647>);

fn main() { hcore::main(&[("C01", d01), ("C02", d02), ("C03", d03), ("C04", d04), ("C05", d05), ("C06", d06), ("C07", d07)]) }
