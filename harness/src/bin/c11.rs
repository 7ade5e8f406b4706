//! C11: the matrix product is the textbook product.
use matreex::{Error, Matrix};
use mxv::engine::guard;
use mxv::*;
use std::ops::{Add, Mul};

// ------------------------------------------------------------------ symbolic elements

/// The left and the right factor are different types, so they cannot be confused.
#[derive(Clone)]
struct Lx(Tr8);
#[derive(Clone)]
struct Rx(Tr16);

/// A sum of products, as the multiset of its (left, right) factors.
struct Sum {
    terms: Vec<(u64, u64)>,
    /// how many U::default() went in
    defaults: u64,
    guard: Tr4,
}

impl Mul<Rx> for Lx {
    type Output = Sum;
    fn mul(self, r: Rx) -> Sum {
        Sum { terms: vec![(self.0.val(), r.0.val())], defaults: 0, guard: Tr4::mk(1) }
    }
}
impl Add for Sum {
    type Output = Sum;
    fn add(mut self, mut o: Sum) -> Sum {
        self.terms.append(&mut o.terms);
        self.defaults += o.defaults;
        self.guard.val();
        o.guard.val();
        self
    }
}
impl Default for Sum {
    fn default() -> Self {
        Sum { terms: vec![], defaults: 1, guard: Tr4::mk(2) }
    }
}

/// Factors without storage: only numbers of terms can be seen.
#[derive(Clone)]
struct Lz;
#[derive(Clone)]
struct Rz;
impl Mul<Rz> for Lz {
    type Output = Sum;
    fn mul(self, _: Rz) -> Sum {
        Sum { terms: vec![(0, 0)], defaults: 0, guard: Tr4::mk(1) }
    }
}

macro_rules! factor {
    ($t:ident, $v:ident => $mk:expr, $s:ident => $val:expr, $norm:expr, $id:expr) => {
        impl Val for $t {
            #[allow(unused_variables)]
            fn mk($v: u64) -> Self {
                $mk
            }
            fn val(&self) -> u64 {
                let $s = self;
                $val
            }
            fn norm(v: u64) -> u64 {
                $norm * v
            }
            fn id(&self) -> u32 {
                let $s = self;
                $id
            }
        }
    };
}
factor!(Lx, v => Lx(Tr8::mk(v)), s => s.0.val(), 1, s.0.id());
factor!(Rx, v => Rx(Tr16::mk(v)), s => s.0.val(), 1, s.0.id());
factor!(Lz, v => Lz, _s => 0, 0, 0);
factor!(Rz, v => Rz, _s => 0, 0, 0);

// ------------------------------------------------------------------ drawing

struct Pair {
    l: Model,
    r: Model,
    pl: usize,
    pr: usize,
    form: usize,
}

const FORMS: [&str; 6] = ["multiply", "l * r", "l * &r", "&l * r", "&l * &r", "multiplication_like_operation"];

fn draw<L: Val, R: Val>(src: &mut Src, cx: &Cx) -> Pair {
    let ext = if cx.miri { 3 } else { 5 + cx.scale as usize };
    let ol = draw_order(src);
    let or = draw_order(src);
    let (n, k) = draw_shape(src, ext);
    let m = draw_shape(src, ext).0;
    let form = src.idx(6);
    let (mut rn, mut rm) = (k, m);
    if !src.is_exhaustive() && src.chance(1, 4) {
        (rn, rm) = match src.idx(5) {
            0 => (m, k),       // as if transposed
            1 => (n, m),       // rows agree
            2 => (k + 1, m),
            3 => (k.saturating_sub(1), m),
            _ => (m, n),
        };
    }
    let vals = |n: usize, s: u64, f: fn(u64) -> u64| (0..n as u64).map(|i| f(s + i)).collect::<Vec<u64>>();
    let (pl, pr) = if src.is_exhaustive() { (0, 0) } else { (src.idx(4), src.idx(4)) };
    Pair {
        l: Model::new(ol, n, k, vals(n * k, 1000, L::norm)),
        r: Model::new(or, rn, rm, vals(rn * rm, 5000, R::norm)),
        pl,
        pr,
        form,
    }
}

fn judge_sum(got: &Sum, want: &[(u64, u64)], at: (usize, usize), what: &dyn Fn() -> String) -> R {
    got.guard.val();
    if want.is_empty() {
        ensure!(
            got.terms.is_empty() && got.defaults == 1,
            "{}: element {at:?} is {:?} plus {} defaults instead of U::default()",
            what(),
            got.terms,
            got.defaults
        );
        return Ok(());
    }
    let mut a = got.terms.clone();
    let mut b = want.to_vec();
    a.sort();
    b.sort();
    ensure!(a == b, "{}: element {at:?} sums the products {a:?} instead of {b:?}", what());
    ensure!(got.defaults == 0, "{}: element {at:?} has {} U::default() added to its sum", what(), got.defaults);
    Ok(())
}

fn terms(l: &Model, r: &Model, i: usize, j: usize) -> Vec<(u64, u64)> {
    (0..l.nc).map(|k| (l.at(i, k), r.at(k, j))).collect()
}

fn product<L, R>(src: &mut Src, cx: &mut Cx) -> mxv::R
where
    L: Val + Clone + Mul<R, Output = Sum>,
    R: Val + Clone,
{
    let p = draw::<L, R>(src, cx);
    let (l, r) = (made!(cx, make_val::<L>(&p.l, p.pl)), made!(cx, make_val::<R>(&p.r, p.pr)));
    let what = || format!("{} of {} and {}", FORMS[p.form], p.l.show(), p.r.show());
    cx.note(&what);
    let fits = p.l.nc == p.r.nr;
    let (n, k, m) = (p.l.nr, p.l.nc, p.r.nc);
    cx.nontrivial = n * m > 0;
    cx.label_if(fits && k == 0 && n * m > 0, "inner dimension 0");
    cx.label_if(!fits, "not conformable");
    cx.label_if(fits && p.l.order != p.r.order, "mixed orders");
    let (il, ir) = (see_ids(&l), see_ids(&r));

    if p.form == 5 {
        return like_operation(p, l, r, cx);
    }
    // keeps the operands a form borrows
    let (mut kept_l, mut kept_r) = (None, None);
    let got: Result<Matrix<Sum>, String> = match p.form {
        0 => match guard(|| l.multiply(r)) {
            Ok(Ok(x)) => Ok(x),
            Ok(Err(e)) => {
                ensure!(!fits, "{} fails with {e:?}", what());
                ensure!(e == Error::ShapeNotConformable, "{} fails with {e:?} instead of ShapeNotConformable", what());
                return ledger::check();
            }
            Err(e) => return Err(format!("{} panics: {e}", what())),
        },
        1 => guard(|| l * r),
        2 => {
            let g = guard(|| l * &r);
            kept_r = Some(r);
            g
        }
        3 => {
            let g = guard(|| &l * r);
            kept_l = Some(l);
            g
        }
        _ => {
            let g = guard(|| &l * &r);
            kept_l = Some(l);
            kept_r = Some(r);
            g
        }
    };
    match &got {
        Err(e) => ensure!(!fits, "{} panics: {e}", what()),
        Ok(_) => ensure!(fits, "{} succeeds", what()),
    }
    if let Some(l) = &kept_l {
        ensure!(see_val(l).as_ref() == Some(&p.l) && see_ids(l) == il, "{} changes its left operand", what());
    }
    if let Some(r) = &kept_r {
        ensure!(see_val(r).as_ref() == Some(&p.r) && see_ids(r) == ir, "{} changes its right operand", what());
    }
    let Ok(got) = got else { return ledger::check() };
    ensure!((got.nrows(), got.ncols()) == (n, m), "{} is {}x{}", what(), got.nrows(), got.ncols());
    ensure!(got.size() == n * m && got.iter_elements().len() == n * m, "{} has {} elements", what(), got.iter_elements().len());
    ensure!(got.order() == p.l.order, "{} is {:?}", what(), got.order());
    if n * m > 0 {
        for i in 0..n {
            for j in 0..m {
                let e = got.get((i, j)).map_err(|e| format!("{}: no element ({i},{j}): {e:?}", what()))?;
                judge_sum(e, &terms(&p.l, &p.r, i, j), (i, j), &what)?;
            }
        }
    }
    drop(got);
    drop((kept_l, kept_r));
    ledger::check()
}

/// The closure's arguments, in the order of its calls; call number k returns k+1.
#[derive(Default)]
struct Call(u64);

fn like_operation<L: Val, R: Val>(p: Pair, l: Matrix<L>, r: Matrix<R>, cx: &mut Cx) -> mxv::R {
    let what = || format!("multiplication_like_operation of {} and {}", p.l.show(), p.r.show());
    let fits = p.l.nc == p.r.nr;
    let (n, k, m) = (p.l.nr, p.l.nc, p.r.nc);
    let mut calls: Vec<(Vec<u64>, Vec<u64>)> = vec![];
    let limit = n * m + 2;
    let got = guard(|| {
        l.multiplication_like_operation(r, |a: &[L], b: &[R]| {
            if calls.len() < limit {
                calls.push((a.iter().map(|x| x.val()).collect(), b.iter().map(|x| x.val()).collect()));
            }
            Call(calls.len() as u64)
        })
    })
    .map_err(|e| format!("{} panics: {e}", what()))?;
    cx.label("closure");
    let got = match got {
        Err(e) => {
            ensure!(!fits, "{} fails with {e:?}", what());
            ensure!(e == Error::ShapeNotConformable, "{} fails with {e:?} instead of ShapeNotConformable", what());
            return ledger::check();
        }
        Ok(m) => m,
    };
    ensure!(fits, "{} succeeds", what());
    ensure!((got.nrows(), got.ncols()) == (n, m), "{} is {}x{}", what(), got.nrows(), got.ncols());
    ensure!(got.size() == n * m && got.iter_elements().len() == n * m, "{} has {} elements", what(), got.iter_elements().len());
    ensure!(got.order() == p.l.order, "{} is {:?}", what(), got.order());
    for (a, b) in &calls {
        ensure!(!a.is_empty() && a.len() == b.len(), "{}: the closure got slices of lengths {} and {}", what(), a.len(), b.len());
    }
    let want_calls = if k == 0 { 0 } else { n * m };
    ensure!(calls.len() == want_calls, "{}: {} calls of the closure instead of {want_calls}", what(), calls.len());
    let mut seen = vec![false; calls.len() + 1];
    if n * m > 0 {
        for i in 0..n {
            for j in 0..m {
                let e = got.get((i, j)).map_err(|e| format!("{}: no element ({i},{j}): {e:?}", what()))?.0 as usize;
                if k == 0 {
                    ensure!(e == 0, "{}: element ({i},{j}) is not U::default()", what());
                    continue;
                }
                ensure!(e >= 1 && e <= calls.len() && !seen[e], "{}: element ({i},{j}) is not the value of a call of its own", what());
                seen[e] = true;
                let (a, b) = &calls[e - 1];
                ensure!(
                    *a == p.l.row(i) && *b == p.r.col(j),
                    "{}: element ({i},{j}) was computed from {a:?} and {b:?} instead of {:?} and {:?}",
                    what(),
                    p.l.row(i),
                    p.r.col(j)
                );
            }
        }
    }
    ledger::check()
}

/// Larger operands of machine words with a one-way product.
fn large<E: Elem>(src: &mut Src, cx: &mut Cx) -> mxv::R {
    let top = if cx.miri { 4 } else { 70 + 60 * cx.scale as usize };
    let mut dim = || match src.idx(4) {
        0 => src.range(1, 4),
        1 => {
            let p = *src.pick(&[8usize, 16, 32, 64, 128]);
            (p + src.idx(3) - 1).min(top)
        }
        _ => src.hinted(1, top, &near(top as u64)),
    };
    let (mut n, mut k, mut m) = (dim(), dim(), dim());
    if !cx.miri && src.chance(1, 6) {
        // one long extent, around powers of two above all
        let long = if src.flip() { (1usize << src.range(8, 12)) - 1 + src.idx(3) } else { src.hinted(100, 5000, &near(5000)) };
        (n, k, m) = (n.min(5), k.min(5), m.min(5));
        *[&mut n, &mut k, &mut m][src.idx(3)] = long;
    }
    let (ol, or) = (draw_order(src), draw_order(src));
    let l = Model::new(ol, n, k, distinct::<E>(n * k, 7));
    let r = Model::new(or, k, m, distinct::<E>(k * m, 1 << 20));
    let (a, l) = made!(cx, obtain_any::<E>(src, &l));
    let (b, r) = made!(cx, obtain_any::<E>(src, &r));
    cx.nontrivial = true;
    let form = src.idx(3);
    let what = format!("{} times {}, form {form}", l.show(), r.show());
    cx.note(|| what.clone());
    let got = guard(|| match form {
        0 => a.multiply(b).map_err(|e| format!("{e:?}")),
        1 => Ok(&a * &b),
        _ => a
            .multiplication_like_operation(b, |x, y| {
                let s = x.iter().zip(y).map(|(x, y)| E::norm(opv(b'*', x.val(), y.val()))).fold(0u64, |s, v| E::norm(s.wrapping_add(v)));
                E::mk(s)
            })
            .map_err(|e| format!("{e:?}")),
    })?
    .map_err(|e| format!("{what} fails: {e}"))?;
    ensure!((got.nrows(), got.ncols(), got.order()) == (n, m, ol), "{what} is {}x{} {:?}", got.nrows(), got.ncols(), got.order());
    for i in 0..n {
        for j in 0..m {
            let want = (0..k).fold(0u64, |s, x| E::norm(s.wrapping_add(E::norm(opv(b'*', l.at(i, x), r.at(x, j))))));
            let e = got.get((i, j)).map_err(|e| format!("{what}: no element ({i},{j}): {e:?}"))?.val();
            ensure!(e == want, "{what}: element ({i},{j}) is {e} instead of {want}");
        }
    }
    Ok(())
}

fn main() {
    main_entry(&[
        Suite { name: "symbolic", f: product::<Lx, Rx> },
        Suite { name: "zero-sized-left", f: product::<Lz, Rz> },
        Suite { name: "large-u64", f: large::<W64> },
        Suite { name: "large-u16", f: large::<W16> },
        Suite { name: "large-3xu64", f: large::<W24> },
    ])
}
