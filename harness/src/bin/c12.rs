//! C12: elementwise operations combine equal positions, once each, iff the shapes agree.
use matreex::{Error, Matrix};
use mxv::engine::guard;
use mxv::*;
use std::ops::*;

// Left operand, right operand and result are different types: swapped operands do not compile
// unnoticed in the harness, and a swapped pair of values is visible in the result.
struct Lx<E>(E);
struct Rx<E>(E);
struct Ux {
    op: u8,
    l: u64,
    r: u64,
    guard: Tr4,
}

impl<E: Elem> Clone for Lx<E> {
    fn clone(&self) -> Self {
        Lx(self.0.clone())
    }
}
impl<E: Elem> Clone for Rx<E> {
    fn clone(&self) -> Self {
        Rx(self.0.clone())
    }
}
macro_rules! val {
    ($t:ident) => {
        impl<E: Elem> Val for $t<E> {
            fn mk(v: u64) -> Self {
                $t(E::mk(v))
            }
            fn val(&self) -> u64 {
                self.0.val()
            }
            fn norm(v: u64) -> u64 {
                E::norm(v)
            }
            fn id(&self) -> u32 {
                self.0.id()
            }
        }
    };
}
val!(Lx);
val!(Rx);

/// one-way in both operands, addition included
fn way(op: u8, l: u64, r: u64) -> u64 {
    mix(op, l, r)
}

macro_rules! operators {
    ($($tr:ident $m:ident $tra:ident $ma:ident $c:literal),*) => {$(
        impl<E: Elem, F: Elem> $tr<Rx<F>> for Lx<E> {
            type Output = Ux;
            fn $m(self, r: Rx<F>) -> Ux {
                Ux { op: $c, l: self.0.val(), r: r.0.val(), guard: Tr4::mk(0) }
            }
        }
        impl<E: Elem, F: Elem> $tra<Rx<F>> for Lx<E> {
            fn $ma(&mut self, r: Rx<F>) {
                let v = E::norm(way($c, self.0.val(), r.0.val()));
                self.0.set(v)
            }
        }
    )*};
}
operators!(Add add AddAssign add_assign b'+', Sub sub SubAssign sub_assign b'-', Mul mul MulAssign mul_assign b'*',
    Div div DivAssign div_assign b'/', Rem rem RemAssign rem_assign b'%');

const OPS: [u8; 5] = *b"+-*/%";

fn pair_of_shapes(src: &mut Src, ext: usize) -> ((usize, usize), (usize, usize)) {
    let a = draw_any_shape(src, ext, 80);
    if src.is_exhaustive() {
        return (a, draw_shape(src, ext));
    }
    let b = match src.idx(12) {
        6 => (a.1, a.0),
        7 => (a.0, a.1 + 1),
        8 => (a.0 + 1, a.1),
        9 => (1, a.0 * a.1),
        10 => (a.0 * a.1, 1),
        11 => draw_shape(src, ext),
        _ => a,
    };
    (a, b)
}

struct Ctx<'a> {
    l: &'a Model,
    r: &'a Model,
    fits: bool,
    evals: u64,
}

impl Ctx<'_> {
    fn what(&self, form: &str) -> String {
        format!("{form} of {} and {}", self.l.show(), self.r.show())
    }
    /// Did the method or operator fail exactly when it should? Gives the value if there is one.
    fn verdict<T>(&mut self, form: &str, got: Result<Result<T, Error>, String>, operator: bool) -> Result<Option<T>, String> {
        self.evals += 1;
        match got {
            Ok(Ok(m)) => {
                ensure!(self.fits, "{} succeeds", self.what(form));
                Ok(Some(m))
            }
            Ok(Err(e)) => {
                ensure!(!self.fits, "{} fails with {e:?}", self.what(form));
                ensure!(e == Error::ShapeNotConformable, "{} fails with {e:?} instead of ShapeNotConformable", self.what(form));
                Ok(None)
            }
            Err(p) => {
                ensure!(operator && !self.fits, "{} panics: {p}", self.what(form));
                Ok(None)
            }
        }
    }
    fn shape<T>(&self, form: &str, m: &Matrix<T>) -> R {
        ensure!((m.nrows(), m.ncols()) == (self.l.nr, self.l.nc), "{} is {}x{}", self.what(form), m.nrows(), m.ncols());
        ensure!(m.order() == self.l.order, "{} is {:?}", self.what(form), m.order());
        let n = m.iter_elements().len();
        ensure!(m.size() == self.l.size() && n == m.size(), "{} has {n} elements", self.what(form));
        Ok(())
    }
    /// Calls `f` with every position and its element.
    fn each<T>(&self, form: &str, m: &Matrix<T>, mut f: impl FnMut(usize, &T) -> R) -> R {
        if self.l.size() == 0 {
            return Ok(());
        }
        for k in 0..self.l.size() {
            let at = (k / self.l.nc, k % self.l.nc);
            let e = m.get(at).map_err(|e| format!("{}: no element {at:?}: {e:?}", self.what(form)))?;
            f(k, e).map_err(|e| format!("{}: element {at:?} {e}", self.what(form)))?;
        }
        Ok(())
    }
    fn result(&self, form: &str, op: u8, m: &Matrix<Ux>) -> R {
        self.shape(form, m)?;
        self.each(form, m, |k, u| {
            u.guard.val();
            let want = (op, self.l.d[k], self.r.d[k]);
            ensure!(
                (u.op, u.l, u.r) == want,
                "is {} {} {} instead of {} {} {}",
                u.l,
                u.op as char,
                u.r,
                want.1,
                op as char,
                want.2
            );
            Ok(())
        })
    }
    fn assigned<E: Elem>(&self, form: &str, op: u8, m: &Matrix<Lx<E>>) -> R {
        self.shape(form, m)?;
        self.each(form, m, |k, e| {
            let want = E::norm(way(op, self.l.d[k], self.r.d[k]));
            ensure!(e.val() == want, "is {} instead of {want} = {} {} {}", e.val(), self.l.d[k], op as char, self.r.d[k]);
            Ok(())
        })
    }
}

/// One call of the closure: identities and values of its arguments.
type Args = (u32, u32, u64, u64);

fn calls_match(cx: &Ctx, form: &str, calls: &[Args], il: &[u32], ir: &[u32]) -> R {
    // memory positions turned into logical ones
    let at = |md: &Model, ids: &[u32], k: usize| ids[flat(md.order, md.nr, md.nc, k / md.nc, k % md.nc)];
    let mut want: Vec<Args> =
        (0..cx.l.size()).map(|k| (at(cx.l, il, k), at(cx.r, ir, k), cx.l.d[k], cx.r.d[k])).collect();
    let mut got = calls.to_vec();
    want.sort();
    got.sort();
    ensure!(
        got == want,
        "{}: the closure got (left id, right id, left, right) {got:?} instead of {want:?}",
        cx.what(form)
    );
    Ok(())
}

fn forms<E: Elem, F: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let ext = if cx.miri { 3 } else if src.is_exhaustive() { 3 + cx.scale as usize } else { 6 };
    let (a, b) = pair_of_shapes(src, ext);
    let (oa, ob) = (draw_order(src), draw_order(src));
    let lm = Model::new(oa, a.0, a.1, distinct::<E>(a.0 * a.1, 100));
    let rm = Model::new(ob, b.0, b.1, distinct::<F>(b.0 * b.1, 600));
    let (pl, pr) = if src.is_exhaustive() { (0, 0) } else { (src.idx(4), src.idx(4)) };
    let mut c = Ctx { l: &lm, r: &rm, fits: a == b, evals: 0 };
    cx.note(|| c.what("all forms"));
    cx.nontrivial = !lm.d.is_empty() || a != b;
    cx.label(if c.fits { "conformable" } else { "not conformable" });
    cx.label_if(c.fits && oa != ob && !lm.d.is_empty(), "mixed orders");

    macro_rules! left {
        () => {
            made!(cx, make_val::<Lx<E>>(&lm, pl))
        };
    }
    let r = made!(cx, make_val::<Rx<F>>(&rm, pr));
    let l = left!();
    let (il, ir) = (see_ids(&l), see_ids(&r));

    // the predicates
    ensure!(l.is_elementwise_operation_conformable(&r) == c.fits, "{} is {}", c.what("is_elementwise_operation_conformable"), !c.fits);
    ensure!(r.is_elementwise_operation_conformable(&l) == c.fits, "{} (turned round) is {}", c.what("is_elementwise_operation_conformable"), !c.fits);
    let e = l.ensure_elementwise_operation_conformable(&r).map(|_| ());
    ensure!(
        e == if c.fits { Ok(()) } else { Err(Error::ShapeNotConformable) },
        "{} gives {e:?}",
        c.what("ensure_elementwise_operation_conformable")
    );

    // the generic operation, borrowing
    let mut calls: Vec<Args> = vec![];
    let got = guard(|| {
        l.elementwise_operation(&r, |x, y| {
            calls.push((x.id(), y.id(), x.val(), y.val()));
            (x.val(), y.val())
        })
    });
    if let Some(m) = c.verdict("elementwise_operation", got, false)? {
        calls_match(&c, "elementwise_operation", &calls, &il, &ir)?;
        c.shape("elementwise_operation", &m)?;
        c.each("elementwise_operation", &m, |k, e| {
            ensure!(*e == (lm.d[k], rm.d[k]), "comes from {e:?} instead of {:?}", (lm.d[k], rm.d[k]));
            Ok(())
        })?;
    }
    // consuming
    let own = left!();
    let io = see_ids(&own);
    let mut calls: Vec<Args> = vec![];
    let got = guard(|| {
        own.elementwise_operation_consume_self(&r, |x, y| {
            calls.push((x.id(), y.id(), x.val(), y.val()));
            (x, y.val())
        })
    });
    if let Some(m) = c.verdict("elementwise_operation_consume_self", got, false)? {
        calls_match(&c, "elementwise_operation_consume_self", &calls, &io, &ir)?;
        c.shape("elementwise_operation_consume_self", &m)?;
        c.each("elementwise_operation_consume_self", &m, |k, e| {
            let e = (e.0.val(), e.1);
            ensure!(e == (lm.d[k], rm.d[k]), "comes from {e:?} instead of {:?}", (lm.d[k], rm.d[k]));
            Ok(())
        })?;
    }
    // assigning
    let mut own = left!();
    let io = see_ids(&own);
    let mut calls: Vec<Args> = vec![];
    let got = guard(|| {
        own.elementwise_operation_assign(&r, |x, y| {
            calls.push((x.id(), y.id(), x.val(), y.val()));
            let v = E::norm(way(b'g', x.val(), y.val()));
            x.0.set(v);
        })
        .map(|_| ())
    });
    if c.verdict("elementwise_operation_assign", got, false)?.is_some() {
        calls_match(&c, "elementwise_operation_assign", &calls, &io, &ir)?;
        c.assigned("elementwise_operation_assign", b'g', &own)?;
    }
    drop(own);

    // named methods
    for (k, op) in OPS.into_iter().enumerate() {
        let form = ["elementwise_add", "elementwise_sub", "elementwise_mul", "elementwise_div", "elementwise_rem"][k];
        let got = guard(|| match op {
            b'+' => l.elementwise_add(&r),
            b'-' => l.elementwise_sub(&r),
            b'*' => l.elementwise_mul(&r),
            b'/' => l.elementwise_div(&r),
            _ => l.elementwise_rem(&r),
        });
        if let Some(m) = c.verdict(form, got, false)? {
            c.result(form, op, &m)?;
        }
        let own = left!();
        let got = guard(|| match op {
            b'+' => own.elementwise_add_consume_self(&r),
            b'-' => own.elementwise_sub_consume_self(&r),
            b'*' => own.elementwise_mul_consume_self(&r),
            b'/' => own.elementwise_div_consume_self(&r),
            _ => own.elementwise_rem_consume_self(&r),
        });
        let form = &format!("{form}_consume_self");
        if let Some(m) = c.verdict(form, got, false)? {
            c.result(form, op, &m)?;
        }
        let mut own = left!();
        let form = &form.replace("consume_self", "assign");
        let got = guard(|| {
            match op {
                b'+' => own.elementwise_add_assign(&r),
                b'-' => own.elementwise_sub_assign(&r),
                b'*' => own.elementwise_mul_assign(&r),
                b'/' => own.elementwise_div_assign(&r),
                _ => own.elementwise_rem_assign(&r),
            }
            .map(|_| ())
        });
        if c.verdict(form, got, false)?.is_some() {
            c.assigned(form, op, &own)?;
        }
    }

    // operators
    for (op, plus) in [(b'+', true), (b'-', false)] {
        for k in 0..4 {
            let form = &["l # r", "l # &r", "&l # r", "&l # &r"][k].replace('#', if plus { "+" } else { "-" });
            let own = if k < 2 { Some(left!()) } else { None };
            let rown = if k % 2 == 0 { Some(made!(cx, make_val::<Rx<F>>(&rm, pr))) } else { None };
            let got = guard(|| {
                Ok(match (own, rown) {
                    (Some(a), Some(b)) => if plus { a + b } else { a - b },
                    (Some(a), None) => if plus { a + &r } else { a - &r },
                    (None, Some(b)) => if plus { &l + b } else { &l - b },
                    (None, None) => if plus { &l + &r } else { &l - &r },
                })
            });
            if let Some(m) = c.verdict(form, got, true)? {
                c.result(form, op, &m)?;
            }
        }
        for by_ref in [false, true] {
            let form = match (plus, by_ref) {
                (true, false) => "l += r",
                (true, true) => "l += &r",
                (false, false) => "l -= r",
                (false, true) => "l -= &r",
            };
            let mut own = left!();
            let rown = made!(cx, make_val::<Rx<F>>(&rm, pr));
            let got = guard(|| {
                match (plus, by_ref) {
                    (true, false) => own += rown,
                    (true, true) => own += &rown,
                    (false, false) => own -= rown,
                    (false, true) => own -= &rown,
                }
                Ok(())
            });
            if c.verdict(form, got, true)?.is_some() {
                c.assigned(form, op, &own)?;
            }
        }
    }

    // whatever was lent out is as it was
    ensure!(see_val(&l).as_ref() == Some(&lm) && see_ids(&l) == il, "{}: the borrowed left operand changed", c.what("all forms"));
    ensure!(see_val(&r).as_ref() == Some(&rm) && see_ids(&r) == ir, "{}: the borrowed right operand changed", c.what("all forms"));
    cx.evals = c.evals;
    drop((l, r));
    ledger::check()
}

/// Larger operands, one form: every memory position is remapped across orders.
fn large<E: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let (nr, nc) = match src.idx(40) {
        0 => draw_giant(src),
        k if k % 2 == 0 => draw_large(src),
        _ => (src.range(1, 90), src.range(1, 90)),
    };
    let (oa, ob) = (draw_order(src), draw_order(src));
    let l = Model::new(oa, nr, nc, distinct::<E>(nr * nc, 3));
    let r = Model::new(ob, nr, nc, distinct::<E>(nr * nc, 1 << 15));
    let (mut a, l) = made!(cx, obtain_any::<E>(src, &l));
    let (b, r) = made!(cx, obtain_any::<E>(src, &r));
    if (l.nr, l.nc) != (r.nr, r.nc) {
        return Ok(());
    }
    cx.nontrivial = true;
    let form = src.idx(3);
    let what = format!("elementwise operation on {} and {}, form {form}", l.show(), r.show());
    cx.note(|| what.clone());
    let f = |x: &E, y: &E| mix(b'e', x.val(), y.val());
    let check = |m: &dyn Fn(usize, usize) -> Option<u64>| -> R {
        for i in 0..nr {
            for j in 0..nc {
                let want = mix(b'e', l.at(i, j), r.at(i, j));
                ensure!(m(i, j) == Some(want) || m(i, j) == Some(E::norm(want)), "{what}: element ({i},{j}) is {:?} instead of {want}", m(i, j));
            }
        }
        Ok(())
    };
    match form {
        0 => {
            let m = a.elementwise_operation(&b, f).map_err(|e| format!("{what}: {e:?}"))?;
            check(&|i, j| m.get((i, j)).ok().copied())
        }
        1 => {
            let m = a.elementwise_operation_consume_self(&b, |x, y| f(&x, y)).map_err(|e| format!("{what}: {e:?}"))?;
            check(&|i, j| m.get((i, j)).ok().copied())
        }
        _ => {
            a.elementwise_operation_assign(&b, |x, y| {
                let v = E::norm(f(x, y));
                x.set(v)
            })
            .map_err(|e| format!("{what}: {e:?}"))?;
            check(&|i, j| a.get((i, j)).ok().map(|e| e.val()))
        }
    }
}

/// Conformability of shapes too large to visit, and of shapes without elements.
fn huge(src: &mut Src, cx: &mut Cx) -> R {
    let mut shape = |a: Option<(usize, usize)>| match (a, src.idx(6)) {
        (Some(a), 0) => a,
        (Some(a), 1) => (a.1, a.0),
        (_, 2) => (0, src.u64() as usize),
        (_, 3) => (src.u64() as usize, 0),
        (_, 4) => (src.idx(5), src.idx(5)),
        _ => huge_shape(src),
    };
    let a = shape(None);
    let b = shape(Some(a));
    let (oa, ob) = (draw_order(src), draw_order(src));
    let m = made!(cx, guard(|| huge_zst::<Z>(a.0, a.1, oa)).ok());
    let n = made!(cx, guard(|| huge_zst::<Z8>(b.0, b.1, ob)).ok());
    cx.nontrivial = true;
    cx.note(|| format!("{a:?} {oa:?} and {b:?} {ob:?}"));
    let what = format!("conformability of {a:?} {oa:?} and {b:?} {ob:?}");
    ensure!(m.is_elementwise_operation_conformable(&n) == (a == b), "{what} is {}", a != b);
    ensure!(n.is_elementwise_operation_conformable(&m) == (a == b), "{what}, turned round, is {}", a != b);
    ensure!(m.ensure_elementwise_operation_conformable(&n).is_ok() == (a == b), "{what} is not ensured correctly");
    if a != b {
        let mut m = m;
        let r = m.elementwise_operation(&n, |_, _| ()).map(|_| ());
        ensure!(r == Err(Error::ShapeNotConformable), "{what}: elementwise_operation gives {r:?}");
        let r = m.elementwise_operation_assign(&n, |_, _| ()).map(|_| ());
        ensure!(r == Err(Error::ShapeNotConformable), "{what}: elementwise_operation_assign gives {r:?}");
        let r = m.elementwise_operation_consume_self(&n, |_, _| ()).map(|_| ());
        ensure!(r == Err(Error::ShapeNotConformable), "{what}: elementwise_operation_consume_self gives {r:?}");
    }
    Ok(())
}

fn main() {
    main_entry(&[
        Suite { name: "forms-tracked", f: forms::<Tr8, Tr16> },
        Suite { name: "forms-u64-string", f: forms::<W64, St> },
        Suite { name: "forms-zst", f: forms::<TrZ1, Tr4> },
        Suite { name: "large-u64", f: large::<W64> },
        Suite { name: "large-u16", f: large::<W16> },
        Suite { name: "huge", f: huge },
    ])
}
