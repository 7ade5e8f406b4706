//! C18: scalar operators apply the primitive operator elementwise, operands in the written order.
use matreex::{Matrix, Order};
use mxv::engine::guard;
use mxv::*;

trait Prim: Copy + Send + Sync + 'static + std::fmt::Debug {
    /// small distinct values; the order of the operands is visible, nothing overflows
    fn tame(k: usize) -> Self;
    fn wild(src: &mut Src) -> Self;
    /// identical for two values iff they are the same value (all NaNs are one)
    fn key(self) -> u128;
    fn op(op: usize, a: Self, b: Self) -> Self;
    fn form(op: usize, form: usize, own: &mut dyn FnMut() -> Matrix<Self>, refs: &Matrix<&Self>, m: &Matrix<Self>, s: Self) -> Matrix<Self>;
}

trait Neg1: Prim {
    fn neg(a: Self) -> Self;
    fn form1(form: usize, own: &mut dyn FnMut() -> Matrix<Self>, refs: &Matrix<&Self>, m: &Matrix<Self>) -> Matrix<Self>;
}

const OPS: [&str; 5] = ["+", "-", "*", "/", "%"];
const FORMS: [&str; 18] = [
    "Matrix<T> # t", "Matrix<T> # &t", "&Matrix<T> # t", "&Matrix<T> # &t",
    "t # Matrix<T>", "&t # Matrix<T>", "t # &Matrix<T>", "&t # &Matrix<T>",
    "Matrix<&T> # t", "Matrix<&T> # &t", "&Matrix<&T> # t", "&Matrix<&T> # &t",
    "t # Matrix<&T>", "&t # Matrix<&T>", "t # &Matrix<&T>", "&t # &Matrix<&T>",
    "Matrix<T> #= t", "Matrix<T> #= &t",
];
/// is the scalar on the left?
fn scalar_first(form: usize) -> bool {
    form < 16 && form % 8 >= 4
}

macro_rules! forms {
    ($own:ident $r:ident $m:ident $s:ident $f:ident, $op:tt $opa:tt) => {
        match $f {
            0 => $own() $op $s,
            1 => $own() $op &$s,
            2 => $m $op $s,
            3 => $m $op &$s,
            4 => $s $op $own(),
            5 => &$s $op $own(),
            6 => $s $op $m,
            7 => &$s $op $m,
            8 => $r.clone() $op $s,
            9 => $r.clone() $op &$s,
            10 => $r $op $s,
            11 => $r $op &$s,
            12 => $s $op $r.clone(),
            13 => &$s $op $r.clone(),
            14 => $s $op $r,
            15 => &$s $op $r,
            16 => { let mut x = $own(); x $opa $s; x }
            _ => { let mut x = $own(); x $opa &$s; x }
        }
    };
}

macro_rules! prim {
    ($($t:ty, |$k:ident| $tame:expr, |$src:ident| $wild:expr, |$v:ident| $key:expr;)*) => {$(
        impl Prim for $t {
            fn tame($k: usize) -> Self { $tame }
            fn wild($src: &mut Src) -> Self { $wild }
            fn key(self) -> u128 { let $v = self; $key }
            fn op(op: usize, a: Self, b: Self) -> Self {
                match op { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, _ => a % b }
            }
            #[allow(clippy::op_ref)]
            fn form(op: usize, f: usize, own: &mut dyn FnMut() -> Matrix<Self>, r: &Matrix<&Self>, m: &Matrix<Self>, s: Self) -> Matrix<Self> {
                match op {
                    0 => forms!(own r m s f, + +=),
                    1 => forms!(own r m s f, - -=),
                    2 => forms!(own r m s f, * *=),
                    3 => forms!(own r m s f, / /=),
                    _ => forms!(own r m s f, % %=),
                }
            }
        }
    )*};
    (int $($t:ty)*) => { prim! { $($t,
        |k| (3 + k % 90) as $t,
        |src| match src.idx(9) {
            0 => 0, 1 => 1, 2 => <$t>::MIN, 3 => <$t>::MAX, 4 => <$t>::MAX / 2, 5 => (0 as $t).wrapping_sub(1),
            6 => 2, 7 => src.idx(200) as $t,
            _ => (src.u64() as u128 | (src.u64() as u128) << 64) as $t,
        },
        |v| v as u128;)* } };
    (float $($t:ty, $b:ty;)*) => { prim! { $($t,
        |k| k as $t + 1.5,
        |src| {
            let v = [0.0, 1.0, <$t>::INFINITY, <$t>::NAN, <$t>::MAX, <$t>::MIN_POSITIVE, <$t>::MIN_POSITIVE / 4.0, 0.1, 1e10, 3.0, 0.0];
            let k = src.idx(v.len() + 1);
            if k < v.len() { if src.flip() { -v[k] } else { v[k] } } else { <$t>::from_bits(src.u64() as $b) }
        },
        |v| if v.is_nan() { 1 << 100 } else { v.to_bits() as u128 };)* } };
}
prim!(int u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
prim!(float f32, u32; f64, u64;);

macro_rules! neg {
    ($($t:ty)*) => {$(
        impl Neg1 for $t {
            fn neg(a: Self) -> Self { -a }
            fn form1(f: usize, own: &mut dyn FnMut() -> Matrix<Self>, r: &Matrix<&Self>, m: &Matrix<Self>) -> Matrix<Self> {
                match f { 0 => -own(), 1 => -m, 2 => -r.clone(), _ => -r }
            }
        }
    )*};
}
neg!(i8 i16 i32 i64 i128 isize f32 f64);

/// The matrix with these elements in memory order, on which all accessors agree.
fn make<T: Copy>(order: Order, nr: usize, nc: usize, mem: &[T], path: usize) -> Option<Matrix<T>> {
    guard(|| {
        let mut v = Vec::with_capacity(mem.len() + 5 * (path & 1));
        v.extend_from_slice(mem);
        let mut m = Matrix::from_row(v);
        if order == Order::ColMajor {
            m.reshape((nc, nr)).ok()?;
            if path & 2 == 0 {
                m.switch_order_without_rearrangement();
            } else {
                m.transpose().switch_order();
                // (nr x nc, column-major after the switch)
            }
            if m.nrows() != nr {
                return None;
            }
        } else {
            m.reshape((nr, nc)).ok()?;
        }
        Some(m)
    })
    .ok()?
}

/// Order, shape and the elements row by row, as all accessors agree on them.
fn look<T: Copy>(m: &Matrix<T>, key: impl Fn(T) -> u128) -> Result<(Order, usize, usize, Vec<T>), String> {
    let (nr, nc) = (m.nrows(), m.ncols());
    let n = m.iter_elements().len();
    ensure!(nr.checked_mul(nc) == Some(n) && m.size() == n, "is {nr}x{nc} with {n} elements");
    let mem: Vec<T> = m.iter_elements().copied().collect();
    ensure!(mem.len() == n, "yields {} elements instead of {n}", mem.len());
    let mut d = Vec::with_capacity(n);
    if n > 0 {
        for r in 0..nr {
            for c in 0..nc {
                let e = *m.get((r, c)).map_err(|e| format!("has no element ({r},{c}): {e:?}"))?;
                ensure!(key(mem[flat(m.order(), nr, nc, r, c)]) == key(e), "has two different elements ({r},{c})");
                d.push(e);
            }
        }
    }
    Ok((m.order(), nr, nc, d))
}

struct Operand<T> {
    m: Matrix<T>,
    mem: Vec<T>,
    order: Order,
    nr: usize,
    nc: usize,
    d: Vec<T>,
    path: usize,
}

impl<T: Prim> Operand<T> {
    fn own(&self) -> Option<Matrix<T>> {
        let m = make(self.order, self.nr, self.nc, &self.mem, self.path)?;
        (look(&m, T::key).ok()?.3.iter().map(|e| e.key()).eq(self.d.iter().map(|e| e.key()))).then_some(m)
    }
    fn unchanged(&self) -> bool {
        match look(&self.m, T::key) {
            Ok((o, a, b, d)) => {
                (o, a, b) == (self.order, self.nr, self.nc) && d.iter().map(|e| e.key()).eq(self.d.iter().map(|e| e.key()))
            }
            Err(_) => false,
        }
    }
    fn show(&self) -> String {
        format!("{}x{} {:?} {:?}", self.nr, self.nc, self.order, &self.d[..self.d.len().min(16)])
    }
}

fn draw<T: Prim>(src: &mut Src, cx: &mut Cx, mode: &mut usize) -> Option<Operand<T>> {
    let ext = if cx.miri { 2 } else { 5 };
    let (nr, nc) = draw_any_shape(src, ext, 40);
    let order = draw_order(src);
    let path = src.idx(4);
    *mode = src.idx(4);
    let n = nr * nc;
    let mem: Vec<T> = match *mode {
        // large elements over a small scalar, and the other way round
        0 | 1 => (0..n).map(|k| T::tame(if *mode == 0 { 12 + k % 30 } else { k % 6 })).collect(),
        2 => (0..n).map(|_| if src.flip() { T::wild(src) } else { T::tame(src.idx(10)) }).collect(),
        _ => (0..n).map(|_| T::wild(src)).collect(),
    };
    let m = make(order, nr, nc, &mem, path)?;
    let (o, a, b, d) = look(&m, T::key).ok()?;
    let mem = m.iter_elements().copied().collect();
    let x = Operand { m, mem, order: o, nr: a, nc: b, d, path };
    // the operand has to be reproducible: shape and order first
    let y = make(x.order, x.nr, x.nc, &x.mem, x.path)?;
    ((y.order(), y.nrows(), y.ncols()) == (x.order, x.nr, x.nc)).then_some(x)
}

fn verdict<T: Prim>(what: &dyn Fn() -> String, x: &Operand<T>, want: &Result<Vec<T>, String>, got: Result<Matrix<T>, String>) -> R {
    match (want, got) {
        (Err(_), Err(_)) => Ok(()),
        (Err(p), Ok(m)) => Err(format!("{} gives {:?} although an element panics: {p}", what(), look(&m, T::key).map(|l| l.3))),
        (Ok(_), Err(p)) => Err(format!("{} panics: {p}", what())),
        (Ok(w), Ok(m)) => {
            let (o, a, b, d) = look(&m, T::key).map_err(|e| format!("{} {e}", what()))?;
            ensure!((a, b) == (x.nr, x.nc), "{} is {a}x{b}", what());
            ensure!(o == x.order, "{} is {o:?}", what());
            for k in 0..w.len() {
                ensure!(
                    d[k].key() == w[k].key(),
                    "{}: element ({},{}) = {:?} gives {:?} instead of {:?}",
                    what(), k / x.nc, k % x.nc, x.d[k], d[k], w[k]
                );
            }
            Ok(())
        }
    }
}

fn scalar<T: Prim>(src: &mut Src, cx: &mut Cx) -> R {
    let mut mode = 0;
    let x = made!(cx, draw::<T>(src, cx, &mut mode));
    let s = match mode {
        0 => T::tame(src.idx(3)),
        1 => T::tame(20 + src.idx(40)),
        2 if src.flip() => T::tame(src.idx(20)),
        _ => T::wild(src),
    };
    cx.note(|| format!("{} with scalar {s:?}", x.show()));
    let refs: Vec<&T> = x.mem.iter().collect();
    let r = made!(cx, make(x.order, x.nr, x.nc, &refs, x.path));
    let rd = made!(cx, look(&r, |e| e.key()).ok());
    if (rd.0, rd.1, rd.2) != (x.order, x.nr, x.nc) || !rd.3.iter().map(|e| e.key()).eq(x.d.iter().map(|e| e.key())) {
        return Ok(());
    }
    cx.evals = 0;
    let mut witness = 0;
    for op in 0..5 {
        // the primitive operator on every element, in both operand orders
        let right: Result<Vec<T>, String> = x.d.iter().map(|&e| guard(|| T::op(op, e, s))).collect();
        let left: Result<Vec<T>, String> = x.d.iter().map(|&e| guard(|| T::op(op, s, e))).collect();
        let differ = match (&left, &right) {
            (Ok(l), Ok(r)) => l.iter().zip(r).any(|(l, r)| l.key() != r.key()),
            (Err(_), Err(_)) => false,
            _ => true,
        };
        witness += differ as usize;
        for form in 0..18 {
            let what = || format!("{} of {} and {s:?}", FORMS[form].replace('#', OPS[op]).replace('T', std::any::type_name::<T>()), x.show());
            let mut lack = false;
            // operands are made outside the guarded call
            let mut own = match form % 8 {
                0 | 1 | 4 | 5 if form < 8 || form >= 16 => {
                    let m = x.own();
                    lack = m.is_none();
                    m
                }
                _ => None,
            };
            if lack {
                continue;
            }
            let got = guard(|| T::form(op, form, &mut || own.take().unwrap(), &r, &x.m, s));
            let want = if scalar_first(form) { &left } else { &right };
            verdict(&what, &x, want, got)?;
            cx.evals += 1;
        }
        ensure!(x.unchanged(), "{} of borrowed {} and {s:?} changes the matrix", OPS[op], x.show());
    }
    cx.nontrivial = witness > 0;
    cx.label(["large elements", "large scalar", "mixed", "boundary"][mode]);
    cx.label_if(x.d.is_empty(), "no elements");
    Ok(())
}

fn signed<T: Neg1>(src: &mut Src, cx: &mut Cx) -> R {
    scalar::<T>(src, cx)?;
    let mut mode = 0;
    let x = made!(cx, draw::<T>(src, cx, &mut mode));
    cx.note(|| format!("negation of {}", x.show()));
    let refs: Vec<&T> = x.mem.iter().collect();
    let r = made!(cx, make(x.order, x.nr, x.nc, &refs, x.path));
    let rd = made!(cx, look(&r, |e| e.key()).ok());
    if (rd.0, rd.1, rd.2) != (x.order, x.nr, x.nc) || !rd.3.iter().map(|e| e.key()).eq(x.d.iter().map(|e| e.key())) {
        return Ok(());
    }
    let want: Result<Vec<T>, String> = x.d.iter().map(|&e| guard(|| T::neg(e))).collect();
    for form in 0..4 {
        let mut own = if form == 0 { Some(made!(cx, x.own())) } else { None };
        let what = || format!("-{} of {}", ["Matrix<T>", "&Matrix<T>", "Matrix<&T>", "&Matrix<&T>"][form], x.show());
        let got = guard(|| T::form1(form, &mut || own.take().unwrap(), &r, &x.m));
        verdict(&what, &x, &want, got)?;
        cx.evals += 1;
    }
    ensure!(x.unchanged(), "negation of borrowed {} changes the matrix", x.show());
    Ok(())
}

// ------------------------------------------------------------------ the generic family

struct V<E>(E);
impl<E: Elem> Val for V<E> {
    fn mk(v: u64) -> Self {
        V(E::mk(v))
    }
    fn val(&self) -> u64 {
        self.0.val()
    }
    fn norm(v: u64) -> u64 {
        E::norm(v)
    }
    fn id(&self) -> u32 {
        self.0.id()
    }
}
impl<E: Elem> Clone for V<E> {
    fn clone(&self) -> Self {
        V(self.0.clone())
    }
}
/// what negation gives: another type, made from the value
struct Negated(u64, Tr4);
impl<E: Elem> std::ops::Neg for V<E> {
    type Output = Negated;
    fn neg(self) -> Negated {
        Negated(self.0.val(), Tr4::mk(0))
    }
}

/// tracked elements and scalars; the closure's arguments are recorded
fn generic<E: Elem, S: Elem>(src: &mut Src, cx: &mut Cx) -> R {
    let ext = if cx.miri { 3 } else { 6 };
    let (nr, nc) = draw_any_shape(src, ext, 40);
    let md = Model::new(draw_order(src), nr, nc, distinct::<E>(nr * nc, 100));
    let path = src.idx(4);
    let s = S::mk(7 + src.idx(90) as u64);
    let (sv, sid) = (s.val(), s.id());
    let sat = &s as *const S as usize;
    cx.note(|| format!("scalar_operation on {} path {path} with {sv}", md.show()));
    cx.nontrivial = md.size() >= 2;
    cx.evals = 7;

    type Call = (u64, u32, usize, u64, usize);
    let calls_ok = |form: &str, calls: &[Call], ids: &[u32], base: Option<usize>| -> R {
        let mem = md.mem();
        let mut seen: Vec<(u64, u32, usize)> = vec![];
        for c in calls {
            ensure!((c.3, c.4) == (sv, sat), "{form} on {}: the closure's second argument is {} at {:x}, not the scalar {sv} at {sat:x}", md.show(), c.3, c.4);
            seen.push((c.0, c.1, c.2));
        }
        let mut want: Vec<(u64, u32, usize)> =
            mem.iter().enumerate().map(|(k, &v)| (v, ids[k], base.map_or(0, |b| b + k * size_of::<V<E>>()))).collect();
        seen.sort();
        want.sort();
        ensure!(seen == want, "{form} on {}: the closure saw (value, id, address) {seen:?} instead of {want:?}", md.show());
        Ok(())
    };
    let result = |form: &str, got: Option<Vec<(u64, u64)>>, shape: (usize, usize), order: Order| -> R {
        ensure!(shape == (md.nr, md.nc), "{form} on {} is {shape:?}", md.show());
        ensure!(order == md.order, "{form} on {} is {order:?}", md.show());
        let want: Vec<(u64, u64)> = md.mem().iter().map(|&v| (v, sv)).collect();
        ensure!(got.as_ref() == Some(&want), "{form} on {} gives, in memory order, {got:?} instead of {want:?}", md.show());
        Ok(())
    };
    let at = |e: &V<E>| if E::ZST { 0 } else { e as *const V<E> as usize };
    let low3 = |v: u64| { let b = v.to_le_bytes(); [b[0], b[1], b[2]] };
    fn mem<T>(m: &Matrix<T>, f: impl Fn(&T) -> (u64, u64)) -> Option<Vec<(u64, u64)>> {
        let v: Vec<_> = m.iter_elements().map(&f).collect();
        (m.size() == v.len() && m.nrows().checked_mul(m.ncols()) == Some(v.len())).then_some(())?;
        for k in 0..v.len() {
            let p = pos(m.order(), m.nrows(), m.ncols(), k);
            if f(m.get(p).ok()?) != v[k] {
                return None;
            }
        }
        Some(v)
    }

    let m = made!(cx, make_val::<V<E>>(&md, path));
    let ids = see_ids(&m);
    let base = if E::ZST { None } else { m.iter_elements().next().map(at) };
    let mut calls: Vec<Call> = vec![];
    let f = "scalar_operation";
    let got = guard(|| {
        m.scalar_operation(&s, |e, s: &S| {
            calls.push((e.val(), e.id(), at(e), s.val(), s as *const S as usize));
            Negated(mix(b's', e.val(), s.val()), Tr4::mk(e.val()))
        })
    });
    let got = got.map_err(|p| format!("{f} on {} panics: {p}", md.show()))?.map_err(|e| format!("{f} on {}: {e:?}", md.show()))?;
    calls_ok(f, &calls, &ids, base)?;
    let un = |n: &Negated| if n.0 == mix(b's', n.1.val(), sv) { (n.1.val(), sv) } else { (u64::MAX, n.0) };
    result(f, mem(&got, un), (got.nrows(), got.ncols()), got.order())?;
    // to a zero-sized type, and to references into the matrix
    let got = guard(|| m.scalar_operation(&s, |e, s| (e, s)));
    let got = got.map_err(|p| format!("{f} on {} panics: {p}", md.show()))?.map_err(|e| format!("{f} on {}: {e:?}", md.show()))?;
    result(f, mem(&got, |(e, s)| (e.val(), s.val())), (got.nrows(), got.ncols()), got.order())?;
    let mut n = 0;
    let got = guard(|| m.scalar_operation(&s, |_, _| n += 1));
    let got = got.map_err(|p| format!("{f} on {} panics: {p}", md.show()))?.map_err(|e| format!("{f} on {}: {e:?}", md.show()))?;
    ensure!(n == md.size() && got.size() == n, "{f} on {}: {n} calls, {} results", md.show(), got.size());

    let own = made!(cx, make_val::<V<E>>(&md, path));
    let io = see_ids(&own);
    let mut calls: Vec<Call> = vec![];
    let f = "scalar_operation_consume_self";
    let kind = if md.d.iter().any(|&v| v >> 24 != 0) { 0 } else { src.idx(3) };
    let got: Result<(Option<Vec<(u64, u64)>>, (usize, usize), Order), String> = (|| {
        let bad = |e: String| format!("{f} on {}: {e}", md.show());
        macro_rules! call {
            ($c:expr, $see:expr) => {{
                let g = guard(|| own.scalar_operation_consume_self(&s, $c)).map_err(bad)?.map_err(|e| bad(format!("{e:?}")))?;
                (mem(&g, $see), (g.nrows(), g.ncols()), g.order())
            }};
        }
        let mut rec = |e: &V<E>, s: &S| calls.push((e.val(), e.id(), 0, s.val(), s as *const S as usize));
        Ok(match kind {
            // same size, larger, and smaller results
            0 => call!(|e, s| { rec(&e, s); e }, |e: &V<E>| (e.val(), sv)),
            1 => call!(|e, s: &S| { rec(&e, s); (e, s.val(), [0u64; 3]) }, |(e, s, _): &(V<E>, u64, [u64; 3])| (e.val(), *s)),
            _ => call!(|e, s| { rec(&e, s); low3(e.val()) }, |&[a, b, c]: &[u8; 3]| (u64::from_le_bytes([a, b, c, 0, 0, 0, 0, 0]), sv)),
        })
    })();
    let (got, shape, order) = got?;
    calls_ok(f, &calls, &io, None)?;
    result(f, got, shape, order)?;

    let mut own = made!(cx, make_val::<V<E>>(&md, path));
    let io = see_ids(&own);
    let base = if E::ZST { None } else { own.iter_elements().next().map(at) };
    let this = &own as *const _ as usize;
    let mut calls: Vec<Call> = vec![];
    let f = "scalar_operation_assign";
    let back = guard(|| {
        own.scalar_operation_assign(&s, |e, s: &S| {
            calls.push((e.val(), e.id(), at(e), s.val(), s as *const S as usize));
            let v = E::norm(mix(b's', e.val(), s.val()));
            e.0.set(v);
        }) as *const Matrix<V<E>> as usize
    })
    .map_err(|p| format!("{f} on {} panics: {p}", md.show()))?;
    ensure!(back == this, "{f} on {} does not return the matrix itself", md.show());
    calls_ok(f, &calls, &io, base)?;
    let want = Model::new(md.order, md.nr, md.nc, md.d.iter().map(|&v| E::norm(mix(b's', v, sv))).collect());
    let got = see_val(&own);
    ensure!(got.as_ref() == Some(&want), "{f} on {} leaves {:?} instead of {}", md.show(), got.map(|g| g.show_full()), want.show_full());
    drop(own);

    // negation
    let un = |n: &Negated| (n.0, sv + n.1.val());
    let got = guard(|| -&m).map_err(|p| format!("-&m of {} panics: {p}", md.show()))?;
    result("-&m", mem(&got, un), (got.nrows(), got.ncols()), got.order())?;
    let own = made!(cx, make_val::<V<E>>(&md, path));
    let got = guard(|| -own).map_err(|p| format!("-m of {} panics: {p}", md.show()))?;
    result("-m", mem(&got, un), (got.nrows(), got.ncols()), got.order())?;
    drop(got);

    ensure!(see_val(&m).as_ref() == Some(&md) && see_ids(&m) == ids, "the borrowed matrix {} changed", md.show());
    ensure!(s.val() == sv && s.id() == sid, "the borrowed scalar changed");
    drop(m);
    drop(s);
    ledger::check()
}

fn main() {
    main_entry(&[
        Suite { name: "u8", f: scalar::<u8> },
        Suite { name: "u16", f: scalar::<u16> },
        Suite { name: "u32", f: scalar::<u32> },
        Suite { name: "u64", f: scalar::<u64> },
        Suite { name: "u128", f: scalar::<u128> },
        Suite { name: "usize", f: scalar::<usize> },
        Suite { name: "i8", f: signed::<i8> },
        Suite { name: "i16", f: signed::<i16> },
        Suite { name: "i32", f: signed::<i32> },
        Suite { name: "i64", f: signed::<i64> },
        Suite { name: "i128", f: signed::<i128> },
        Suite { name: "isize", f: signed::<isize> },
        Suite { name: "f32", f: signed::<f32> },
        Suite { name: "f64", f: signed::<f64> },
        Suite { name: "generic-tracked8", f: generic::<Tr8, Tr4> },
        Suite { name: "generic-tracked24", f: generic::<Tr24, W24> },
        Suite { name: "generic-string-u8", f: generic::<St, W8> },
        Suite { name: "generic-u16-zst", f: generic::<W16, TrZ1> },
        Suite { name: "generic-zst", f: generic::<TrZ8, Tr8> },
    ])
}
