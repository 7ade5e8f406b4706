//! C08: size and capacity overflow are reported as errors, never acted upon.
//! Every call runs in a forked child whose allocator ends the process on a huge request.
use matreex::index::AsIndex;
use matreex::{Error, Index, Matrix, Shape};
use mxv::child::*;
use mxv::*;
use std::ops::*;

#[global_allocator]
static GLOBAL: Guarded = Guarded;

// ------------------------------------------------------------------ element types

/// an element of N bytes
struct B<const N: usize>([u8; N]);
impl<const N: usize> Clone for B<N> {
    fn clone(&self) -> Self {
        fill();
        B(self.0)
    }
}
impl<const N: usize> Default for B<N> {
    fn default() -> Self {
        fill();
        B([0; N])
    }
}
impl<const N: usize> Add for B<N> {
    type Output = Self;
    fn add(self, _: Self) -> Self {
        fill();
        self
    }
}
/// a zero-sized element whose operators give N bytes
#[derive(Clone, Copy)]
struct Zl<const N: usize>;
impl<const N: usize> Default for Zl<N> {
    fn default() -> Self {
        fill();
        Zl
    }
}
macro_rules! zop {
    ($($t:ident $m:ident),*) => {$(
        impl<const N: usize> $t for Zl<N> {
            type Output = B<N>;
            fn $m(self, _: Self) -> B<N> {
                fill();
                B([0; N])
            }
        }
    )*};
}
zop!(Add add, Sub sub, Mul mul, Div div, Rem rem);

fn zst<T: Copy>(n: usize) -> Vec<T> {
    assert!(size_of::<T>() == 0);
    let mut v = Vec::new();
    // sound: inhabited zero-sized Copy elements
    unsafe { v.set_len(n) };
    v
}

fn zmatrix<T: Copy>(nr: usize, nc: usize, other: bool) -> Matrix<T> {
    let mut m = Matrix::from_row(zst::<T>(nr * nc));
    if other {
        m.switch_order_without_rearrangement();
    }
    m.reshape((nr, nc)).expect("harness: reshape");
    m
}

struct Custom(usize, usize);
impl From<Custom> for Shape {
    fn from(c: Custom) -> Shape {
        Shape::new(c.0, c.1)
    }
}
struct Ix(usize, usize);
impl AsIndex for Ix {
    fn row(&self) -> usize {
        self.0
    }
    fn col(&self) -> usize {
        self.1
    }
}

// ------------------------------------------------------------------ verdicts

fn done<T>(r: Result<Matrix<T>, Error>, nr: usize, nc: usize) -> i32 {
    match r {
        Err(e) => ops::code::<()>(Err(e)) as i32,
        Ok(m) => shape_ok(&m, nr, nc),
    }
}

fn shape_ok<T>(m: &Matrix<T>, nr: usize, nc: usize) -> i32 {
    let good = m.nrows() == nr
        && m.ncols() == nc
        && nr.checked_mul(nc) == Some(m.size())
        && m.iter_elements().len() == m.size()
        && m.get(Ix(nr, 0)).is_err()
        && m.get(Ix(0, nc)).is_err()
        && (m.size() == 0 || m.get(Ix(nr - 1, nc - 1)).is_ok());
    if good { GOOD } else { INCOHERENT }
}

/// what the property says about a request of nr x nc elements of `elem` bytes
fn wanted(nr: usize, nc: usize, elem: usize) -> i32 {
    let n = nr as u128 * nc as u128;
    if n > usize::MAX as u128 {
        1
    } else if n * elem as u128 > isize::MAX as u128 {
        3
    } else {
        GOOD
    }
}

fn judge(got: i32, want: i32, n: u128, elem: usize, what: &dyn Fn() -> String) -> R {
    let fine = got == want
        // the allocation may be impossible, and filling billions of elements is not waited for
        || want == GOOD && got == ALLOC && n * elem as u128 >= HUGE as u128 / 2
        || want == GOOD && got == FILLING && n > FILL_LIMIT as u128 / 8;
    ensure!(fine, "{}: expected {} but got {}", what(), code_name(want), code_name(got));
    Ok(())
}

// ------------------------------------------------------------------ generators

/// element counts around every limit, decomposed into two extents
fn boundary_shape(src: &mut Src, elem: usize) -> (usize, usize) {
    let top = usize::MAX as u128;
    let cap = isize::MAX as u128 / elem.max(1) as u128;
    let swap = src.flip();
    let small = |src: &mut Src| 1 + src.idx(12);
    let div = |src: &mut Src, n: u128, a: usize| -> usize {
        // around n / a
        let q = (n / a as u128).min(top);
        let d = src.idx(5) as u128;
        (q + d).saturating_sub(2).min(top) as usize
    };
    let (a, b) = match src.idx(12) {
        0 => (src.idx(40), src.idx(40)),
        // around isize::MAX bytes
        1 | 2 => {
            let a = if src.flip() { small(src) } else { 1 << src.idx(64) };
            let b = div(src, cap, a);
            (a, b)
        }
        // around usize::MAX elements
        3 | 4 => {
            let a = if src.flip() { small(src) } else { 1 << src.idx(64) };
            let b = div(src, top, a);
            (a, b)
        }
        // element counts which wrap to 0
        5 => {
            let k = src.idx(65);
            let a = if k == 64 { 0 } else { 1usize << k };
            (a, ((1u128 << (64 - k.min(64))).min(top)) as usize)
        }
        // element counts which wrap to something small: a * inv(a) = 1 mod 2^64
        6 => {
            let a = (src.u64() >> src.idx(60)) | 1;
            let mut x = a;
            for _ in 0..6 {
                x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x)));
            }
            (a as usize, x.wrapping_mul(src.below(6)) as usize)
        }
        // byte sizes which wrap to something small
        7 => {
            let e = elem.max(1) as u128;
            let n = ((1u128 << 64) * (1 + src.below(3) as u128)).div_ceil(e) + src.below(20) as u128;
            let a = small(src);
            (a, ((n / a as u128).min(top)) as usize)
        }
        8 => (usize::MAX - src.idx(3), src.idx(4)),
        9 => (usize::MAX - src.idx(3), usize::MAX - src.idx(3)),
        10 => ((isize::MAX as usize).wrapping_add(src.idx(4)).wrapping_sub(1), src.idx(4)),
        _ => ((src.u64() >> src.idx(64)) as usize, (src.u64() >> src.idx(64)) as usize),
    };
    if swap { (b, a) } else { (a, b) }
}

// ------------------------------------------------------------------ suites

fn nontrivial(cx: &mut Cx, want: i32, n: u128, elem: usize) {
    // an overflow, or within a factor of four of one
    cx.nontrivial = want != GOOD || n * elem.max(1) as u128 * 4 > isize::MAX as u128;
    cx.label(match want {
        1 => "SizeOverflow expected",
        3 => "CapacityOverflow expected",
        _ => "success expected",
    });
}

fn requests<const N: usize>(src: &mut Src, cx: &mut Cx) -> R {
    let (nr, nc) = boundary_shape(src, N);
    let call = src.idx(8);
    let n = nr as u128 * nc as u128;
    let mut want = wanted(nr, nc, N);
    let names = ["with_default", "with_value", "with_initializer", "resize", "resize from other size", "reshape", "Shape::size", "with_default([_; 2])"];
    let start = [(0, 0), (2, 3), (1, 1), (0, 5), (4, 0), (7, 2)][src.idx(6)];
    let flip = src.flip();
    let what = || format!("{} of {nr}x{nc} elements of {N} bytes (from {start:?}, flipped {flip})", names[call]);
    cx.note(|| what());
    let make = || {
        let mut m = Matrix::from_row((0..start.0 * start.1).map(|_| B([1; N])).collect::<Vec<_>>());
        m.reshape(start).expect("harness: reshape");
        if flip {
            m.switch_order_without_rearrangement();
        }
        m
    };
    let got = match call {
        0 => child(|| done(Matrix::<B<N>>::with_default((nr, nc)), nr, nc)),
        1 => child(|| done(Matrix::with_value(Shape::new(nr, nc), B([7; N])), nr, nc)),
        2 => child(|| {
            done(
                Matrix::with_initializer(Custom(nr, nc), |_: Index| {
                    fill();
                    B([3; N])
                }),
                nr,
                nc,
            )
        }),
        3 | 4 => {
            let mut m = make();
            child(|| {
                let before = (m.nrows(), m.ncols());
                match m.resize((nr, nc)).map(|_| ()) {
                    Ok(()) => shape_ok(&m, nr, nc),
                    Err(e) => match shape_ok(&m, before.0, before.1) {
                        GOOD => ops::code::<()>(Err(e)) as i32,
                        c => c,
                    },
                }
            })
        }
        5 => {
            let mut m = make();
            want = if n == m.size() as u128 { GOOD } else { 2 };
            child(|| {
                let before = (m.nrows(), m.ncols());
                match m.reshape((nr, nc)).map(|_| ()) {
                    Ok(()) => shape_ok(&m, nr, nc),
                    Err(e) => match shape_ok(&m, before.0, before.1) {
                        GOOD => ops::code::<()>(Err(e)) as i32,
                        c => c,
                    },
                }
            })
        }
        6 => {
            want = if n > usize::MAX as u128 { 1 } else { GOOD };
            child(|| match Shape::new(nr, nc).size() {
                Ok(s) => {
                    if s as u128 == n { GOOD } else { INCOHERENT }
                }
                Err(e) => ops::code::<()>(Err(e)) as i32,
            })
        }
        _ => child(|| done(Matrix::<B<N>>::with_default([nr, nc]), nr, nc)),
    };
    nontrivial(cx, if call == 5 { wanted(nr, nc, N) } else { want }, n, N);
    judge(got, want, n, N, &what)
}

/// Products of nr x inner and inner x nc zero-sized (or no) elements giving N-byte elements.
fn products<const N: usize>(src: &mut Src, cx: &mut Cx) -> R {
    let (nr, nc) = boundary_shape(src, N);
    let n = nr as u128 * nc as u128;
    let big = nr.max(nc).max(1);
    let inner = if src.flip() { 0 } else { 1 + src.idx(4) };
    // the operands themselves must exist
    let inner = if (big as u128 * inner as u128) > usize::MAX as u128 { src.idx(2) } else { inner };
    if n == 0 && inner > 0 && big > 1 << 16 {
        return Ok(()); // nothing to compute, but the loop over 2^63 empty rows is not waited for
    }
    let want = wanted(nr, nc, N);
    let (o, p) = (src.flip(), src.flip());
    let call = src.idx(6);
    let names = ["multiply", "multiplication_like_operation", "a * b", "&a * &b", "a * &b", "&a * b"];
    let what = || format!("{} of {nr}x{inner} and {inner}x{nc} to {N}-byte elements (switched {o} {p})", names[call]);
    cx.note(|| what());
    nontrivial(cx, want, n, N);
    let (a, b) = (zmatrix::<Zl<N>>(nr, inner, o), zmatrix::<Zl<N>>(inner, nc, p));
    let by_ref_clones = call >= 3 && big > 1 << 16 && inner > 0;
    if by_ref_clones {
        return Ok(()); // cloning 2^60 zero-sized elements is not waited for
    }
    let got = child(|| match call {
        0 => done(a.multiply(b), nr, nc),
        1 => done(
            a.multiplication_like_operation(b, |_, _| {
                fill();
                B([0; N])
            }),
            nr,
            nc,
        ),
        2 => shape_ok(&(a * b), nr, nc),
        3 => shape_ok(&(&a * &b), nr, nc),
        4 => shape_ok(&(a * &b), nr, nc),
        _ => shape_ok(&(&a * b), nr, nc),
    });
    // the operators report by panicking
    let got = if call >= 2 && want != GOOD && got == PANIC { want } else { got };
    judge(got, want, n, N, &what)
}

/// From zero-sized sources to N-byte results.
fn mappings<const N: usize>(src: &mut Src, cx: &mut Cx) -> R {
    let (nr, nc) = boundary_shape(src, N);
    let n = nr as u128 * nc as u128;
    if n > usize::MAX as u128 {
        return Ok(()); // no such matrix
    }
    let want = wanted(nr, nc, N);
    let (o, p) = (src.flip(), src.flip());
    let call = src.idx(CALLS.len());
    let what = || format!("{} of {nr}x{nc} zero-sized elements to {N} bytes (switched {o} {p})", CALLS[call]);
    cx.note(|| what());
    nontrivial(cx, want, n, N);
    cx.label(CALLS[call]);
    let a = zmatrix::<Zl<N>>(nr, nc, o);
    let b = zmatrix::<Zl<N>>(nr, nc, p);
    let mk = || {
        fill();
        B([0u8; N])
    };
    let got = child(|| {
        let r: Result<Matrix<B<N>>, Error> = match call {
            0 => a.map(|_| mk()),
            1 => a.map_ref(|_| mk()),
            2 => a.scalar_operation(&5u8, |_, _| mk()),
            3 => a.scalar_operation_consume_self(&5u8, |_, _| mk()),
            4 => a.elementwise_operation(&b, |_, _| mk()),
            5 => a.elementwise_operation_consume_self(&b, |_, _| mk()),
            6 => a.elementwise_add(&b),
            7 => a.elementwise_sub(&b),
            8 => a.elementwise_mul(&b),
            9 => a.elementwise_div(&b),
            10 => a.elementwise_rem(&b),
            11 => a.elementwise_add_consume_self(&b),
            12 => a.elementwise_sub_consume_self(&b),
            13 => a.elementwise_mul_consume_self(&b),
            14 => a.elementwise_div_consume_self(&b),
            15 => a.elementwise_rem_consume_self(&b),
            16 => a.par_map(|_| mk()),
            17 => a.par_map_ref(|_| mk()),
            18 => Ok(&a + &b),
            _ => Ok(a - b),
        };
        done(r, nr, nc)
    });
    let got = if call >= 18 && want != GOOD && got == PANIC { want } else { got };
    judge(got, want, n, N, &what)
}
const CALLS: [&str; 20] = [
    "map",
    "map_ref",
    "scalar_operation",
    "scalar_operation_consume_self",
    "elementwise_operation",
    "elementwise_operation_consume_self",
    "elementwise_add",
    "elementwise_sub",
    "elementwise_mul",
    "elementwise_div",
    "elementwise_rem",
    "elementwise_add_consume_self",
    "elementwise_sub_consume_self",
    "elementwise_mul_consume_self",
    "elementwise_div_consume_self",
    "elementwise_rem_consume_self",
    "par_map",
    "par_map_ref",
    "&a + &b",
    "a - b",
];

/// Rows of zero-sized elements: more elements than usize::MAX.
fn rows(src: &mut Src, cx: &mut Cx) -> R {
    let k = 1 + src.idx(6);
    let len = match src.idx(6) {
        0 => src.idx(50),
        1 => usize::MAX / k,
        2 => (usize::MAX / k).saturating_add(1),
        3 => usize::MAX - src.idx(3),
        4 => 1 << 63,
        _ => ((1u128 << 64) / k as u128).min(usize::MAX as u128) as usize,
    };
    let n = k as u128 * len as u128;
    let call = src.idx(5);
    let names = ["try_from(Vec<Vec>)", "try_from(&[Vec])", "try_from([Vec; N])", "from_row", "from_col"];
    let want = match call {
        3 | 4 => GOOD,
        _ => wanted(k, len, 0),
    };
    // moving or cloning 2^60 zero-sized elements one by one is not waited for
    if want == GOOD && call < 3 && n > 1 << 16 {
        return Ok(());
    }
    let what = || format!("{} with {k} rows of {len} zero-sized elements", names[call]);
    cx.note(|| what());
    nontrivial(cx, want, n, 0);
    cx.nontrivial = want != GOOD || len > 1 << 32;
    let v = || -> Vec<Vec<()>> { (0..k).map(|_| zst(len)).collect() };
    fn arr<const K: usize>(len: usize) -> Result<Matrix<()>, Error> {
        Matrix::try_from(std::array::from_fn::<Vec<()>, K, _>(|_| zst(len)))
    }
    let got = child(|| match call {
        0 => done(Matrix::try_from(v()), k, len),
        1 => done(Matrix::try_from(v().as_slice()), k, len),
        2 => done(
            match k {
                1 => arr::<1>(len),
                2 => arr::<2>(len),
                3 => arr::<3>(len),
                4 => arr::<4>(len),
                5 => arr::<5>(len),
                _ => arr::<6>(len),
            },
            k,
            len,
        ),
        3 => shape_ok(&Matrix::from_row(zst::<()>(len)), 1, len),
        _ => shape_ok(&Matrix::from_col(zst::<()>(len)), len, 1),
    });
    judge(got, want, n, 0, &what)
}

fn main() {
    main_entry(&[
        Suite { name: "requests-0B", f: requests::<0> },
        Suite { name: "requests-1B", f: requests::<1> },
        Suite { name: "requests-2B", f: requests::<2> },
        Suite { name: "requests-3B", f: requests::<3> },
        Suite { name: "requests-8B", f: requests::<8> },
        Suite { name: "requests-24B", f: requests::<24> },
        Suite { name: "requests-4096B", f: requests::<4096> },
        Suite { name: "products-0B", f: products::<0> },
        Suite { name: "products-1B", f: products::<1> },
        Suite { name: "products-8B", f: products::<8> },
        Suite { name: "products-24B", f: products::<24> },
        Suite { name: "mappings-0B", f: mappings::<0> },
        Suite { name: "mappings-1B", f: mappings::<1> },
        Suite { name: "mappings-3B", f: mappings::<3> },
        Suite { name: "mappings-16B", f: mappings::<16> },
        Suite { name: "mappings-4096B", f: mappings::<4096> },
        Suite { name: "rows", f: rows },
    ])
}
